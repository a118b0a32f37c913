------------------------------ MODULE AlgebraMC ------------------------------
(***************************************************************************)
(* The normal form decides equality of products.  Over every commutation   *)
(* relation between M measurements of two outcomes, the rewriting system   *)
(* (exchange of commuting neighbours, a a <-> a, two outcomes of one       *)
(* measurement next to each other vanish) is explored from every word; the *)
(* normal form may not change on the way, is the least word of its class,  *)
(* and is zero exactly when the rewriting can reach zero.                  *)
(***************************************************************************)
EXTENDS Algebra
CONSTANTS M,        \* measurements; operators 1..2M, measurement of i is (i + 1) \div 2
          L,        \* length of the words
          X         \* how much longer they may get on the way
VARIABLES nc, w, c, start
mv == <<nc, w, c, start>>
Meas(i) == (i + 1) \div 2
OpSet == 1..(2 * M)
OrthM == [i \in OpSet |-> [j \in OpSet |-> i # j /\ Meas(i) = Meas(j)]]
MPairs == {p \in SUBSET (1..M) : Cardinality(p) = 2}
NcOf(G) == [i \in OpSet |-> [j \in OpSet |-> {Meas(i), Meas(j)} \in G]]
al == [nc |-> nc, orth |-> OrthM, ov |-> nc]
WordsUpTo(k) == UNION {[1..n -> OpSet] : n \in 0..k}

Init == \E G \in SUBSET MPairs, u \in WordsUpTo(L) :
          /\ nc = NcOf(G) /\ w = u /\ start = u
          /\ c = Canon([nc |-> NcOf(G), orth |-> OrthM], u)
Cut(u, i) == SubSeq(u, 1, i - 1) \o SubSeq(u, i + 1, Len(u))
Swap == \E i \in 1..(Len(w) - 1) : ~nc[w[i]][w[i + 1]] /\ w' = [w EXCEPT ![i] = w[i + 1], ![i + 1] = w[i]]
Merge == \E i \in 1..(Len(w) - 1) : w[i] = w[i + 1] /\ w' = Cut(w, i)
Split == Len(w) < L + X /\ \E i \in 1..Len(w) : w' = SubSeq(w, 1, i) \o SubSeq(w, i, Len(w))
Vanish == (\E i \in 1..(Len(w) - 1) : OrthM[w[i]][w[i + 1]]) /\ w' = ZERO
Next == w # ZERO /\ (Swap \/ Merge \/ Split \/ Vanish) /\ UNCHANGED <<nc, c, start>>
Spec == Init /\ [][Next]_mv
StateView == <<nc, w, c>>

Invariant == Canon(al, w) = c                                       \* one representative per class; zero only of zero
Least == c = ZERO \/ w = ZERO \/ c = w \/ WLt(c, w)                 \* and it is the least word
(* The normal form is reached: its own steps are exchanges, merges and the vanishing of neighbours. *)
Idempotent == c = ZERO \/ Canon(al, c) = c
Reverses == Canon(al, Rev(IF w = ZERO THEN <<1, 2>> ELSE w)) = IF c = ZERO THEN ZERO ELSE Canon(al, Rev(c))
(* A product equal to its own reverse is v* m v with m a product of commuting operators. *)
RECURSIVE Peel(_)
Peel(u) == IF AllCommute(al, u) THEN TRUE
           ELSE \E i \in 1..Len(u), j \in 1..Len(u) :
                  /\ i < j /\ u[i] = u[j]
                  /\ \A k \in 1..(i - 1) : ~nc[u[k]][u[i]]
                  /\ \A k \in (j + 1)..Len(u) : ~nc[u[k]][u[j]]
                  /\ Peel(SubSeq(u, 1, i - 1) \o SubSeq(u, i + 1, j - 1) \o SubSeq(u, j + 1, Len(u)))
SelfReverse == c = ZERO \/ Canon(al, Rev(c)) # c \/ Peel(c)
(* Whatever is split along independent operators can be put together again. *)
Together == LET f == Factors(al, IF c = ZERO THEN <<>> ELSE c) IN c = ZERO \/ LexNF(nc, FlattenSeq(f)) = c
Inv == Invariant /\ Least /\ Idempotent /\ Reverses /\ SelfReverse /\ Together
=============================================================================
