------------------------------- MODULE Cliques -------------------------------
(***************************************************************************)
(* C22: enumeration of the complete subgraphs of a graph on 1..n, and of   *)
(* the maximal ones.  The breadth-first enumeration is a state machine; it *)
(* is checked against the definition for every graph on up to N vertices.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Adj(g, u, v) == {u, v} \in g
IsClique(g, C) == \A u, v \in C : u # v => Adj(g, u, v)
CliquesOf(g, n) == {C \in SUBSET (1..n) : IsClique(g, C)}
MaximalOf(g, n) == LET K == CliquesOf(g, n) IN {C \in K : ~\E v \in (1..n) \ C : IsClique(g, C \cup {v})}

CONSTANT N
VARIABLES g, n, queue, all, maxi
cv == <<g, n, queue, all, maxi>>
Edges(k) == {{u, v} : u \in 1..k, v \in 1..k} \ {{u} : u \in 1..k}
Larger(u, C) == {v \in C : v > u}
Top(C) == CHOOSE x \in C : \A y \in C : y <= x
Init == /\ n \in 1..N
        /\ g \in SUBSET Edges(n)
        /\ queue = [u \in 1..n |-> [base |-> <<u>>, cn |-> {v \in 1..n : v > u /\ Adj(g, u, v)}]]
        /\ all = << <<>> >> /\ maxi = <<>>
Visit == /\ queue # <<>>
         /\ LET b == queue[1].base cn == queue[1].cn rest == Tail(queue)
                ext == SetToSortSeq(cn, <)
            IN /\ all' = Append(all, b)
               /\ IF cn = {}
                  THEN /\ maxi' = IF \E i \in DOMAIN rest : ToSet(b) \subseteq ToSet(rest[i].base) THEN maxi ELSE Append(maxi, b)
                       /\ queue' = rest
                  ELSE /\ queue' = rest \o [i \in DOMAIN ext |->
                                    [base |-> Append(b, ext[i]), cn |-> {v \in cn : v > ext[i] /\ Adj(g, ext[i], v)}]]
                       /\ maxi' = maxi
         /\ UNCHANGED <<g, n>>
Done == queue = <<>> /\ UNCHANGED cv
Spec == Init /\ [][Visit \/ Done]_cv
NoRepeat(s) == \A i, j \in DOMAIN s : i # j => ToSet(s[i]) # ToSet(s[j])
Partial == /\ NoRepeat(all)
           /\ \A i \in DOMAIN all : IsClique(g, ToSet(all[i]))
           /\ \A i \in DOMAIN maxi : ToSet(maxi[i]) \in MaximalOf(g, n)
Final == queue = <<>> => /\ {ToSet(all[i]) : i \in DOMAIN all} = CliquesOf(g, n)
                         /\ {ToSet(maxi[i]) : i \in DOMAIN maxi} = MaximalOf(g, n)
                         /\ NoRepeat(maxi)
=============================================================================
