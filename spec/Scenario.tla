------------------------------ MODULE Scenario ------------------------------
(***************************************************************************)
(* What a causal scenario is, and what it unpacks into.                    *)
(*                                                                         *)
(* Everything here is derived from the raw description `inp`:              *)
(*   inp.dag    sequence of <<parent, <<children>>>> in insertion order     *)
(*              (nodes are numbers, their alphabetical rank)               *)
(*   inp.outs, inp.sets, inp.lvl (inp.lvlint: one level for all sources),  *)
(*   inp.clsall / inp.cls classical sources, inp.cil / inp.ncil classical  *)
(*   and nonclassical intermediate latents, inp.order party order          *)
(* An operator is a row <<party, copy of source 1, .., copy of source S,   *)
(* setting, outcome>> (copy 0: the party does not descend from the source; *)
(* settings and outcomes count from 0).                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Rng(s) == {s[i] : i \in DOMAIN s}

RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN 1 ELSE s[1] * ProdSeq(Tail(s))

(* All tuples of Cartesian product {0..d[1]-1} x .. in row-major order.    *)
RECURSIVE NdIndex(_)
NdIndex(d) == IF d = <<>> THEN << <<>> >>
              ELSE LET rest == NdIndex(Tail(d))
                   IN TLCEval([k \in 1..(d[1] * Len(rest)) |->
                        <<(k - 1) \div Len(rest)>> \o rest[((k - 1) % Len(rest)) + 1]])

Nodes(inp) == {e[1] : e \in Rng(inp.dag)} \cup UNION {Rng(e[2]) : e \in Rng(inp.dag)}
ChildrenOf(inp, n) == UNION {Rng(e[2]) : e \in {x \in Rng(inp.dag) : x[1] = n}}
Inter(inp) == Rng(inp.cil) \cup Rng(inp.ncil)
Visible(inp) == (UNION {Rng(e[2]) : e \in Rng(inp.dag)}) \ Inter(inp)
Parents1(inp) == [i \in DOMAIN inp.dag |-> inp.dag[i][1]]
Sources(inp) == SelectSeq(Parents1(inp), LAMBDA n : n \notin Visible(inp) \cup Inter(inp))
PartySeq(inp) == IF Rng(inp.order) = Visible(inp) /\ inp.order # <<>> THEN inp.order
                 ELSE SetToSortSeq(Visible(inp), <)
Levels(inp) == IF inp.lvlint THEN [s \in DOMAIN Sources(inp) |-> inp.lvl[1]]
               ELSE IF inp.lvl = <<>> THEN [s \in DOMAIN Sources(inp) |-> 1] ELSE inp.lvl
IsClassical(inp, n) == inp.clsall \/ n \in Rng(inp.cls)

(* The descriptions the library has to refuse.                             *)
Malformed(inp) ==
  LET V == Visible(inp) S == Sources(inp) IN
  \/ Rng(inp.cil) \cap Rng(inp.ncil) # {}
  \/ Len(inp.outs) # Cardinality(V)
  \/ inp.outs = <<>>
  \/ inp.sets # <<>> /\ Len(inp.sets) # Len(inp.outs)
  \/ ~inp.clsall /\ ~(Rng(inp.cls) \subseteq Rng(S))
  \/ \E n \in V : ~(ChildrenOf(inp, n) \subseteq V)                \* observed -> latent
  \/ \E n \in Inter(inp) : ~(ChildrenOf(inp, n) \subseteq V)       \* latent -> latent
  \/ ~inp.lvlint /\ inp.lvl # <<>> /\ Len(inp.lvl) # Len(S)
  \/ \E n \in V : ~\E s \in Rng(S) : n \in ChildrenOf(inp, s)
        \/ \E l \in Inter(inp) : l \in ChildrenOf(inp, s) /\ n \in ChildrenOf(inp, l)
  \/ \E l \in Rng(inp.ncil) : \A s \in {x \in Nodes(inp) : l \in ChildrenOf(inp, x)} : IsClassical(inp, s)

(* Source s reaches party q.                                               *)
Reaches(inp, s, q) == \/ q \in ChildrenOf(inp, s)
                      \/ \E l \in Inter(inp) : l \in ChildrenOf(inp, s) /\ q \in ChildrenOf(inp, l)

(* How source s is shared by operators of parties p and q (0 not at all, 1 classically, 2 as a quantum system): *)
(* operators of one party share what the party descends from; operators of two parties share what an           *)
(* intermediate latent passes on to both.                                                                       *)
Kind(inp, p, q, s) ==
  LET ls == {l \in Inter(inp) : l \in ChildrenOf(inp, s) /\ p \in ChildrenOf(inp, l) /\ q \in ChildrenOf(inp, l)}
      viaq == \E l \in ls : l \in Rng(inp.ncil) /\ ~IsClassical(inp, s)
      direct == p = q /\ p \in ChildrenOf(inp, s)
  IN IF (direct /\ ~IsClassical(inp, s)) \/ viaq THEN 2
     ELSE IF direct \/ ls # {} THEN 1 ELSE 0

Derive(inp) ==
  LET ps   == TLCEval(PartySeq(inp))
      P    == Len(ps)
      ss   == TLCEval(Sources(inp))
      S    == Len(ss)
      lv   == TLCEval(Levels(inp))
      priv == TLCEval(IF inp.sets = <<>> THEN [p \in 1..P |-> 1] ELSE inp.sets)
      par  == TLCEval([p \in 1..P |-> SelectSeq([q \in 1..P |-> q], LAMBDA q : ps[p] \in ChildrenOf(inp, ps[q]))])
      dims == TLCEval([p \in 1..P |-> <<priv[p]>> \o [k \in DOMAIN par[p] |-> inp.outs[par[p][k]]]])
      eff  == TLCEval([p \in 1..P |-> NdIndex(dims[p])])
      hyp  == TLCEval([s \in 1..S |-> [p \in 1..P |-> Reaches(inp, ss[s], ps[p])]])
      kind == TLCEval([p \in 1..P |-> [q \in 1..P |-> [s \in 1..S |-> Kind(inp, ps[p], ps[q], ss[s])]]])
      cpys == TLCEval([p \in 1..P |-> LET nd == NdIndex([s \in 1..S |-> IF hyp[s][p] THEN lv[s] ELSE 1])
                       IN [k \in DOMAIN nd |-> [s \in 1..S |-> IF hyp[s][p] THEN nd[k][s] + 1 ELSE 0]]])
      rows == TLCEval([p \in 1..P |->
                LET nd == NdIndex(<<Len(cpys[p]), Len(eff[p]), inp.outs[p]>>)
                IN [k \in DOMAIN nd |-> <<p>> \o cpys[p][nd[k][1] + 1] \o <<nd[k][2], nd[k][3]>>]])
  IN TLCEval([P |-> P, S |-> S, parties |-> ps, sources |-> ss, lv |-> lv, outs |-> inp.outs, priv |-> priv,
              par |-> par, sets |-> [p \in 1..P |-> Len(eff[p])], eff |-> eff, hyp |-> hyp, kind |-> kind,
              copies |-> cpys, ops |-> FlattenSeq(rows), cls |-> [s \in 1..S |-> IsClassical(inp, ss[s])],
              network |-> \A p \in 1..P : par[p] = <<>>,
              haschild |-> [p \in 1..P |-> \E q \in 1..P : p \in Rng(par[q])]])

(* Fields of an operator row.                                              *)
Pty(o) == o[1]
Cpy(o, s) == o[s + 1]
Setg(o) == o[Len(o) - 1]
Outc(o) == o[Len(o)]
=============================================================================
