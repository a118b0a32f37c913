------------------------------- MODULE T_C20 -------------------------------
(* C20: the files written for a semidefinite relaxation, read by their formats' rules, are the program handed to the solver. *)
EXTENDS Harness, ConicProg
PrepareC20(bl) == <<>>
StartC20(bl, c) == <<>>
Bad(cond, name) == IF cond THEN {} ELSE {name}
AffOf(row, one) == LET l == LinOf(row) IN Aff([i \in DOMAIN l \ {one} |-> l[i]], IF one \in DOMAIN l THEN l[one] ELSE RZero)
Neg(l) == LTimes(<<-1, 1>>, l)

(* two programs over the same variables *)
Compare(P, S) ==
  LET NS == TLCEval(Solved(S.H)) NP == TLCEval(Solved(P.H)) IN
  IF NS = {Never} \/ NP = {Never} THEN Bad(NS = NP, "contradiction")
  ELSE Bad(NP \subseteq NS, "extra_constraint") \cup Bad(NS \subseteq NP, "missing_constraint")
       \cup Bad(DOMAIN P.G = DOMAIN S.G /\ NormalG(NP, P.G) = NormalG(NS, S.G), "matrix")
Objective(P, S) == LET NS == Solved(S.H) NP == Solved(P.H) IN
                   NS = {Never} \/ NormalObj(NP, P.f, P.k) = NormalObj(NS, S.f, S.k)

(***************************************************************************)
(* SDPA: minimise c.x where sum_i F_i x_i - F_0 is positive semidefinite;  *)
(* diagonal blocks have negative sizes.  Constants of the objective are    *)
(* only mentioned in a comment.                                            *)
(***************************************************************************)
WellFormed(t, dim) ==
  /\ Len(t.struct) = t.nblocks /\ t.nblocks >= 1 /\ t.struct[1] = dim
  /\ \A b \in 2..t.nblocks : t.struct[b] < 0
  /\ Len(t.c) = t.nvars
  /\ \A k \in DOMAIN t.ents : LET e == t.ents[k] IN
       /\ e[1] \in 0..t.nvars /\ e[2] \in 1..t.nblocks
       /\ 1 <= e[3] /\ e[3] <= e[4] /\ e[4] <= (IF t.struct[e[2]] < 0 THEN -t.struct[e[2]] ELSE t.struct[e[2]])
       /\ (t.struct[e[2]] < 0 => e[3] = e[4])
  /\ Cardinality({<<t.ents[k][1], t.ents[k][2], t.ents[k][3], t.ents[k][4]>> : k \in DOMAIN t.ents}) = Len(t.ents)
Sdpa(t) ==
  LET at(b, p, q) == LET es == SelectSeq(t.ents, LAMBDA e : e[2] = b /\ e[3] = p /\ e[4] = q)
                     IN ASum([k \in DOMAIN es |-> IF es[k][1] = 0 THEN Aff(LEmpty, RNeg(es[k][5])) ELSE Aff(LTimes(es[k][5], Unit(es[k][1])), RZero)])
  IN [H |-> UNION {UNION {GeqA(at(b, i, i)) : i \in 1..(-t.struct[b])} : b \in 2..t.nblocks},
      G |-> [pq \in Cells(t.struct[1]) |-> at(1, pq[1], pq[2])],
      f |-> Neg(LinOf([j \in 1..t.nvars |-> <<j, t.c[j]>>])), k |-> t.const]
(* the variables of the file are those of the program with the same places in the moment matrix; those with no place
   there may stand for each other in any way that makes the programs agree *)
Places(G, i) == {<<pq, G[pq].l[i]>> : pq \in {c \in DOMAIN G : i \in DOMAIN G[c].l}}
Mentioned(P) == DOMAIN P.f \cup UNION {DOMAIN h[1] : h \in P.H} \cup UNION {DOMAIN P.G[pq].l : pq \in DOMAIN P.G}
SdpaBad(ev, S) ==
  IF ~WellFormed(ev.file, ev.dim) THEN {"malformed"} ELSE
  LET P == TLCEval(Sdpa(ev.file))
      pS == TLCEval([i \in Mentioned(S) |-> Places(S.G, i)])
      pP == TLCEval([j \in Mentioned(P) |-> Places(P.G, j)])
      uS == {i \in DOMAIN pS : pS[i] = {}}
      uP == {j \in DOMAIN pP : pP[j] = {}}
      placed == {i \in DOMAIN pS : pS[i] # {}}
      same(i) == {j \in DOMAIN pP : pP[j] = pS[i]}
      fits == {g \in [uS -> uP] : \A a, b \in uS : g[a] = g[b] => a = b}
      Try(g) == LET mp == TLCEval([i \in DOMAIN pS |-> IF i \in uS THEN g[i] ELSE CHOOSE j \in same(i) : TRUE])
                    Q == TLCEval(RenameP(P, mp, [i \in DOMAIN mp |-> ROne]))
                    flip == [Q EXCEPT !.f = Neg(Q.f)]
                IN IF ~CoveredP(P, mp) THEN {"unknown_variable"}
                   ELSE Compare(Q, S) \cup (IF Objective(Q, S) THEN {} ELSE IF Objective(flip, S) THEN {"objective_sense"} ELSE {"objective"})
  IN IF (\E i \in placed : Cardinality(same(i)) # 1) \/ Cardinality(uS) # Cardinality(uP) THEN {"variables"}
     ELSE IF Cardinality(uS) > 5 THEN {}
     ELSE LET rs == TLCEval({Try(g) : g \in fits}) IN CHOOSE r \in rs : \A s \in rs : Cardinality(r) <= Cardinality(s)

(* ---- the table for people: everything is written in moments that are neither known nor proportional to others ---- *)
Csv(t, one) ==
  LET bound(b) == LET a == AffOf(b[2], one) r == RSub(b[3], a.c) IN IF b[1] = "lo" THEN Geq(a.l, r) ELSE Leq(a.l, r)
      cell(pq) == LET es == SelectSeq(t.cells, LAMBDA e : e[1] = pq[1] /\ e[2] = pq[2]) IN AffOf(es[1][3], one)
      o == AffOf(t.obj, one)
  IN [H |-> UNION {bound(t.bounds[k]) : k \in DOMAIN t.bounds} \cup UNION {EqA(AffOf(t.eq[k], one)) : k \in DOMAIN t.eq}
            \cup UNION {GeqA(AffOf(t.ineq[k], one)) : k \in DOMAIN t.ineq},
      G |-> [pq \in Cells(t.dim) |-> cell(pq)], f |-> o.l, k |-> o.c]
CsvBad(ev, S) ==
  LET P == TLCEval(Csv(ev.file, ev.one)) IN
  Bad(ev.file.low, "lower_triangle") \cup
  (IF ~(Mentioned(P) \subseteq S.vars) THEN {"unknown_variable"} ELSE Compare(P, S) \cup Bad(Objective(P, S), "objective"))

(* ---- MATLAB: the same lists the program is stated with ------------------------------------------------------------ *)
MatBad(ev, S) ==
  LET t == ev.file
      bnd(v, s) == << <<v[1], s>>, <<ev.one, RNeg(RMul(s, v[2]))>> >>
      ev2 == [ev EXCEPT !.dim = t.dim, !.masks = t.masks, !.obj = t.obj, !.semi = t.semi, !.eq = t.eq,
              !.known = Append(SelectSeq(t.known, LAMBDA v : v[1] # ev.one), <<ev.one, ROne>>),
              !.ineq = t.ineq \o [k \in DOMAIN t.lo |-> bnd(t.lo[k], ROne)] \o [k \in DOMAIN t.up |-> bnd(t.up[k], <<-1, 1>>)]]
      P == TLCEval(StatedC(ev2, ev2.known))
  IN Bad(t.sym, "matrix_symmetry") \cup Bad(Pairs(ev2.known) = Pairs(ev.known), "fixed_values")
     \cup Compare(P, S) \cup Bad(Objective(P, S), "objective")

StepC20(c, st, ev0) ==
  LET ev == [ev0 EXCEPT !.occurs = {ev0.occurs[k] : k \in DOMAIN ev0.occurs}] IN
  [st |-> st, bad |->
   IF ev.exc # "" THEN {"raised"}
   ELSE LET S == TLCEval(StatedC(ev, ev.known))
            bad == CASE ev.form = "dat-s" -> SdpaBad(ev, S) [] ev.form = "csv" -> CsvBad(ev, S) [] ev.form = "mat" -> MatBad(ev, S)
        IN bad]
=============================================================================
