----------------------------- MODULE ConicProg -----------------------------
(***************************************************************************)
(* Semidefinite programs: maximise f.x + k over the x in the halfspaces H  *)
(* at which the symmetric matrix G(x), with affine entries, is positive    *)
(* semidefinite.  A conic task in the optimiser's own format describes one *)
(* such program, either directly (the entries of its matrix variable are   *)
(* affine in its scalars) or as the Lagrange dual.                         *)
(***************************************************************************)
EXTENDS LinProg, TLC

Aff(l, c) == [l |-> l, c |-> c]
AZero == Aff(LEmpty, RZero)
APlus(a, b) == Aff(LPlus(a.l, b.l), RAdd(a.c, b.c))
ATimes(r, a) == Aff(LTimes(r, a.l), RMul(r, a.c))
RECURSIVE ASum(_)
ASum(s) == IF s = <<>> THEN AZero ELSE APlus(s[1], ASum(Tail(s)))
GeqA(a) == Geq(a.l, RNeg(a.c))
EqA(a) == Eq(a.l, RNeg(a.c))
EvalA(a, x) == FoldSet(LAMBDA i, acc : RAdd(acc, RMul(a.l[i], x[i])), a.c, DOMAIN a.l)
Cells(d) == {pq \in (1..d) \X (1..d) : pq[1] <= pq[2]}

(***************************************************************************)
(* The program a call states.  Variables 1..n, and n+1 for the eigenvalue  *)
(* bound of relaxed feasibility problems.                                  *)
(***************************************************************************)
SemiOf(ev, i) == {k \in DOMAIN ev.semi : ev.semi[k][1] = i}
Subst0(ev, kn, i) == IF i \in DOMAIN kn THEN Aff(LEmpty, kn[i]) ELSE Aff(Unit(i), RZero)
Subst(ev, kn, i) == IF ~ev.process \/ i \in DOMAIN kn \/ SemiOf(ev, i) = {} THEN Subst0(ev, kn, i)
                    ELSE LET s == ev.semi[CHOOSE k \in SemiOf(ev, i) : TRUE] IN ATimes(s[2], Subst0(ev, kn, s[3]))
StatedC(ev, known) ==
  LET kn == Pairs(known)
      lam == ev.n + 1
      sb == TLCEval([i \in 1..ev.n |-> Subst(ev, kn, i)])
      A(row) == ASum([k \in DOMAIN row |-> ATimes(row[k][2], sb[row[k][1]])])
      at(pq) == FlattenSeq([k \in DOMAIN ev.masks |->
                  LET es == SelectSeq(ev.masks[k][2], LAMBDA t : t[1] = pq[1] /\ t[2] = pq[2])
                  IN [j \in DOMAIN es |-> ATimes(es[j][3], sb[ev.masks[k][1]])]])
      o == A(ev.obj)
  IN [H |-> UNION {GeqA(A(ev.ineq[k])) : k \in DOMAIN ev.ineq}
            \cup UNION {EqA(A(ev.eq[k])) : k \in DOMAIN ev.eq}
            \cup (IF ev.process THEN {} ELSE UNION {EqA(APlus(sb[ev.semi[k][1]], ATimes(RNeg(ev.semi[k][2]), sb[ev.semi[k][3]]))) : k \in DOMAIN ev.semi})
            \cup (IF ev.nonneg THEN UNION {GeqA(sb[i]) : i \in ev.occurs \ DOMAIN kn} ELSE {}),
      G |-> [pq \in Cells(ev.dim) |-> APlus(ASum(at(pq)),
              IF ev.feas /\ ev.dim > 0 /\ pq[1] = pq[2] THEN Aff(LTimes(<<-1, 1>>, Unit(lam)), RZero) ELSE AZero)],
      f |-> IF ev.feas THEN (IF ev.dim > 0 THEN Unit(lam) ELSE LEmpty) ELSE o.l,
      k |-> IF ev.feas THEN RZero ELSE o.c,
      vars |-> {i \in 1..ev.n : /\ i \in ev.occurs /\ i \notin DOMAIN kn
                                /\ ~(ev.process /\ SemiOf(ev, i) # {})}
               \cup (IF ev.feas /\ ev.dim > 0 THEN {lam} ELSE {})]

(***************************************************************************)
(* The program a conic task describes, over the task's own variables       *)
(* (direct form) or over the multipliers of its rows (dual form).          *)
(***************************************************************************)
FixedVars(t) == {j \in 1..t.numvar : t.var[j][1] = "fx"}
Unfix(t) ==
  LET F == FixedVars(t)
      row(i) == LinOf(t.rows[i])
      moved(l) == FoldSet(LAMBDA j, acc : RAdd(acc, RMul(l[j], t.var[j][2])), RZero, DOMAIN l \cap F)
      keep(l) == [j \in DOMAIN l \ F |-> l[j]]
      rs == TLCEval([i \in 1..t.numcon |-> row(i)])
      sh(b, m) == <<b[1], IF b[1] \in {"lo", "fx", "ra"} THEN RSub(b[2], m) ELSE b[2], IF b[1] \in {"up", "fx", "ra"} THEN RSub(b[3], m) ELSE b[3]>>
      c == LinOf([j \in 1..t.numvar |-> <<j, t.c[j]>>])
  IN TLCEval([rows |-> [i \in 1..t.numcon |-> keep(rs[i])], con |-> [i \in 1..t.numcon |-> sh(t.con[i], moved(rs[i]))],
      c |-> keep(c), k |-> RAdd(t.cfix, moved(c)), free |-> (1..t.numvar) \ F])

Coef(t, i) == SelectSeq(t.bara, LAMBDA e : e[1] = i)
MatDim(t) == IF Len(t.dims) = 1 THEN t.dims[1] ELSE 0
OneMatrix(t) == Len(t.dims) <= 1 /\ \A k \in DOMAIN t.bara : t.bara[k][2] = 1
Sense(t) == IF t.sense = "max" THEN ROne ELSE <<-1, 1>>

(* rows with matrix entries: each must give one entry, every entry must be given once *)
MatRows(t) == {i \in 1..t.numcon : Coef(t, i) # <<>>}
DirectForm(t) == /\ OneMatrix(t) /\ t.barc = <<>>
                 /\ \A i \in MatRows(t) : Len(Coef(t, i)) = 1 /\ t.con[i][1] = "fx"
                 /\ \A pq \in Cells(MatDim(t)) : Cardinality({i \in MatRows(t) : Coef(t, i)[1][3] = pq[2] /\ Coef(t, i)[1][4] = pq[1]}) = 1
Direct(t) ==
  LET u == Unfix(t)
      M == MatRows(t)
      cell(pq) == LET i == CHOOSE i \in M : Coef(t, i)[1][3] = pq[2] /\ Coef(t, i)[1][4] = pq[1]
                      w == RMul(Coef(t, i)[1][5], IF pq[1] = pq[2] THEN ROne ELSE R(2))
                  IN ATimes(RInv(w), Aff(LTimes(<<-1, 1>>, u.rows[i]), u.con[i][2]))
  IN [H |-> UNION {FromBound(u.rows[i], u.con[i]) : i \in (1..t.numcon) \ M} \cup UNION {FromBound(Unit(j), t.var[j]) : j \in u.free},
      G |-> [pq \in Cells(MatDim(t)) |-> cell(pq)], f |-> LTimes(Sense(t), u.c), k |-> RMul(Sense(t), u.k)]

DualForm(t) == /\ OneMatrix(t) /\ t.sense = "min"
               /\ \A j \in (1..t.numvar) \ FixedVars(t) : CASE t.var[j][1] = "lo" -> t.var[j][2] = RZero
                                                             [] t.var[j][1] = "up" -> t.var[j][3] = RZero
                                                             [] t.var[j][1] = "fr" -> TRUE
                                                             [] OTHER -> FALSE
               /\ \A i \in 1..t.numcon : t.con[i][1] \in {"lo", "up", "fx", "fr"}
Lagrange(t) ==
  LET u == Unfix(t)
      col(j) == [i \in {i \in 1..t.numcon : j \in DOMAIN u.rows[i]} |-> u.rows[i][j]]
      cj(j) == IF j \in DOMAIN u.c THEN u.c[j] ELSE RZero
      line(j) == CASE t.var[j][1] = "up" -> Geq(col(j), cj(j))
                   [] t.var[j][1] = "lo" -> Leq(col(j), cj(j))
                   [] t.var[j][1] = "fr" -> Eq(col(j), cj(j))
      sgn(i) == CASE t.con[i][1] = "lo" -> Geq(Unit(i), RZero)
                  [] t.con[i][1] = "up" -> Leq(Unit(i), RZero)
                  [] t.con[i][1] = "fr" -> Eq(Unit(i), RZero)
                  [] OTHER -> {}
      rhs(i) == IF t.con[i][1] = "up" THEN u.con[i][3] ELSE IF t.con[i][1] = "fr" THEN RZero ELSE u.con[i][2]
      cell(pq) == APlus(ASum([k \in DOMAIN t.barc |-> IF t.barc[k][2] = pq[2] /\ t.barc[k][3] = pq[1] THEN Aff(LEmpty, t.barc[k][4]) ELSE AZero]),
                        LET es == SelectSeq(t.bara, LAMBDA e : e[3] = pq[2] /\ e[4] = pq[1])
                        IN ASum([k \in DOMAIN es |-> Aff(LTimes(RNeg(es[k][5]), Unit(es[k][1])), RZero)]))
  IN [H |-> UNION {line(j) : j \in u.free} \cup UNION {sgn(i) : i \in 1..t.numcon},
      G |-> [pq \in Cells(MatDim(t)) |-> cell(pq)],
      f |-> LinOf([i \in 1..t.numcon |-> <<i, rhs(i)>>]), k |-> u.k]

(* change of variables: task variable mp[i] equals sg[i] times stated variable i *)
RenameL(l, mp, sg) == [i \in {i \in DOMAIN mp : mp[i] \in DOMAIN l} |-> RMul(sg[i], l[mp[i]])]
RenameA(a, mp, sg) == Aff(RenameL(a.l, mp, sg), a.c)
Covered(l, mp) == DOMAIN l \subseteq {mp[i] : i \in DOMAIN mp}
CoveredP(P, mp) == /\ \A h \in P.H : Covered(h[1], mp)
                   /\ \A pq \in DOMAIN P.G : Covered(P.G[pq].l, mp)
                   /\ Covered(P.f, mp)
RenameP(P, mp, sg) == [H |-> {Half(RenameL(h[1], mp, sg), h[2]) : h \in P.H},
                       G |-> [pq \in DOMAIN P.G |-> RenameA(P.G[pq], mp, sg)],
                       f |-> RenameL(P.f, mp, sg), k |-> P.k]
NormalG(H0, G) ==
  LET fv == FixVals(Tight(H0))
  IN [pq \in DOMAIN G |-> LET a == G[pq] fx == DOMAIN a.l \cap DOMAIN fv IN
        Aff([i \in DOMAIN a.l \ fx |-> a.l[i]], RAdd(a.c, FoldSet(LAMBDA i, acc : RAdd(acc, RMul(a.l[i], fv[i])), RZero, fx)))]
=============================================================================
