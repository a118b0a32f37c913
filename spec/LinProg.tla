------------------------------ MODULE LinProg ------------------------------
(***************************************************************************)
(* Linear programs.  A program is a set of halfspaces a.x >= r over        *)
(* numbered variables together with a linear objective to maximise and a   *)
(* constant.  Two descriptions are the same program when, after fixed      *)
(* variables are substituted and redundant parallel halfspaces removed,    *)
(* the halfspaces and the objectives agree.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Rat

LEmpty == [i \in {} |-> RZero]
LinOf(pairs) == LET keys == {pairs[k][1] : k \in DOMAIN pairs}
                    tot(i) == RSumSeq([k \in DOMAIN pairs |-> IF pairs[k][1] = i THEN pairs[k][2] ELSE RZero])
                IN [i \in {j \in keys : tot(j)[1] # 0} |-> tot(i)]
LPlus(f, g) == LET keys == DOMAIN f \cup DOMAIN g
                   tot(i) == RAdd(IF i \in DOMAIN f THEN f[i] ELSE RZero, IF i \in DOMAIN g THEN g[i] ELSE RZero)
               IN [i \in {j \in keys : tot(j)[1] # 0} |-> tot(i)]
LTimes(r, f) == IF r[1] = 0 THEN LEmpty ELSE [i \in DOMAIN f |-> RMul(r, f[i])]
Unit(i) == [j \in {i} |-> ROne]
Pairs(vs) == [i \in {vs[k][1] : k \in DOMAIN vs} |-> vs[CHOOSE k \in DOMAIN vs : vs[k][1] = i][2]]

(* halfspace <<a, r>>: a.x >= r, scaled so that the leading coefficient is 1 or -1 *)
Half(a, r) == IF DOMAIN a = {} THEN <<a, IF RLe(r, RZero) THEN RZero ELSE ROne>>
              ELSE LET s == RInv(RAbs(a[Min(DOMAIN a)])) IN <<LTimes(s, a), RMul(s, r)>>
Geq(a, r) == {Half(a, r)}
Leq(a, r) == {Half(LTimes(<<-1, 1>>, a), RNeg(r))}
Eq(a, r) == Geq(a, r) \cup Leq(a, r)
Trivial(h) == DOMAIN h[1] = {} /\ h[2] = RZero
Tight(H) == {h \in H : ~Trivial(h) /\ ~\E g \in H : g[1] = h[1] /\ RLt(h[2], g[2])}

(* variables fixed by a pair of opposite unit halfspaces *)
FixedIn(H) == {h \in H : Cardinality(DOMAIN h[1]) = 1 /\ <<LTimes(<<-1, 1>>, h[1]), RNeg(h[2])>> \in H}
FixVals(H) == LET F == FixedIn(H) IN
              [i \in {CHOOSE j \in DOMAIN h[1] : TRUE : h \in F} |->
                 LET g == CHOOSE h \in F : DOMAIN h[1] = {i} IN RDiv(g[2], g[1][i])]
SubstH(fv, h) ==
  LET fx == DOMAIN h[1] \cap DOMAIN fv
      tot == FoldSet(LAMBDA i, acc : RAdd(acc, RMul(h[1][i], fv[i])), RZero, fx)
  IN Half([i \in DOMAIN h[1] \ fx |-> h[1][i]], RSub(h[2], tot))
NormalSet(H0) ==
  LET H == Tight(H0)
      fv == FixVals(H)
      F == FixedIn(H)
  IN Tight(F \cup {SubstH(fv, h) : h \in H \ F})
NormalObj(H0, f, k) ==
  LET fv == FixVals(Tight(H0))
      fx == DOMAIN f \cap DOMAIN fv
  IN <<[i \in DOMAIN f \ fx |-> f[i]], RAdd(k, FoldSet(LAMBDA i, acc : RAdd(acc, RMul(f[i], fv[i])), RZero, fx))>>
(* substitution until nothing more is fixed; a program that contradicts itself outright is {Never} *)
Never == <<LEmpty, ROne>>
Clash(N) == Never \in N \/ \E h, g \in N : DOMAIN h[1] = DOMAIN g[1] /\ g[1] = LTimes(<<-1, 1>>, h[1]) /\ RLt(RNeg(g[2]), h[2])
RECURSIVE Solved(_)
Solved(H) == LET N == TLCEval(NormalSet(H)) IN IF Clash(N) THEN {Never} ELSE IF N = H THEN N ELSE Solved(N)
SameProgram(P, Q) == /\ NormalSet(P.H) = NormalSet(Q.H)
                     /\ NormalObj(P.H, P.f, P.k) = NormalObj(Q.H, Q.f, Q.k)

(***************************************************************************)
(* The program a call states.  n variables; variable n+1 is the slack that *)
(* is minimised when feasibility is relaxed.                               *)
(***************************************************************************)
Stated(ev) ==
  LET n == ev.n
      slack == n + 1
      relax == ev.relk \/ ev.reli
      lo == Pairs(ev.lo)
      up == Pairs(ev.up)
      kn == Pairs(ev.known)
      L(row) == LinOf(row)
      ineq(a) == IF ev.reli THEN Geq(LPlus(a, Unit(slack)), RZero) ELSE Geq(a, RZero)
      known(i) == IF ev.relk THEN Geq(LPlus(Unit(i), Unit(slack)), kn[i])
                                  \cup Leq(LPlus(Unit(i), LTimes(<<-1, 1>>, Unit(slack))), kn[i])
                  ELSE Eq(Unit(i), kn[i])
      H == UNION {ineq(L(ev.ineq[k])) : k \in DOMAIN ev.ineq}
           \cup UNION {Eq(L(ev.eq[k]), RZero) : k \in DOMAIN ev.eq}
           \cup UNION {Eq(LPlus(Unit(ev.semi[k][1]), LTimes(RNeg(ev.semi[k][2]), Unit(ev.semi[k][3]))), RZero) : k \in DOMAIN ev.semi}
           \cup UNION {known(i) : i \in DOMAIN kn}
           \cup UNION {Geq(Unit(i), lo[i]) : i \in DOMAIN lo}
           \cup UNION {Leq(Unit(i), up[i]) : i \in DOMAIN up}
           \cup (IF ev.nonneg /\ ~relax THEN UNION {Geq(Unit(i), RZero) : i \in (1..n) \ DOMAIN lo} ELSE {})
  IN [H |-> H, f |-> IF relax THEN LTimes(<<-1, 1>>, Unit(slack)) ELSE L(ev.obj), k |-> RZero]

(***************************************************************************)
(* The program a task handed to the optimiser describes.                   *)
(***************************************************************************)
FromBound(a, b) == CASE b[1] = "lo" -> Geq(a, b[2])
                     [] b[1] = "up" -> Leq(a, b[3])
                     [] b[1] = "fx" -> Eq(a, b[2])
                     [] b[1] = "ra" -> Geq(a, b[2]) \cup Leq(a, b[3])
                     [] OTHER -> {}
FromTask(t) ==
  LET c == LinOf([j \in 1..t.numvar |-> <<j, t.c[j]>>])
      s == IF t.sense = "max" THEN ROne ELSE <<-1, 1>>
  IN [H |-> UNION {FromBound(LinOf(t.rows[i]), t.con[i]) : i \in 1..t.numcon}
            \cup UNION {FromBound(Unit(j), t.var[j]) : j \in 1..t.numvar},
      f |-> LTimes(s, c), k |-> RMul(s, t.cfix)]

(* The task is a minimisation over multipliers y; the program it is the dual of has one variable per constraint of
   the task and one constraint per multiplier.  Only sign constraints on the multipliers. *)
Dualisable(t) == /\ t.sense = "min"
                 /\ \A j \in 1..t.numvar : CASE t.var[j][1] = "lo" -> t.var[j][2] = RZero
                                             [] t.var[j][1] = "up" -> t.var[j][3] = RZero
                                             [] t.var[j][1] = "fr" -> TRUE
                                             [] OTHER -> FALSE
                 /\ \A i \in 1..t.numcon : t.con[i][1] \in {"lo", "up", "fx", "fr"}
DualOf(t) ==
  LET col(j) == LinOf(FlattenSeq([i \in 1..t.numcon |-> LET r == LinOf(t.rows[i]) IN IF j \in DOMAIN r THEN << <<i, r[j]>> >> ELSE <<>>]))
      row(j) == CASE t.var[j][1] = "up" -> Geq(col(j), t.c[j])
                  [] t.var[j][1] = "lo" -> Leq(col(j), t.c[j])
                  [] t.var[j][1] = "fr" -> Eq(col(j), t.c[j])
      sgn(i) == CASE t.con[i][1] = "lo" -> Geq(Unit(i), RZero)
                  [] t.con[i][1] = "up" -> Leq(Unit(i), RZero)
                  [] t.con[i][1] = "fr" -> Eq(Unit(i), RZero)
                  [] OTHER -> {}
      rhs(i) == IF t.con[i][1] = "up" THEN t.con[i][3] ELSE IF t.con[i][1] = "fr" THEN RZero ELSE t.con[i][2]
  IN [H |-> UNION {row(j) : j \in 1..t.numvar} \cup UNION {sgn(i) : i \in 1..t.numcon},
      f |-> LinOf([i \in 1..t.numcon |-> <<i, rhs(i)>>]), k |-> t.cfix]
=============================================================================
