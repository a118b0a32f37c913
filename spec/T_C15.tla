------------------------------- MODULE T_C15 -------------------------------
(* C15: the conic program handed to the optimiser is the stated program, or its dual, and the answer is read back right. *)
EXTENDS Harness, ConicProg
PrepareS(bl) == <<>>
StartS(bl, c) == <<>>
Bad(cond, name) == IF cond THEN {} ELSE {name}
AbsEq(a, b) == a = b \/ a = RNeg(b)

(* value of a task's objective at the answer (dual form), of its dual objective (direct form) *)
Dot(t, X) == RSumSeq([k \in DOMAIN t.barc |-> RMul(t.barc[k][4], RMul(X[t.barc[k][2]][t.barc[k][3]], IF t.barc[k][2] = t.barc[k][3] THEN ROne ELSE R(2)))])
Objective(t, a) == RAdd(RAdd(t.cfix, RSumSeq([j \in 1..t.numvar |-> RMul(t.c[j], IF t.var[j][1] = "fx" THEN t.var[j][2] ELSE a.xx[j])])), IF t.barc = <<>> THEN RZero ELSE Dot(t, a.X))
DualObjective(t, a) ==
  LET u == Unfix(t) rhs(i) == IF t.con[i][1] = "up" THEN u.con[i][3] ELSE IF t.con[i][1] = "fr" THEN RZero ELSE u.con[i][2]
  IN RAdd(u.k, RSumSeq([i \in 1..t.numcon |-> RMul(rhs(i), a.y[i])]))

StepS(c, st, ev0) ==
  LET ev == IF ev0.exc # "" THEN ev0 ELSE [ev0 EXCEPT !.occurs = {ev0.occurs[k] : k \in DOMAIN ev0.occurs}] IN
  [st |-> st, bad |->
   IF ev.exc # "" THEN {"raised"}
   ELSE IF ev.calls # 1 THEN {"not_solved_once"}
   ELSE IF ev.ans.status \notin {"PrimalAndDualFeasible", "PrimalInfeasible", "DualInfeasible"}
        THEN Bad(ev.res.status = (IF ev.ans.status = "Unknown" THEN "unknown" ELSE "other"), "status") \cup Bad(~ev.res.has, "value_without_solution")
   ELSE
    LET t == ev.task
        a == ev.ans
        vals == IF ev.dualform THEN a.y ELSE a.xx
        S == TLCEval(StatedC(ev, ev.known))
        x == TLCEval(Pairs(ev.res.x))
        cand(i) == {j \in DOMAIN vals : (IF ev.dualform THEN AbsEq(vals[j], x[i]) ELSE vals[j] = x[i])
                                        /\ (IF ev.dualform THEN TRUE ELSE j \notin FixedVars(t))}
        mapped == /\ S.vars \subseteq DOMAIN x
                  /\ \A i \in DOMAIN x : Cardinality(cand(i)) = 1
        mp == [i \in DOMAIN x |-> CHOOSE j \in cand(i) : TRUE]
        sg == [i \in DOMAIN x |-> IF vals[mp[i]] = x[i] THEN ROne ELSE <<-1, 1>>]
        form == IF ev.dualform THEN DualForm(t) ELSE DirectForm(t)
        P == TLCEval(IF ev.dualform THEN Lagrange(t) ELSE Direct(t))
    IN Bad(ev.res.status = (IF a.status = "PrimalAndDualFeasible" THEN "feasible" ELSE "infeasible"), "status")
       \cup (IF a.status = "PrimalAndDualFeasible"
             THEN Bad((ev.res.primal = a.p /\ ev.res.dual = a.d) \/ (ev.dualform /\ ev.res.primal = a.d /\ ev.res.dual = a.p), "values")
             ELSE Bad(~ev.res.hasvalue, "value_without_solution"))
       \cup (IF ~form THEN {"form"} ELSE IF ~mapped THEN {"variable_values"}
             ELSE IF ~CoveredP(P, mp) THEN {"unknown_variable"}
             ELSE LET Q == TLCEval(RenameP(P, TLCEval(mp), TLCEval(sg))) IN
                  Bad(NormalSet(Q.H) = NormalSet(S.H), "constraints")
                  \cup Bad(NormalObj(Q.H, Q.f, Q.k) = NormalObj(S.H, S.f, S.k), "objective")
                  \cup Bad(DOMAIN Q.G = DOMAIN S.G /\ NormalG(Q.H, Q.G) = NormalG(S.H, S.G), "matrix")
                  \cup (IF ev.dim = 0 THEN {} ELSE
                        LET pen == [p \in 1..ev.dim |-> [q \in 1..ev.dim |-> EvalA(S.G[IF p <= q THEN <<p, q>> ELSE <<q, p>>], x)]] IN
                        Bad(ev.res.F = pen \/ (~ev.dualform /\ ev.res.F = a.X), "moment_matrix")
                        \cup Bad(ev.res.Z = (IF ev.dualform THEN a.X ELSE [p \in 1..ev.dim |-> [q \in 1..ev.dim |-> RNeg(a.S[p][q])]]), "dual_matrix")))
       \cup (LET ct == Pairs(ev.res.cert)
                 k2 == Pairs(ev.known2)
                 at == FoldSet(LAMBDA i, acc : RAdd(acc, RMul(ct[i], k2[i])), RZero, DOMAIN ct)
                 full == IF ev.dualform THEN Objective(ev.task2, a) ELSE DualObjective(ev.task2, a)
                 c0 == IF ev.feas THEN RZero ELSE RSumSeq([k \in DOMAIN ev.obj |->
                          LET sb == Subst(ev, k2, ev.obj[k][1]) IN RMul(ev.obj[k][2], sb.c)])
             IN IF ~(DOMAIN ct \subseteq DOMAIN k2) THEN {"certificate_variables"}
                ELSE Bad(at = (IF a.status = "PrimalAndDualFeasible" THEN full ELSE RSub(full, c0)), "certificate"))]
=============================================================================
