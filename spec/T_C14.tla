------------------------------- MODULE T_C14 -------------------------------
(* C14: the task handed to the optimiser is the stated program, or its dual, and the answer is read back right. *)
EXTENDS Harness, LinProg
PrepareL(bl) == <<>>
StartL(bl, c) == <<>>
Bad(cond, name) == IF cond THEN {} ELSE {name}
StepL(c, st, ev) ==
  [st |-> st, bad |->
   IF ev.exc # "" THEN {"raised"}
   ELSE IF ev.calls # 1 THEN {"not_solved_once"}
   ELSE
    LET t == ev.task
        vals == IF ev.dualform THEN ev.ans.y ELSE ev.ans.xx
        S == Stated(ev)
        x == Pairs(ev.res.x)
    IN (IF ev.dualform
        THEN IF ~Dualisable(t) THEN {"dual_form"}
             ELSE LET D == DualOf(t) IN Bad(NormalSet(D.H) = NormalSet(S.H), "dual_constraints")
                                        \cup Bad(NormalObj(D.H, D.f, D.k) = NormalObj(S.H, S.f, S.k), "dual_objective")
        ELSE LET P == FromTask(t) IN Bad(NormalSet(P.H) = NormalSet(S.H), "constraints")
                                     \cup Bad(NormalObj(P.H, P.f, P.k) = NormalObj(S.H, S.f, S.k), "objective"))
       \cup Bad(DOMAIN x = 1..ev.n /\ \A i \in 1..ev.n : x[i] = vals[i], "variable_values")
       \cup Bad(ev.res.primal = (IF ev.dualform THEN ev.ans.d ELSE ev.ans.p), "primal_value")
       \cup Bad(ev.res.dual = (IF ev.dualform THEN ev.ans.p ELSE ev.ans.d), "dual_value")
       \cup Bad(ev.res.success = (ev.ans.sta = "optimal"), "success")
       \cup Bad(ev.res.status = ev.ans.sta, "status")]
=============================================================================
