------------------------------- MODULE T_C21 -------------------------------
(* C21: the critical parameters returned for known families, with the answers they were derived from. *)
EXTENDS Harness, Search
PrepareC21(bl) == <<>>
StartC21(bl, c) == <<>>
Bad(cond, name) == IF cond THEN {} ELSE {name}
Prec == 64
Tol == 16
Abs(x) == IF x < 0 THEN -x ELSE x
(* the values handed over are those of one parameter (grid of 1/4096, coefficients in quarters) *)
ValueAt(c, q) == (c[1] * 16384 + c[2] * 4 * q + (c[3] * q * q) \div 1024) \div 16
SameParameter(ev, sv) == \A i \in DOMAIN ev.polys : Abs(sv.x[i] - ValueAt(ev.polys[i], sv.q)) <= 12
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)

StepC21(c, st, ev) ==
  LET t == Threshold(ev.roots)
      answers == {[p |-> ev.solves[i].p, feas |-> ~ev.solves[i].neg \/ ev.solves[i].near, infeas |-> ev.solves[i].neg \/ ev.solves[i].near, cut |-> ev.solves[i].root] : i \in DOMAIN ev.solves}
      failed == ev.fail
      inside == t >= Prec + Tol /\ t <= ev.len - 2 * Prec - Tol
      asked == Bad(\A i \in DOMAIN ev.solves : ev.solves[i].p >= -Tol /\ ev.solves[i].p <= ev.len + Tol, "outside_interval")
               \cup Bad(\A i \in DOMAIN ev.solves : SameParameter(ev, ev.solves[i]), "values")
               \* the options of the search reach every problem it solves
               \cup Bad(\A i \in DOMAIN ev.solves : ev.solves[i].asked[1] /\ ev.solves[i].asked[2], "solver_options")
               \cup Bad(\A i \in DOMAIN ev.solves : ev.solves[i].asked[3], "constraints")
               \cup Bad(Consistent(answers, t, Tol), "answers")
               \cup Bad(Len(ev.solves) <= (IF ev.method = "bisection" THEN 2 * Log2(ev.len \div Prec) + 12 ELSE ev.len \div Prec + 4), "too_many_solves")
      steep == SMax({ev.slopes[k] : k \in DOMAIN ev.slopes}) shallow == SMin({ev.low[k] : k \in DOMAIN ev.low})
      within == Prec * (IF ev.method = "bisection" THEN 1 ELSE 2 * ((steep + shallow - 1) \div shallow)) + Tol
      result ==
        IF ev.method = "bisection"
        THEN Bad(BracketJustified(ev.result, answers, Prec, Tol), "unjustified") \cup Bad(Abs(ev.result - t) <= within, "threshold")
        ELSE Bad(CutJustified(ev.result, answers, Prec, Tol), "unjustified")
             \cup Bad(ev.result >= t - Prec - Tol /\ ev.result <= t + (IF ev.smooth THEN Prec + Tol ELSE within), "threshold")
      atlow == Bad(ev.result <= Prec + Tol + (IF t < 0 THEN 0 ELSE t), "end")
      athigh == Bad(ev.result >= ev.len - 2 * Prec - Tol, "end")
      cert == IF ~ev.last THEN {}
              ELSE Bad(\E i \in {ev.certs[k] : k \in DOMAIN ev.certs} :
                         ev.solves[i].neg /\ ev.solves[i].p >= ev.result - Prec - Tol /\ ev.solves[i].p <= ev.result + Prec + Tol, "certificate")
  IN [st |-> st, bad |->
      asked \cup
      (IF ev.exc # "" THEN Bad(failed \/ ~inside \/ (ev.method = "dual" /\ ev.solves # <<>> /\ ev.solves[1].root >= ev.len - 2 * Prec - Tol), "raised")
       ELSE IF failed THEN {"failure_ignored"}
       ELSE Bad(ev.result >= -Tol /\ ev.result <= ev.len + Tol, "outside")
            \cup (IF t < 0 THEN (IF result = {} THEN {} ELSE atlow) ELSE IF t > ev.len THEN athigh ELSE IF inside THEN result \cup cert
                  ELSE IF result = {} THEN {} ELSE IF t < Prec + Tol THEN atlow ELSE athigh))]
=============================================================================
