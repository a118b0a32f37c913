------------------------------ MODULE SearchMC ------------------------------
(***************************************************************************)
(* The two searches as transition systems, for every family of at most     *)
(* Pieces linear pieces on a grid: what they end with is justified by the  *)
(* answers they received, and they end after few answers.                  *)
(***************************************************************************)
EXTENDS Search, TLC
CONSTANTS N, Slopes, Pieces
VARIABLES method, fam, prec, a, b, answers, done, result, n
vs == <<method, fam, prec, a, b, answers, done, result, n>>
Roots == -1..(N + 1)
Families == UNION {[1..k -> Roots \X Slopes] : k \in 1..Pieces}
Val(f, p) == SMin({f[k][2] * (f[k][1] - p) : k \in DOMAIN f})
Active(f, p) == CHOOSE k \in DOMAIN f : f[k][2] * (f[k][1] - p) = Val(f, p)
T(f) == Threshold([k \in DOMAIN f |-> f[k][1]])
Clip(x) == IF x < 0 THEN 0 ELSE IF x > N THEN N ELSE x
Ans(p) == [p |-> p, feas |-> Val(fam, p) >= 0, infeas |-> Val(fam, p) < 0, cut |-> fam[Active(fam, p)][1]]

Init == /\ method \in {"bisection", "dual"} /\ fam \in Families /\ prec \in {1, 2}
        /\ a = (IF method = "bisection" THEN 0 ELSE N - prec)      \* dual: a is the last cut, b the one before
        /\ b = (IF method = "bisection" THEN N ELSE 2 * N + prec)
        /\ answers = {} /\ done = "no" /\ result = 0 /\ n = 0

Ends == /\ method = "bisection" /\ done = "no" /\ n = 0
        /\ answers' = {Ans(0), Ans(N)} /\ n' = 2
        /\ done' = (IF Val(fam, N) >= 0 \/ Val(fam, 0) < 0 THEN "reported" ELSE "no")
        /\ UNCHANGED <<method, fam, prec, a, b, result>>
Halve == /\ method = "bisection" /\ done = "no" /\ n > 0
         /\ LET m == (a + b) \div 2 IN
            IF b - a <= prec \/ m = a THEN done' = "yes" /\ result' = m /\ UNCHANGED <<a, b, answers, n>>
            ELSE /\ answers' = answers \cup {Ans(m)} /\ n' = n + 1
                 /\ IF Val(fam, m) >= 0 THEN a' = m /\ b' = b ELSE a' = a /\ b' = m
                 /\ UNCHANGED <<done, result>>
         /\ UNCHANGED <<method, fam, prec>>
Cut == /\ method = "dual" /\ done = "no"
       /\ IF a + prec < b
          THEN LET r == Ans(a + prec) IN answers' = answers \cup {r} /\ n' = n + 1 /\ b' = a /\ a' = Clip(r.cut) /\ UNCHANGED <<done, result>>
          ELSE /\ done' = (IF n > 1 THEN "yes" ELSE "reported") /\ result' = (IF a > b THEN a ELSE b) /\ UNCHANGED <<a, b, answers, n>>
       /\ UNCHANGED <<method, fam, prec>>
Next == Ends \/ Halve \/ Cut
Spec == Init /\ [][Next]_vs /\ WF_vs(Next)

Honest == Consistent(answers, T(fam), 0)
Inside == \A x \in answers : x.p \in 0..N
Few == n <= (IF method = "bisection" THEN 8 ELSE N \div prec + 2)
Steep == SMax({fam[k][2] : k \in DOMAIN fam}) Flat == SMin({fam[k][2] : k \in DOMAIN fam})
Justified == done = "yes" =>
   IF method = "bisection" THEN BracketJustified(result, answers, prec, 0) /\ result <= T(fam) + prec /\ result >= T(fam) - prec
   ELSE IF T(fam) < 0 THEN result <= 2 * prec * Steep
   ELSE CutJustified(result, answers, prec, 0) /\ result >= T(fam)
        /\ result <= T(fam) + (IF Len(fam) = 1 THEN prec ELSE 2 * prec * ((Steep + Flat - 1) \div Flat))
Reported == done = "reported" => \/ T(fam) < 0 \/ T(fam) >= N
                                 \/ method = "dual" /\ \A x \in answers : x.cut >= N - 2 * prec
Stops == <>(done # "no")
=============================================================================
