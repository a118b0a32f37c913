------------------------------- MODULE T_C16 -------------------------------
(***************************************************************************)
(* C16: what a certificate says.  A block carries moments (by factors) and *)
(* explicit models of the scenario; an event a solved problem (the data it *)
(* was given, the constraints the user added) and the certificate read     *)
(* from it.  Numbers are fixed-point: bl.unit stands for one.              *)
(***************************************************************************)
EXTENDS Harness, Models

Fixed(u, v) == (v[1] * u) \div v[2]
PrepareC16(bl) ==
  LET sc0 == Derive(bl.inp)
      sc == TLCEval([sc0 EXCEPT !.ops = bl.ops])
      grp(m) == TLCEval(IF m.kind = "classical" THEN <<>> ELSE Groups(m))
      val(m, g) == [i \in DOMAIN bl.moms |-> IF bl.moms[i].zero THEN RZero ELSE ExpectM(sc, m, g, bl.moms[i].atoms)]
  IN [okops |-> Rng(bl.ops) = Rng(sc0.ops) /\ Len(bl.ops) = Len(sc0.ops), sc |-> sc, u |-> bl.unit, moms |-> bl.moms,
      \* the moments of every model
      X |-> TLCEval([k \in DOMAIN bl.models |-> LET g == grp(bl.models[k]) IN TLCEval(val(bl.models[k], g))]),
      okmodels |-> \A k \in DOMAIN bl.models : bl.models[k].kind = "classical" \/ ValidStab(bl.models[k])]
StartC16(bl, c) == <<>>
Bad(cond, name) == IF cond THEN {} ELSE {name}

Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
(* a polynomial with integer coefficients at values x, in units of u * u *)
At(c, p, x) == Sum([k \in DOMAIN p |-> p[k][2] * Fixed(c.u, x[p[k][1]])])
Slack(c, p) == 2 * c.u * (Len(p) + 2)
Row(x, row) == RSumSeq([i \in DOMAIN row |-> RMul(row[i][2], x[row[i][1]])])

(* the model is among those the user's constraints allow *)
Allowed(ev, x) == /\ \A k \in DOMAIN ev.lo : RLe(ev.lo[k][2], x[ev.lo[k][1]])
                  /\ \A k \in DOMAIN ev.up : RLe(x[ev.up[k][1]], ev.up[k][2])
                  /\ \A k \in DOMAIN ev.eqs : Row(x, ev.eqs[k]) = RZero
                  /\ \A k \in DOMAIN ev.iqs : Row(x, ev.iqs[k])[1] >= 0

(* the values the user supplied, as far as they determine moment i *)
Supplied(c, ev, i) ==
  LET at == c.moms[i].atoms
      byval == \E k \in DOMAIN ev.vals : ev.vals[k][1] = i
      atomval(w) == LET S == {k \in DOMAIN ev.vals : c.moms[ev.vals[k][1]].atoms = <<w>>}
                    IN IF S = {} THEN <<>> ELSE ev.vals[CHOOSE k \in S : TRUE][2]
  IN IF c.moms[i].zero THEN RZero
     ELSE IF ev.byval THEN (IF byval THEN ev.vals[CHOOSE k \in DOMAIN ev.vals : ev.vals[k][1] = i][2]
                            ELSE IF \E j \in DOMAIN at : atomval(at[j]) = <<>> THEN <<>> ELSE RProdSeq([j \in DOMAIN at |-> atomval(at[j])]))
     ELSE IF \E j \in DOMAIN at : ~KnowableAtom(c.sc, at[j]) THEN <<>>
     ELSE RProdSeq([j \in DOMAIN at |-> Marginal(c.sc, ev.dist, ev.den, at[j])])

Judge(c, ev, p, tag) ==
  LET sup == TLCEval([i \in {p[k][1] : k \in DOMAIN p} |-> Supplied(c, ev, i)])
      obj(x) == Sum([k \in DOMAIN ev.obj |-> ev.obj[k][2] * ev.scale * Fixed(c.u, x[ev.obj[k][1]])])
      \* after an optimisation the certificate is a bound on the objective (semidefinite) or the bound less the objective (linear)
      target(x) == IF ev.obj = <<>> \/ ev.infeasible \/ ~ev.sdp THEN 0 ELSE obj(x)
      viol == \E k \in DOMAIN c.X : Allowed(ev, c.X[k]) /\ At(c, p, c.X[k]) - target(c.X[k]) < -Slack(c, p)
      \* the same with the share that the variables' own bounds have in the proof
      violx == \E k \in DOMAIN c.X : Allowed(ev, c.X[k]) /\ At(c, p, c.X[k]) + ev.extra * c.u - target(c.X[k]) < -Slack(c, p)
      known == \A i \in DOMAIN sup : sup[i] # <<>>
      must == ev.infeasible \/ (ev.relaxed /\ ev.value < 0)
      clear == must /\ ev.value * c.u < -3 * Slack(c, p)
      at == At(c, p, sup)
  IN (IF ~viol THEN {} ELSE IF ~violx /\ ev.extra # 0 THEN {"omits_bounds"} ELSE {"condemns_compatible" \o tag})
     \cup (IF must /\ ~known THEN {"not_in_supplied_values" \o tag}
           ELSE IF ~clear \/ at < 0 THEN {}
           ELSE IF at + ev.extra * c.u < 0 /\ ev.extra # 0 THEN {"omits_bounds"} ELSE {"not_negative" \o tag})

StepC16(c, s, ev) ==
  [st |-> s,
   bad |-> Bad(c.okops, "operator_table") \cup Bad(c.okmodels, "recording_not_a_state") \cup
     (IF ev.exc # "" THEN {"raised"}
      ELSE Judge(c, ev, ev.cert, "") \cup (IF ev.extra # 0 \/ (ev.obj # <<>> /\ ~ev.infeasible) THEN {} ELSE Judge(c, ev, ev.clean, "_clean"))
           \cup Bad(ev.success = (~ev.infeasible), "status"))]
=============================================================================
