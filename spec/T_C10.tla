-------------------------------- MODULE T_C10 --------------------------------
(***************************************************************************)
(* C10: explicit models of the scenario are feasible points.               *)
(* A block carries a relaxation's moments (by factors); events carry a      *)
(* model, the distribution it was asked for, and every constraint imposed.  *)
(***************************************************************************)
EXTENDS Harness, Models

PrepareC10(bl) ==
  LET sc0 == Derive(bl.inp)
      sc == TLCEval([sc0 EXCEPT !.ops = bl.ops])
      al == Algebra(sc)
  IN [okops |-> Rng(bl.ops) = Rng(sc0.ops) /\ Len(bl.ops) = Len(sc0.ops), sc |-> sc, al |-> al,
      supports |-> bl.supports, moms |-> bl.moms, cells |-> bl.cells]
StartC10(bl, c) == <<>>
Bad(cond, name) == IF cond THEN {} ELSE {name}

Lin(x, row) == RSumSeq([i \in DOMAIN row |-> RMul(row[i][2], x[row[i][1]])])

(* the distribution the library was given is the model's *)
OwnDist(c, m, grps, ev) ==
  LET dims == NdIndex(c.sc.outs \o c.sc.priv)
      word(k) == \* operators of the original scenario: copy 1 of everything
        [p \in 1..c.sc.P |->
          LET x == dims[k][c.sc.P + p]
              e == <<x>> \o [j \in DOMAIN c.sc.par[p] |-> dims[k][c.sc.par[p][j]]]
              st == CHOOSE t \in DOMAIN c.sc.eff[p] : c.sc.eff[p][t] = e
          IN CHOOSE i \in DOMAIN c.sc.ops :
               c.sc.ops[i] = <<p>> \o [s \in 1..c.sc.S |-> IF c.sc.hyp[s][p] THEN 1 ELSE 0] \o <<st - 1, dims[k][p]>>]
  IN \A k \in DOMAIN dims : Expect(c.sc, m, grps, word(k)) = <<Norm(<<ev.dist[k], ev.den>>), RZero>>

StepModel(c, ev) ==
  LET m == ev.model
      grps == TLCEval(IF m.kind = "classical" THEN <<>> ELSE Groups(m))
      x == TLCEval([i \in DOMAIN c.moms |-> IF c.moms[i].zero THEN RZero ELSE ExpectM(c.sc, m, grps, c.moms[i].atoms)])
  IN Bad(m.kind = "classical" \/ ValidStab(m), "recording_not_a_state")
     \cup Bad(~ev.checkdist \/ OwnDist(c, m, grps, ev), "recording_not_the_models_distribution")
     \cup UNION {LET d == c.cells[k] IN
           Bad(Expect(c.sc, m, grps, Rev(d.u) \o d.v)[1] = x[d.m], "cell_expectation") : k \in DOMAIN c.cells}
     \cup Bad(ev.exc = "", "raised")
     \cup (IF ev.exc # "" THEN {} ELSE
       IF c.supports
       THEN Bad(\A k \in DOMAIN ev.known : ev.known[k][2] = RZero /\ x[ev.known[k][1]] = RZero, "support_zero")
            \cup Bad(\A k \in DOMAIN ev.lo : IF ev.lo[k][2][1] > 0 THEN x[ev.lo[k][1]][1] > 0
                                              ELSE x[ev.lo[k][1]][1] >= 0 /\ ev.lo[k][2] = RZero, "support_bound")
            \cup Bad(ev.semi = <<>> /\ ev.up = <<>>, "support_value_dependent")
            \cup Bad(\A k \in DOMAIN ev.eq : Lin(x, ev.eq[k]) = RZero, "equality")
            \cup Bad(\A k \in DOMAIN ev.ineq : Lin(x, ev.ineq[k])[1] >= 0, "inequality")
       ELSE Bad(\A k \in DOMAIN ev.known : ev.known[k][2] = x[ev.known[k][1]], "fixed_value")
            \cup Bad(\A k \in DOMAIN ev.semi : x[ev.semi[k][1]] = RMul(ev.semi[k][2], x[ev.semi[k][3]]), "linearised_factor")
            \cup Bad(\A k \in DOMAIN ev.lo : RLe(ev.lo[k][2], x[ev.lo[k][1]]), "lower_bound")
            \cup Bad(\A k \in DOMAIN ev.up : RLe(x[ev.up[k][1]], ev.up[k][2]), "upper_bound")
            \cup Bad(\A k \in DOMAIN ev.eq : Lin(x, ev.eq[k]) = RZero, "equality")
            \cup Bad(\A k \in DOMAIN ev.ineq : Lin(x, ev.ineq[k])[1] >= 0, "inequality"))
     \* bounds imposed by default only on moments that no model makes negative
     \cup Bad(\A k \in DOMAIN ev.lo : LET q == c.moms[ev.lo[k][1]] IN
               \A i \in DOMAIN q.atoms : SelfAdjoint(c.al, q.atoms[i]), "default_bounds")

StepC10(c, s, ev) ==
  [st |-> s,
   bad |-> Bad(c.okops, "operator_table") \cup
     CASE ev.k = "model" -> StepModel(c, ev)
       [] OTHER -> {"unexpected_" \o ev.k}]
=============================================================================
