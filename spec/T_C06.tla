-------------------------------- MODULE T_C06 --------------------------------
(***************************************************************************)
(* C06: after a distribution is supplied, every moment of the relaxation   *)
(* is fixed, proportional to another one, or free exactly as the data      *)
(* determine.                                                              *)
(***************************************************************************)
EXTENDS Harness, Know

PrepareC06(bl) ==
  LET sc0 == Derive(bl.inp)
      sc == TLCEval([sc0 EXCEPT !.ops = bl.ops])
      al == Algebra(sc)
  IN [okops |-> Rng(bl.ops) = Rng(sc0.ops) /\ Len(bl.ops) = Len(sc0.ops),
      sc |-> sc, al |-> al, perms |-> Perms(sc), problem |-> bl.problem, supports |-> bl.supports]
StartC06(bl, c) == <<>>
Bad(cond, name) == IF cond THEN {} ELSE {name}

Key2(c, atoms) == LET k1 == SortW([i \in DOMAIN atoms |-> Rep(c.al, c.perms, Canon(c.al, atoms[i]))])
                      k2 == SortW([i \in DOMAIN atoms |-> Rep(c.al, c.perms, Canon(c.al, Rev(atoms[i])))])
                  IN IF SeqLt(k2, k1) THEN k2 ELSE k1

StepDist(c, ev) ==
  LET know(f) == KnowableAtom(c.sc, f)
      mg(f) == Marginal(c.sc, ev.dist, ev.den, f)
      one(m) ==
        IF m.zero THEN Bad(m.st = "fixed" /\ m.v = <<0, 1>>, "zero_moment_not_zero")
        ELSE IF m.atoms = <<>> THEN Bad(m.st = IF c.supports THEN m.st ELSE "fixed", "identity_not_fixed") \cup
                                    Bad(c.supports \/ m.v = <<1, 1>>, "identity_not_one")
        ELSE
        LET K == {i \in DOMAIN m.atoms : know(m.atoms[i])}
            ks == SetToSortSeq(K, <)
            v == RProdSeq([i \in DOMAIN ks |-> mg(m.atoms[ks[i]])])
            rest == SelectSeq(m.atoms, LAMBDA f : ~know(f))
            st == IF ev.shared /\ Len(m.atoms) > 1 THEN "free"
                  ELSE IF rest = <<>> THEN "fixed"
                  ELSE IF K = {} \/ ~ev.lpi THEN "free"
                  ELSE IF v[1] = 0 THEN "fixed" ELSE "semi"
            v2 == IF rest # <<>> /\ v[1] = 0 THEN RZero ELSE v
        IN IF c.supports
           THEN IF st = "fixed" /\ v2[1] = 0 THEN Bad(m.st = "fixed" /\ m.v = RZero, "support_zero")
                ELSE IF st = "fixed" THEN Bad(m.st = "free" /\ m.lb = <<1, 1>>, "support_positive")
                ELSE Bad(m.st = "free" /\ m.lb \in {<<0, 1>>, <<0, 0>>}, "support_free")
           ELSE Bad(m.st = st, "status_" \o st)
                \cup (IF m.st # st THEN {}
                      ELSE IF st = "fixed" THEN Bad(m.v = v2, "value")
                      ELSE IF st = "semi" THEN Bad(m.v = v, "semi_coefficient") \cup
                             Bad(Key2(c, m.rest) = Key2(c, rest), "semi_remainder")
                      ELSE {})
  IN UNION {one(ev.moms[i]) : i \in DOMAIN ev.moms}

(* Knowability verdicts the library reports on single factors *)
StepKnow(c, ev) ==
  UNION {Bad(ev.atoms[i].know = KnowableAtom(c.sc, ev.atoms[i].w), "knowable") \cup
         Bad(~ev.atoms[i].know \/ ev.dist = <<>> \/ ev.atoms[i].v = Marginal(c.sc, ev.dist, ev.den, ev.atoms[i].w), "marginal")
         : i \in DOMAIN ev.atoms}

StepC06(c, s, ev) ==
  [st |-> s, bad |-> Bad(c.okops, "operator_table") \cup
     CASE ev.k = "dist" -> Bad(ev.exc = "", "raised") \cup (IF ev.exc = "" THEN StepDist(c, ev) ELSE {})
       [] ev.k = "know" -> StepKnow(c, ev)
       [] OTHER -> {"unexpected_" \o ev.k}]
=============================================================================
