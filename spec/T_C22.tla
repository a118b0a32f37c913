-------------------------------- MODULE T_C22 --------------------------------
(* Conformance of the real enumeration with the definition of Cliques.tla.  *)
EXTENDS Harness, Algebra

PrepareC22(bl) ==
  IF bl.scen THEN LET sc == Derive(bl.inp) IN [scen |-> TRUE, sc |-> sc] ELSE [scen |-> FALSE]
StartC22(bl, c) == <<>>
Bad(cond, name) == IF cond THEN {} ELSE {name}

(* edges as a set of 2-sets, vertices 1..n *)
CliqueQ(e, C) == \A u, v \in C : u # v => {u, v} \in e
Judge(e, n, ev) ==
  LET K == TLCEval({C \in SUBSET (1..n) : CliqueQ(e, C)})
      M == {C \in K : ~\E v \in (1..n) \ C : CliqueQ(e, C \cup {v})}
      got == {ToSet(ev.all[i]) : i \in DOMAIN ev.all}
      gotm == {ToSet(ev.max[i]) : i \in DOMAIN ev.max}
      want == IF ev.cut <= 0 THEN K ELSE {C \in K : Cardinality(C) <= ev.cut}
  IN Bad(\A i \in DOMAIN ev.all : Cardinality(ToSet(ev.all[i])) = Len(ev.all[i]), "repeated_member")
     \cup Bad(Cardinality(got) = Len(ev.all), "listed_twice")
     \cup Bad(got \subseteq want, "not_compatible") \cup Bad(want \subseteq got, "missing")
     \cup (IF ~ev.iso \/ ev.cut > 0 THEN {}
           ELSE Bad(Cardinality(gotm) = Len(ev.max), "maximal_listed_twice")
                \cup Bad(gotm \subseteq M, "not_maximal") \cup Bad(M \subseteq gotm, "maximal_missing"))
StepGraph(ev) == Judge({ToSet(ev.edges[i]) : i \in DOMAIN ev.edges}, ev.n, ev)
StepTemplates(c, ev) ==   \* vertex i stands for the measurement with operator row ev.meas[i]
  LET T == ev.meas n == Len(T)
      e == {{i, j} : i \in 1..n, j \in 1..n}
      ok == {x \in e : Cardinality(x) = 2 /\ \A i, j \in x : i # j => Commute(c.sc, T[i], T[j])}
      all == {SubSeq(o, 1, Len(o) - 1) : o \in Rng(c.sc.ops)}
  IN Bad({SubSeq(T[i], 1, Len(T[i]) - 1) : i \in 1..n} = all /\ Cardinality(all) = n, "measurements") \cup Judge(ok, n, ev)
StepC22(c, s, ev) ==
  [st |-> s, bad |-> CASE ev.k = "graph" -> StepGraph(ev)
                       [] ev.k = "templates" -> StepTemplates(c, ev)
                       [] OTHER -> {"unexpected_" \o ev.k}]
=============================================================================
