------------------------------- MODULE T_C01 -------------------------------
(* C01: the constructor's unpacking of a description.                      *)
EXTENDS Harness, Scenario

PrepareC01(bl) == [inp |-> bl.inp, bad |-> Malformed(bl.inp),
                   sc |-> IF Malformed(bl.inp) THEN <<>> ELSE Derive(bl.inp)]
StartC01(bl, c) == <<>>
B2I(x) == IF x THEN 1 ELSE 0

CheckUnpacked(sc, ev) ==
  {c \in {"parties", "sources", "outcomes", "private_settings", "settings", "levels", "classical", "hypergraph",
          "parents", "effective_settings", "children", "network", "operators", "operators_once", "copies", "kinds",
          "distribution_shape", "original_events", "input_unmodified", "groups", "templates"} :
   ~CASE c = "parties" -> ev.parties = sc.parties
      [] c = "sources" -> ev.sources = sc.sources
      [] c = "outcomes" -> ev.outs = sc.outs
      [] c = "private_settings" -> ev.priv = sc.priv
      [] c = "settings" -> ev.sets = sc.sets
      [] c = "levels" -> ev.lv = sc.lv
      [] c = "classical" -> ev.cls = [s \in 1..sc.S |-> B2I(sc.cls[s])]
      [] c = "hypergraph" -> ev.hyp = [s \in 1..sc.S |-> [p \in 1..sc.P |-> B2I(sc.hyp[s][p])]]
      [] c = "parents" -> ev.par = sc.par
      [] c = "effective_settings" -> ev.eff = sc.eff
      [] c = "children" -> ev.haschild = [p \in 1..sc.P |-> B2I(sc.haschild[p])]
      [] c = "network" -> ev.network = sc.network
      [] c = "operators" -> Rng(ev.ops) = Rng(sc.ops)
      [] c = "operators_once" -> Len(ev.ops) = Len(sc.ops)
      [] c = "copies" -> [p \in 1..sc.P |-> Rng(ev.copies[p])] = [p \in 1..sc.P |-> Rng(sc.copies[p])]
      [] c = "kinds" -> ev.kind = sc.kind
      [] c = "distribution_shape" -> ev.shape = sc.outs \o sc.priv
      [] c = "original_events" -> Rng(ev.orig) = UNION {{<<p, x, a>> : x \in 0..(sc.priv[p] - 1), a \in 0..(sc.outs[p] - 1)} : p \in 1..sc.P}
      [] c = "input_unmodified" -> ev.unmodified
      [] c = "groups" -> /\ UNION {Rng(g) : g \in Rng(ev.groups)} = Rng(sc.ops)
                         /\ \A g \in Rng(ev.groups) : LET m == SubSeq(g[1], 1, Len(g[1]) - 1) IN
                              Rng(g) = {m \o <<a>> : a \in 0..(sc.outs[m[1]] - 1)} /\ Len(g) = sc.outs[m[1]]
      [] c = "templates" -> ev.same_again}

StepC01(c, s, ev) ==
  [st |-> s,
   bad |-> IF ev.k = "refused" THEN (IF c.bad THEN {} ELSE {"refused_wellformed"})
           ELSE IF c.bad THEN {"accepted_malformed"}
           ELSE CheckUnpacked(c.sc, ev)]
=============================================================================
