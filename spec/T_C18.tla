------------------------------- MODULE T_C18 -------------------------------
(***************************************************************************)
(* C18: names and symbols identify operators and moments, and are read     *)
(* back as what they name.  Names are opaque strings here.                 *)
(***************************************************************************)
EXTENDS Harness, Symmetry

PrepareC18(bl) ==
  LET sc0 == Derive(bl.inp)
      sc == TLCEval([sc0 EXCEPT !.ops = bl.ops])
      al == Algebra(sc)
  IN [okops |-> Rng(bl.ops) = Rng(sc0.ops) /\ Len(bl.ops) = Len(sc0.ops), sc |-> sc, al |-> al,
      perms |-> IF \E i \in DOMAIN bl.ev : bl.ev[i].k \in {"read", "prod"} THEN Perms(sc) ELSE <<>>]
StartC18(bl, c) == <<>>
Bad(cond, name) == IF cond THEN {} ELSE {name}
Injective(s) == Cardinality(Rng(s)) = Len(s)

(* operators: bl.ops[i] has names ev.full[i] ...; ev.back[i] is what they are read as *)
Alike(sc, i, j) == LET a == sc.ops[i] b == sc.ops[j] IN Pty(a) = Pty(b) /\ Setg(a) = Setg(b) /\ Outc(a) = Outc(b)
StepOps(c, ev) ==
  LET D == DOMAIN c.sc.ops IN
  Bad(Injective(ev.full), "full_names") \cup Bad(Injective(ev.old), "legacy_names") \cup Bad(Injective(ev.old0), "legacy_names")
  \cup Bad(Injective(ev.sym), "symbols")
  \cup Bad(\A i, j \in D : (ev.free[i] = ev.free[j]) = Alike(c.sc, i, j), "copy_free_names")
  \cup (IF ev.exc # "" THEN {"raised"}
        ELSE UNION {Bad(ev.back[i][1] = i, "read_full") \cup Bad(ev.back[i][3] = i /\ ev.back[i][4] = i, "read_legacy")
                    \cup Bad(ev.back[i][5] = i, "read_symbol")
                    \cup Bad(ev.back[i][2] \in D /\ Alike(c.sc, ev.back[i][2], i), "read_copy_free") : i \in D})

StepMoms(c, ev) ==
  LET D == DOMAIN ev.moms
      names == [i \in D |-> ev.moms[i].name]
      syms == [i \in D |-> ev.moms[i].sym]
      ws == [i \in D |-> ev.moms[i].w]
      unique(i) == \A j \in D : j # i => ev.moms[j].old # ev.moms[i].old
  IN Bad(\A i, j \in D : ws[i] # ws[j] => names[i] # names[j], "moment_names")
     \cup Bad(\A i, j \in D : ws[i] # ws[j] => syms[i] # syms[j], "moment_symbols")
     \cup Bad(ev.plain => \A i, j \in D : ws[i] # ws[j] => ev.moms[i].old # ev.moms[j].old, "moment_legacy_names")
     \cup UNION {Bad(ev.moms[i].exc = "", "raised") \cup
                 Bad(\A k \in DOMAIN ev.moms[i].back : ev.moms[i].back[k] = ws[i] \/ (k = 4 /\ ~unique(i)), "read_moment") : i \in D}

(* a product of factors, up to copy relabelling of each and conjugation of all *)
NormFactors(c, x) ==
  IF x = << ZERO >> THEN x ELSE
  LET k1 == SortW([i \in DOMAIN x |-> Rep(c.al, c.perms, Canon(c.al, x[i]))])
      k2 == SortW([i \in DOMAIN x |-> Rep(c.al, c.perms, Canon(c.al, Rev(x[i])))])
  IN IF SeqLt(k2, k1) THEN k2 ELSE k1

(* a moment written by the operators in it *)
StepRead(c, ev) ==
  IF ev.exc # "" THEN {"raised"}
  ELSE IF ev.lp /\ ~AllCommute(c.al, ev.w) THEN {}     \* not an event of a linear relaxation
  ELSE LET key == TLCEval(MomentKey(c.al, c.perms, ev.w))
       IN UNION {Bad(NormFactors(c, ev.got[i]) = key, "read_product") : i \in DOMAIN ev.got}

(* a product of moments written by them *)
StepProd(c, ev) ==
  IF ev.exc # "" THEN {"raised"}
  ELSE LET key == TLCEval(NormFactors(c, ev.want))
       IN UNION {Bad(NormFactors(c, ev.got[i]) = key, "read_product_of_moments") : i \in DOMAIN ev.got}

StepC18(c, s, ev) ==
  [st |-> s,
   bad |-> Bad(c.okops, "operator_table") \cup
     (CASE ev.k = "ops" -> StepOps(c, ev)
        [] ev.k = "moms" -> StepMoms(c, ev)
        [] ev.k = "read" -> StepRead(c, ev)
        [] ev.k = "prod" -> StepProd(c, ev)
        [] ev.k = "cols" -> IF ev.exc # "" THEN {"raised"} ELSE Bad(ev.got = ev.cols, "read_columns")
        [] ev.k = "effect" -> IF ev.exc # "" THEN {"raised"} ELSE Bad(\A i \in DOMAIN ev.snaps : ev.snaps[i] = ev.snaps[1], "same_effect"))]
=============================================================================
