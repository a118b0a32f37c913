------------------------------- MODULE T_ALG -------------------------------
(***************************************************************************)
(* C02 - C05, C07: operators, words, factors, matrix cells.                *)
(* A block carries `ops`, the operator table the recorder's numbering       *)
(* refers to; the specification accepts the numbering only if it is its own *)
(* operator table (as a sorted sequence of rows).                          *)
(***************************************************************************)
EXTENDS Harness, Symmetry

(* Fields are compared through c.ops: numbering of the recording.          *)
PrepareALG(bl) ==
  LET sc0 == Derive(bl.inp)
      okops == Rng(bl.ops) = Rng(sc0.ops) /\ Len(bl.ops) = Len(sc0.ops)
      sc == TLCEval([sc0 EXCEPT !.ops = bl.ops])          \* same operators, numbered as recorded
      al == Algebra(sc)
  IN [okops |-> okops, sc |-> sc, al |-> al, perms |-> IF bl.needperms THEN Perms(sc) ELSE <<>>]

StartALG(bl, c) == [names |-> <<>>]

Bad(cond, name) == IF cond THEN {} ELSE {name}

B2I(x) == IF x THEN 1 ELSE 0

(* --- C02: the relation itself and everything that has to agree with it -- *)
StepCommute(c, s, ev) ==
  LET N == Len(c.sc.ops)
      want == TLCEval([i \in 1..N |-> [j \in 1..N |-> B2I(c.al.nc[i][j])]])
  IN Bad(ev.notcomm = want, "relation")
     \cup Bad(\A i, j \in 1..N : ev.notcomm[i][j] = ev.notcomm[j][i], "symmetric")
     \cup Bad(ev.pairq = <<>> \/ ev.pairq = want, "pair_query")
     \cup Bad(ev.kernel = <<>> \/ ev.kernel = want, "kernel")
     \cup Bad(ev.allcomm = (\A i, j \in 1..N : ~c.al.nc[i][j]), "all_commute_flag")
StepPair(c, s, ev) ==      \* reductions of the two-letter words <<i, j>>
  UNION {LET w == <<ev.pairs[k][1], ev.pairs[k][2]>> IN Bad(ev.red[k] = Canon(c.al, w), "pair_reduction") : k \in DOMAIN ev.pairs}
StepTemplates(c, s, ev) ==  \* compatibility of measurements: commuting
  LET T == ev.first IN
  Bad(ev.compat = [i \in DOMAIN T |-> [j \in DOMAIN T |-> B2I(~c.al.nc[T[i]][T[j]])]], "compatible_measurements")

(* --- C03: reductions ---------------------------------------------------- *)
StepReduce(c, s, ev) ==
  LET w == ev.w
      want == IF ev.com THEN CanonCom(c.al, w) ELSE Canon(c.al, w)
  IN Bad(ev.out # <<-1>>, "raised")
     \cup Bad(want # ZERO \/ ev.out = ZERO, "zero_missed")
     \cup Bad(ev.out # ZERO \/ want = ZERO, "false_zero")
     \cup (IF ev.out = ZERO \/ ev.out = <<-1>> \/ want = ZERO THEN {}
           ELSE Bad(\A i \in DOMAIN ev.out : ev.out[i] >= 1, "letters")
                \cup Bad(ev.out = want, "representative"))
StepClass(c, s, ev) ==     \* the whole class of equal words is reduced to one representative
  UNION {StepReduce(c, s, [w |-> ev.ws[k], out |-> ev.outs[k], com |-> ev.com]) : k \in DOMAIN ev.ws}
  \cup Bad(\A k, l \in DOMAIN ev.ws : Canon(c.al, ev.ws[k]) = Canon(c.al, ev.ws[l]) => ev.outs[k] = ev.outs[l], "class_split")
  \cup Bad(\A k, l \in DOMAIN ev.ws : ev.outs[k] = ev.outs[l] => Canon(c.al, ev.ws[k]) = Canon(c.al, ev.ws[l]), "class_merged")
StepPred(c, s, ev) ==      \* predicates on words
  Bad(ev.allcomm = AllCommute(c.al, ev.w), "all_commuting")
  \cup Bad(ev.hasherm => (ev.herm = (\A f \in Rng(ev.atoms) : Rep(c.al, c.perms, f) = Rep(c.al, c.perms, Rev(f)))), "hermitian")

(* --- C05: factors ------------------------------------------------------- *)
StepFactor(c, s, ev) ==
  LET want == Factors(c.al, ev.w) IN
  Bad(Len(ev.out) = Len(want) /\ Rng(ev.out) = Rng(want), "factors")
  \cup Bad(ev.same_order, "factor_order")
(* The shortcut: a scenario never factorises iff every pair of operators overlaps. *)
StepEverFact(c, s, ev) ==
  LET N == Len(c.sc.ops)
      Conn(i, j) == c.al.ov[i][j]
  IN Bad(ev.flag \/ \A i, j \in 1..N : Conn(i, j), "unfactorisable_shortcut")
StepMomentFactors(c, s, ev) ==
  LET w == Canon(c.al, ev.w) IN
  IF w = ZERO THEN Bad(ev.zero, "zero_moment")
  ELSE Bad(~ev.zero, "false_zero_moment")
       \cup (IF ev.zero THEN {} ELSE
             LET as == SortW([i \in DOMAIN ev.atoms |-> Rep(c.al, c.perms, Canon(c.al, ev.atoms[i]))])
                 ar == SortW([i \in DOMAIN ev.atoms |-> Rep(c.al, c.perms, Canon(c.al, Rev(ev.atoms[i])))])
                 k == AtomsOf(c.al, c.perms, w)
             IN Bad(as = k \/ ar = k, "moment_factors")
                \cup Bad(\A i \in DOMAIN ev.atoms : Canon(c.al, ev.atoms[i]) = CanonCom(c.al, ev.atoms[i]), "unreduced_factor")
                \cup Bad(ev.one = (w = <<>>), "identity_moment"))

(* --- C04: the moment matrix -------------------------------------------- *)
Cell(c, cols, i, j) == MomentKey(c.al, c.perms, Rev(cols[i]) \o cols[j])
(* Key of the moment a variable's reported factors describe. *)
LabelKey(c, v) ==
  IF v.zero THEN << ZERO >>
  ELSE LET k1 == SortW([i \in DOMAIN v.atoms |-> Rep(c.al, c.perms, Canon(c.al, v.atoms[i]))])
           k2 == SortW([i \in DOMAIN v.atoms |-> Rep(c.al, c.perms, Canon(c.al, Rev(v.atoms[i])))])
       IN IF SeqLt(k2, k1) THEN k2 ELSE k1
StepMatrix(c, s, ev) ==
  LET n == Len(ev.cols)
      key == TLCEval([i \in 1..n |-> [j \in i..n |-> Cell(c, ev.cols, i, j)]])
      cells == {<<i, j>> : i \in 1..n, j \in 1..n}
      up == {x \in cells : x[1] <= x[2]}
      ids == {ev.mm[x[1]][x[2]] : x \in up}
      keys == {key[x[1]][x[2]] : x \in up}
      idOf == TLCEval({<<ev.mm[x[1]][x[2]], key[x[1]][x[2]]>> : x \in up})
  IN Bad(ev.exc = "", "raised") \cup
     Bad(\A x \in cells : ev.mm[x[1]][x[2]] = ev.mm[x[2]][x[1]], "symmetric_matrix")
     \cup Bad(Cardinality(idOf) = Cardinality(ids), "merged_cells")        \* one id, two different moments
     \cup Bad(Cardinality(idOf) = Cardinality(keys), "split_cells")        \* one moment, two ids
     \cup Bad(\A p \in idOf : (p[1] = 0) = (p[2] = << ZERO >>), "zero_cells")
     \cup Bad(\A p \in idOf : (p[1] = 1) = (p[2] = <<>>), "identity_cells")
     \cup Bad(\A p \in idOf : \E k \in DOMAIN ev.vars : ev.vars[k].id = p[1], "unlabelled_variable")
     \cup UNION {LET v == ev.vars[k]
                     ps == {p \in idOf : p[1] = v.id}
                 IN IF ps = {} THEN Bad(v.id \in {0, 1}, "extra_variable")
                    ELSE Bad(\A p \in ps : p[2] = LabelKey(c, v), "variable_label")
                 : k \in DOMAIN ev.vars}

StepALG(c, s, ev) ==
  [st |-> s,
   bad |-> Bad(c.okops, "operator_table")
           \cup CASE ev.k = "commute" -> StepCommute(c, s, ev)
                  [] ev.k = "pairs" -> StepPair(c, s, ev)
                  [] ev.k = "templates" -> StepTemplates(c, s, ev)
                  [] ev.k = "reduce" -> StepReduce(c, s, ev)
                  [] ev.k = "class" -> StepClass(c, s, ev)
                  [] ev.k = "pred" -> StepPred(c, s, ev)
                  [] ev.k = "everfact" -> StepEverFact(c, s, ev)
                  [] ev.k = "factor" -> StepFactor(c, s, ev)
                  [] ev.k = "moment" -> StepMomentFactors(c, s, ev)
                  [] ev.k = "matrix" -> StepMatrix(c, s, ev)
                  [] OTHER -> {"unexpected_" \o ev.k}]
=============================================================================
