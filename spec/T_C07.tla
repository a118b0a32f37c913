-------------------------------- MODULE T_C07 --------------------------------
(***************************************************************************)
(* C07: the generating set each kind of specification names.               *)
(***************************************************************************)
EXTENDS Harness, Algebra

PrepareC07(bl) ==
  LET sc0 == Derive(bl.inp)
      sc == TLCEval([sc0 EXCEPT !.ops = bl.ops])
      al == Algebra(sc)
      last(o) == Outc(o) = sc.outs[Pty(o)] - 1
      keep(p) == sc.haschild[p] \/ bl.full              \* all outcomes are kept for these parties
      use == TLCEval([p \in 1..sc.P |-> SetToSortSeq({i \in DOMAIN sc.ops : Pty(sc.ops[i]) = p /\ (keep(p) \/ ~last(sc.ops[i]))}, <)])
  IN [okops |-> Rng(bl.ops) = Rng(sc0.ops) /\ Len(bl.ops) = Len(sc0.ops), sc |-> sc, al |-> al, use |-> use]
StartC07(bl, c) == <<>>
Bad(cond, name) == IF cond THEN {} ELSE {name}

(* all words with letters from the given sets, in order, reduced; zero and shortened words are dropped *)
RECURSIVE Words(_, _)
Words(c, block) == IF block = <<>> THEN {<<>>}
                   ELSE LET rest == Words(c, SubSeq(block, 1, Len(block) - 1)) u == c.use[block[Len(block)]]
                        IN {Append(w, u[i]) : w \in rest, i \in DOMAIN u}
BlockSet(c, block) == {v \in {Canon(c.al, w) : w \in Words(c, block)} : v # ZERO /\ Len(v) = Len(block)}

(* party blocks: non-decreasing sequences with given multiplicities        *)
RECURSIVE Repl(_, _)
Repl(p, k) == IF k = 0 THEN <<>> ELSE <<p>> \o Repl(p, k - 1)
FreqBlock(f) == FlattenSeq([p \in DOMAIN f |-> Repl(p, f[p])])
Freqs(c, caps, maxlen) == {f \in [1..c.sc.P -> 0..maxlen] :
                             /\ \A p \in 1..c.sc.P : f[p] <= caps[p]
                             /\ FoldLeft(LAMBDA a, x : a + x, 0, f) <= maxlen}
SumSeq(f) == FoldLeft(LAMBDA a, x : a + x, 0, f)
Min2(a, b) == IF a < b THEN a ELSE b
CapLen(ev, n) == IF ev.maxlen > 0 THEN Min2(n, ev.maxlen) ELSE n

(* Physical monomials: at most one outcome of each of a set of commuting measurements. *)
MeasOf(o) == SubSeq(o, 1, Len(o) - 1)
RECURSIVE PhysFrom(_, _, _)
PhysFrom(c, letters, w) ==     \* all extensions of the increasing word w by letters later in the list
  {w} \cup UNION {LET l == letters[k] IN
         IF \A j \in DOMAIN w : ~c.al.nc[w[j]][l] /\ MeasOf(c.sc.ops[w[j]]) # MeasOf(c.sc.ops[l])
         THEN PhysFrom(c, SubSeq(letters, k + 1, Len(letters)), Append(w, l)) ELSE {} : k \in DOMAIN letters}
CountP(c, w, p) == Cardinality({j \in DOMAIN w : Pty(c.sc.ops[w[j]]) = p})
Physical(c, ev) ==
  LET letters == SetToSortSeq(UNION {ToSet(c.use[p]) : p \in 1..c.sc.P}, <)
  IN {w \in PhysFrom(c, letters, <<>>) :
        /\ ev.maxlen > 0 => Len(w) <= ev.maxlen
        /\ \A p \in 1..c.sc.P : ev.caps[p] < 0 \/ CountP(c, w, p) <= ev.caps[p]}

Want(c, ev) ==
  CASE ev.kind = "blocks" -> UNION {BlockSet(c, ev.blocks[i]) : i \in DOMAIN ev.blocks}
    [] ev.kind = "npa" ->
         UNION {BlockSet(c, FreqBlock(f)) : f \in Freqs(c, [p \in 1..c.sc.P |-> ev.level], CapLen(ev, ev.level))}
    [] ev.kind = "local" ->
         UNION {BlockSet(c, FreqBlock(f)) : f \in Freqs(c, ev.caps, CapLen(ev, SumSeq(ev.caps)))}
    [] ev.kind = "physical" -> Physical(c, ev)
    [] OTHER -> {}

StepC07(c, s, ev) ==
  [st |-> s,
   bad |-> Bad(c.okops, "operator_table") \cup
     CASE ev.k = "columns" ->
          IF ev.exc # "" THEN {"raised"}
          ELSE LET got == {ev.cols[i] : i \in DOMAIN ev.cols} want == TLCEval(Want(c, ev))
               IN Bad(Cardinality(got) = Len(ev.cols), "duplicates")
                  \cup Bad(got \subseteq want, "extra_columns")
                  \cup Bad(want \subseteq got, "missing_columns")
                  \cup Bad(\A w \in got : w = Canon(c.al, w), "not_canonical")
                  \cup Bad(<<>> \notin want \/ (ev.kind = "blocks" /\ ev.blocks[1] # <<>>) \/ ev.cols = <<>> \/ ev.cols[1] = <<>>, "identity_first")
                  \cup Bad(ev.ncols = Len(ev.cols), "column_count")
       [] ev.k = "explicit" ->
          IF ev.exc # "" THEN {"raised"}
          ELSE Bad(ev.cols = ev.given, "explicit_columns") \cup Bad(ev.ncols = Len(ev.given), "column_count")
       [] ev.k = "symbolic" ->      \* columns written as symbols and read back
          IF ev.exc # "" THEN {"raised"} ELSE Bad(ev.back = ev.cols, "symbolic_roundtrip")
       [] OTHER -> {"unexpected_" \o ev.k}]
=============================================================================
