------------------------------- MODULE T_PROG -------------------------------
(***************************************************************************)
(* C11, C12, C13: recorded histories of calls on a relaxation object are   *)
(* behaviours of Program, the program handed to the solver is the one the  *)
(* state describes, and results are those of the last solve of it.         *)
(***************************************************************************)
EXTENDS Harness, Know, Program

(* one canonical name per factor, up to copies and reversal *)
FKey(al, perms, w) == LET a == Rep(al, perms, Canon(al, w)) b == Rep(al, perms, Canon(al, Rev(w))) IN IF WLt(b, a) THEN b ELSE a
JointKey(al, perms, atoms) ==
  LET k1 == SortW([i \in DOMAIN atoms |-> Rep(al, perms, Canon(al, atoms[i]))])
      k2 == SortW([i \in DOMAIN atoms |-> Rep(al, perms, Canon(al, Rev(atoms[i])))])
  IN IF SeqLt(k2, k1) THEN k2 ELSE k1

PrepareP(bl) ==
  LET sc0 == Derive(bl.inp)
      sc == TLCEval([sc0 EXCEPT !.ops = bl.ops])
      al == TLCEval(Algebra(sc))
      perms == TLCEval(Perms(sc))
      M == TLCEval([i \in DOMAIN bl.table |->
             LET r == bl.table[i] IN
             [f |-> [k \in DOMAIN r.atoms |-> FKey(al, perms, r.atoms[k])], atoms |-> r.atoms,
              key |-> IF r.zero THEN << ZERO >> ELSE JointKey(al, perms, r.atoms),
              zero |-> r.zero, inrel |-> r.inrel, nonneg |-> r.nonneg]])
      rel == {i \in DOMAIN M : M[i].inrel}
      af == UNION {Rng(M[i].f) : i \in rel}
  IN [okops |-> Rng(bl.ops) = Rng(sc0.ops) /\ Len(bl.ops) = Len(sc0.ops),
      sc |-> sc, al |-> al, perms |-> perms, mode |-> bl.mode, supports |-> bl.supports, M |-> M, one |-> bl.one,
      zero |-> bl.zero, nonneg |-> bl.nonneg, cells |-> bl.cells,
      atomic |-> {i \in DOMAIN M : Len(M[i].f) = 1 /\ M[i].f[1] \in af},
      mineq |-> {Lin(bl.mineq[k]) : k \in DOMAIN bl.mineq}, miniq |-> {Lin(bl.miniq[k]) : k \in DOMAIN bl.miniq},
      distinct |-> Cardinality({M[i].key : i \in rel}) = Cardinality(rel)]
StartP(bl, c) == [Initial(c) EXCEPT !.dead = FALSE]
Bad(cond, name) == IF cond THEN {} ELSE {name}

Remainder(c, i, pos) == LET ps == SetToSortSeq(pos, <) IN JointKey(c.al, c.perms, [k \in DOMAIN ps |-> c.M[i].atoms[ps[k]]])
Target(c, i, pos) == LET k == Remainder(c, i, pos) S == {j \in DOMAIN c.M : c.M[j].key = k}
                     IN IF S = {} THEN 0 ELSE CHOOSE j \in S : TRUE

(* a distribution gives a value to every factor the data determine *)
DistVals(c, ev) ==
  LET S == {i \in c.atomic : KnowableAtom(c.sc, c.M[i].atoms[1])}
      s == SetToSortSeq(S, <)
  IN [k \in DOMAIN s |-> <<s[k], Marginal(c.sc, ev.dist, ev.den, c.M[s[k]].atoms[1])>>]

After(c, st, ev) ==
  CASE ev.op = "init" -> st
    [] ev.op = "set_values" -> SetValues(c, st, ev.vals, ev.lpi, ev.only)
    [] ev.op = "update_values" -> UpdateValues(c, st, ev.vals, ev.lpi, ev.only)
    [] ev.op = "set_distribution" -> SetValues(c, st, IF ev.none THEN <<>> ELSE DistVals(c, ev), ev.lpi, ev.only)
    [] ev.op = "set_bounds" -> SetBounds(c, st, ev.vals, ev.bound, ev.none)
    [] ev.op = "set_objective" -> SetObjective(c, st, ev.vals, ev.dir, ev.none)
    [] ev.op = "set_extra_eq" -> SetExtra(st, "eq", ev.rows)
    [] ev.op = "set_extra_iq" -> SetExtra(st, "iq", ev.rows)
    [] ev.op = "reset" -> ResetAll(c, st, ev.which)
    [] ev.op = "solve" -> Solve(c, st, ev.script)
    [] OTHER -> st

(* ---- the projected state after a call ------------------------------------------------------------- *)
SameBag(rows, fs) == Len(rows) = Len(fs) /\ {Lin(rows[k]) : k \in DOMAIN rows} = Rng(fs)
State(c, st, o) ==
  Bad(Fn(o.known) = st.known, "fixed_values")
  \cup Bad(/\ {o.semi[k][1] : k \in DOMAIN o.semi} = DOMAIN st.semi
           /\ \A k \in DOMAIN o.semi : LET e == st.semi[o.semi[k][1]] IN
                /\ o.semi[k][2] = e[1]
                /\ JointKey(c.al, c.perms, o.semi[k][3]) = Remainder(c, o.semi[k][1], e[2]), "linearised_factors")
  \cup Bad(Fn(o.lo) = st.lo, "lower_bounds") \cup Bad(Fn(o.up) = st.up, "upper_bounds")
  \cup Bad(Lin(o.obj) = Signed(st) /\ o.max = st.max, "objective")
  \cup Bad(SameBag(o.eq, st.eqs), "extra_equalities") \cup Bad(SameBag(o.iq, st.iqs), "extra_inequalities")

(* ---- what the solver was given -------------------------------------------------------------------- *)
BoundRows(c, st) == {LAdd([j \in {i} |-> ROne], LScale(RNeg(st.lo[i]), [j \in {c.one} |-> ROne])) : i \in DOMAIN st.lo}
                    \cup {LAdd([j \in {i} |-> R(-1)], LScale(st.up[i], [j \in {c.one} |-> ROne])) : i \in DOMAIN st.up}
SemiRows(c, st) == {LAdd([j \in {i} |-> ROne], LScale(RNeg(st.semi[i][1]), [j \in {Target(c, i, st.semi[i][2])} |-> ROne]))
                    : i \in DOMAIN st.semi}
Rowset(rows) == {Lin(rows[k]) : k \in DOMAIN rows} \ {Empty}
Handed(c, st, ev) ==
  LET p == ev.prog
      eqs == (c.mineq \cup Rng(st.eqs)) \ {Empty}
      iqs == (c.miniq \cup Rng(st.iqs)) \ {Empty}
      T(i, pos) == Target(c, i, pos)
      o1 == Substitute(c, st, Lin(p.obj), T)
      o2 == Substitute(c, st, Signed(st), T)
      o3 == Substitute(c, st, o2, T)
      nontriv == DOMAIN o2 \ {c.one} # {}
  IN Bad(p.names, "program_variables")
     \cup Bad(o1 = o2 \/ o1 = o3, "program_objective")
     \cup Bad(Put(Fn(p.known), [i \in {c.one} |-> ROne]) =
              IF c.mode = "sdp" THEN Put(st.known, [i \in {c.one} |-> ROne])
              ELSE IF c.one \in DOMAIN Fn(p.known) THEN Put(st.known, [i \in {c.one} |-> Fn(p.known)[c.one]])
              ELSE Put(st.known, [i \in {c.one} |-> ROne]), "program_fixed_values")
     \cup Bad(c.mode = "sdp" \/ (c.one \in DOMAIN Fn(p.known)) = (c.one \in DOMAIN st.known), "program_normalisation")
     \cup (IF c.mode = "lp"
           THEN Bad(Rowset(p.eq) = (eqs \cup SemiRows(c, st)) \ {Empty}, "program_equalities")
                \cup Bad(Rowset(p.iq) = iqs, "program_inequalities")
                \cup Bad(Fn(p.lo) = st.lo /\ Fn(p.up) = st.up, "program_bounds")
                \cup Bad(p.nonneg = ev.nn, "program_nonnegativity")
                \cup Bad(p.relk = (ev.relk /\ st.obj = Empty) /\ p.reli = (ev.reli /\ st.obj = Empty), "program_kind")
           ELSE Bad(Rowset(p.eq) = eqs, "program_equalities")
                \cup Bad(Rowset(p.iq) = (iqs \cup BoundRows(c, st)) \ {Empty}, "program_inequalities")
                \cup Bad({<<p.semi[k][1], p.semi[k][2], p.semi[k][3]>> : k \in DOMAIN p.semi} =
                         {<<i, st.semi[i][1], Target(c, i, st.semi[i][2])>> : i \in DOMAIN st.semi}, "program_linearised")
                \cup Bad(\A k \in DOMAIN c.cells : \E l \in DOMAIN p.masks :
                            p.masks[l][1] = c.cells[k][1] /\ p.masks[l][2] = c.cells[k][2], "program_matrix")
                \cup Bad(\A l \in DOMAIN p.masks : p.masks[l][2] = <<>> \/
                            \E k \in DOMAIN c.cells : p.masks[l][1] = c.cells[k][1] /\ p.masks[l][2] = c.cells[k][2], "program_matrix")
                \cup Bad(IF st.obj = Empty THEN p.relax = ev.relax ELSE nontriv => ~p.relax, "program_kind"))
     \cup Bad(p.dual = ev.dual, "program_dual_flag")

(* ---- what is reported as the result --------------------------------------------------------------- *)
Result(c, st, o) ==
  IF st.sol = <<>>
  THEN Bad(~o.hasval /\ ~o.hasprim, "stale_value") \cup Bad(~o.hassol /\ o.certexc = "refused", "stale_certificate")
       \cup Bad(o.status = "Not yet solved", "stale_status") \cup Bad(~o.hassucc \/ ~o.succ, "stale_success")
  ELSE Bad(o.status = st.sol.status, "status") \cup Bad(o.hassucc /\ o.succ = st.sol.success, "success")
       \cup (IF st.sol.success THEN Bad(o.val = (IF st.max THEN st.sol.val ELSE RNeg(st.sol.val)), "value")
             ELSE Bad(o.val = <<0, 0>>, "value_without_success"))
       \cup (IF st.sol.hascert THEN Bad(o.certexc = "" /\ Fn(o.cert) = Fn(st.sol.cert), "certificate")
             ELSE Bad(o.certexc # "" /\ o.cert = <<>>, "certificate_without_solution"))

StepP(c, st, ev) ==
  LET s2 == After(c, st, ev)
      accepted == ev.exc = ""
      bad11 == Bad(c.okops /\ c.distinct, "table")
               \cup Bad(ev.exc \in {"", "refused"}, "raised")
               \cup Bad(ev.exc \notin {"", "refused"} \/ accepted = ~s2.dead, IF s2.dead THEN "not_refused" ELSE "refused")
               \cup (IF accepted /\ ~s2.dead
                     THEN State(c, s2, ev.obs) \cup (IF ev.op = "solve" THEN Handed(c, s2, ev) ELSE {}) ELSE {})
      bad13 == IF accepted /\ ~s2.dead THEN Result(c, s2, ev.obs) ELSE {}
  IN [st |-> s2, b11 |-> bad11, b13 |-> bad13]
(* which part a property is about *)
StepC11(c, st, ev) == LET r == StepP(c, st, ev) IN [st |-> r.st, bad |-> r.b11]
StepC13(c, st, ev) == LET r == StepP(c, st, ev) IN [st |-> r.st, bad |-> r.b13]
=============================================================================
