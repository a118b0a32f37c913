-------------------------------- MODULE T_C23 --------------------------------
(***************************************************************************)
(* C23: what a relaxation reports about its moments, and the forms in      *)
(* which it offers its constraints, are true of them.                      *)
(***************************************************************************)
EXTENDS Harness, Know

PrepareC23(bl) ==
  LET sc0 == Derive(bl.inp)
      sc == TLCEval([sc0 EXCEPT !.ops = bl.ops])
      al == Algebra(sc)
  IN [okops |-> Rng(bl.ops) = Rng(sc0.ops) /\ Len(bl.ops) = Len(sc0.ops),
      sc |-> sc, al |-> al, perms |-> Perms(sc), sdp |-> bl.sdp]
StartC23(bl, c) == <<>>
Bad(cond, name) == IF cond THEN {} ELSE {name}
Flag(b) == IF b THEN 1 ELSE 0

(* at most one copy of every source appears *)
OneCopy(sc, w) == \A i, j \in DOMAIN w : \A s \in 1..sc.S :
                     LET a == Cpy(sc.ops[w[i]], s) b == Cpy(sc.ops[w[j]], s) IN a > 0 /\ b > 0 => a = b
(* nonnegative in every state: equal to its own reversal by commutations, w = U C U+ with C a product of commuting projectors *)
Positive(al, w) == SelfAdjoint(al, w)
(* a factor's reversal, up to copy relabelling *)
RepRev(c, w) == Rep(c.al, c.perms, Canon(c.al, Rev(w)))
Hermitian(c, w) == RepRev(c, w) = Rep(c.al, c.perms, Canon(c.al, w))
Knows(c, w) == KnowableAtom(c.sc, w)

JudgeAtom(c, a) ==
  Bad(a.nops = Len(a.w), "operators") \cup Bad(~a.one /\ ~a.zero, "one_or_zero")
  \cup Bad(a.allcomm = Flag(AllCommute(c.al, a.w)), "all_commuting")
  \cup Bad(a.docond = Flag(OneCopy(c.sc, a.w)), "do_conditional")
  \cup Bad(a.know = Flag(Knows(c, a.w)), "knowable")
  \cup Bad(a.know # 1 \/ a.rect = [i \in DOMAIN a.w |-> LET r == c.sc.ops[a.w[i]] IN <<Pty(r), c.sc.eff[Pty(r)][Setg(r) + 1][1], Outc(r)>>], "original_event")
  \cup (IF ~c.sdp THEN {} ELSE
        Bad(a.herm = Flag(Hermitian(c, a.w)), "hermitian")
        \cup Bad(a.phys = Flag(Positive(c.al, a.w)), "physical")
        \cup Bad(Rep(c.al, c.perms, Canon(c.al, a.dag)) = RepRev(c, a.w) /\ a.dagdag, "dagger"))

Tot(c, f(_), atoms) == FoldLeft(LAMBDA x, w : x + f(w), 0, atoms)
JudgeMoment(c, m) ==
  IF m.zero THEN Bad(~m.one, "zero_is_one") ELSE
  LET n == Len(m.atoms)
      K == SelectSeq(m.atoms, LAMBDA w : Knows(c, w))
      U == SelectSeq(m.atoms, LAMBDA w : ~Knows(c, w))
      every(P(_)) == \A i \in 1..n : P(m.atoms[i])
      ones == m.nfac - n            \* the identity may be kept as a factor
  IN Bad(m.one = (n = 0), "one") \cup Bad(ones \in {0, IF n = 0 THEN 1 ELSE 0} /\ m.len = m.nfac, "factors")
     \cup Bad(m.nops = FoldLeft(LAMBDA x, w : x + Len(w), 0, m.atoms), "operators")
     \cup Bad(m.atomic = (n <= 1), "atomic")
     \cup Bad(m.know = (U = <<>>), "knowable")
     \cup Bad(m.status = (IF U = <<>> THEN "Knowable" ELSE IF K = <<>> THEN "Unknowable" ELSE "Semi"), "status")
     \cup Bad(m.nk = Len(K) + ones /\ m.nu = Len(U) /\ SortW(m.kf) = SortW(K) /\ SortW(m.uf) = SortW(U), "split")
     \cup Bad(m.docond = every(LAMBDA w : OneCopy(c.sc, w)), "do_conditional")
     \cup Bad(m.flat = FoldLeft(LAMBDA x, w : x \o w, <<>>, m.atoms), "flat")
     \cup (IF ~c.sdp THEN {} ELSE
           Bad(m.allcomm = Flag(every(LAMBDA w : AllCommute(c.al, w))), "all_commuting")
           \cup Bad(m.herm = Flag(every(LAMBDA w : Hermitian(c, w))), "hermitian")
           \cup Bad(m.phys = Flag(every(LAMBDA w : Positive(c.al, w))), "physical"))

StepOrder(c, ev) ==
  UNION {LET o == ev.order[k] u == ev.atoms[o[1]].w v == ev.atoms[o[2]].w
         IN Bad(o[4] = (u = v), "equality") \cup Bad(u # v \/ o[5], "hash") \cup Bad(o[3] = WLt(u, v), "order") : k \in DOMAIN ev.order}

AtomSet(all) == UNION {Rng(all[i]) : i \in DOMAIN all}
Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
IncreasingW(s) == \A i \in 1..(Len(s) - 1) : WLt(s[i], s[i + 1])
(* a moment of a semidefinite relaxation stands for its real part, so an atom and its reversal have one moment *)
Face(c, w) == IF ~c.sdp THEN w ELSE LET r == RepRev(c, w) IN IF WLt(r, w) THEN r ELSE w
Listed(c, s, S) == (c.sdp \/ Distinct(s)) /\ Rng(s) = {<<Face(c, w)>> : w \in S}
StepLists(c, ev) ==
  LET A == AtomSet(ev.all) IN
  Bad(Rng(ev.atomic_factors) = A /\ IncreasingW(ev.atomic_factors), "atomic_factors")
  \cup Bad(Listed(c, ev.atomic_monomials, A), "atomic_monomials")
  \cup Bad(Listed(c, ev.knowable, {w \in A : Knows(c, w)}), "knowable_atoms")
  \cup Bad(Listed(c, ev.docond, {w \in A : OneCopy(c.sc, w) /\ ~Knows(c, w)}), "do_conditional_atoms")
  \cup Bad(ev.strings, "strings")

StepEqual(c, ev) ==
  UNION {LET p == ev.pairs[k] IN
         IF p[1] = 0 THEN Bad(p[3] = (Face(c, p[5]) = p[5]), "atom_and_moment")
         ELSE LET same == ev.zero[p[1]] = ev.zero[p[2]] /\ SortW(ev.all[p[1]]) = SortW(ev.all[p[2]])
              IN Bad(p[3] = same, "equality") \cup Bad(~same \/ p[4], "hash") : k \in DOMAIN ev.pairs}

(* factorisation conditions: [moment, moments] *)
StepConds(c, s, ev) ==
  LET all == ev.mons
      many == {i \in DOMAIN all : Len(all[i]) > 1}
      one(x) ==
        IF x.exc # "" THEN {x.name \o "_" \o x.exc} ELSE
        Bad({p[1] : p \in Rng(x.conds)} = many /\ Len(x.conds) = Cardinality(many), x.name \o "_keys")
        \cup UNION {LET p == x.conds[k] m == all[p[1]]
                        parts == FoldLeft(LAMBDA a, i : a \o all[i], <<>>, p[2])
                    IN Bad(SortW(parts) = SortW(m) /\ Len(p[2]) = (IF x.quad THEN 2 ELSE Len(m)) /\ \A i \in DOMAIN p[2] : all[p[2][i]] # <<>>, x.name)
                    : k \in DOMAIN x.conds}
  IN UNION {one(ev.conds[k]) : k \in DOMAIN ev.conds}

(* rows of [moment, number]: entries with number zero are immaterial only where a missing entry means zero *)
Linear(name) == name \notin {"sparse_known_vars", "known_vars_by_name", "sparse_lowerbounds", "lowerbounds_by_name", "sparse_upperbounds", "upperbounds_by_name"}
RowSet(row, lin) == {row[i] : i \in {k \in DOMAIN row : ~(lin /\ row[k][2][1] = 0)}}
StepViews(c, ev) ==
  UNION {LET v == ev.views[k] lin == Linear(v.name) IN
         IF v.exc # "" THEN {v.name \o "_" \o v.exc} ELSE
         Bad(Len(v.truth) = Len(v.got) /\ \A i \in DOMAIN v.got : RowSet(v.got[i], lin) = RowSet(v.truth[i], lin) /\ Distinct([j \in DOMAIN v.got[i] |-> v.got[i][j][1]]), v.name)
         : k \in DOMAIN ev.views}

(* numbers: a moment of known factors, and what some known factors make of a moment *)
StepMarginal(c, ev) ==
  UNION {LET m == ev.moms[k] IN
         Bad(m.v = RProdSeq([i \in DOMAIN m.atoms |-> Marginal(c.sc, ev.dist, ev.den, m.atoms[i])]), "marginal") : k \in DOMAIN ev.moms}
StepEvaluate(c, ev) ==
  UNION {LET m == ev.evs[k]
             has(w) == \E i \in DOMAIN m.known : m.known[i][1] = w
             val(w) == m.known[CHOOSE i \in DOMAIN m.known : m.known[i][1] = w][2]
             K == SelectSeq(m.atoms, has)
             U == SelectSeq(m.atoms, LAMBDA w : ~has(w))
             v == RProdSeq([i \in DOMAIN K |-> val(K[i])])
             st == IF U = <<>> THEN "Known" ELSE IF K = <<>> \/ ~m.lpi THEN "Unknown" ELSE IF v[1] = 0 THEN "Known" ELSE "Semi"
         IN Bad(m.st = st, "evaluate_status") \cup Bad(SortW(m.unknown) = SortW(U), "evaluate_unknown")
            \cup Bad(st = "Unknown" \/ m.v = v, "evaluate_value") : k \in DOMAIN ev.evs}

StepRel(c, ev) ==
  LET nc == {<<i, j>> \in (1..Len(c.sc.ops)) \X (1..Len(c.sc.ops)) : c.al.nc[i][j]} IN
  Bad({{r[1], r[2]} : r \in Rng(ev.rel)} = {{p[1], p[2]} : p \in nc} /\ Len(ev.rel) * 2 = Cardinality(nc), "commutation_relations")
  \cup Bad(\A i \in DOMAIN ev.order : ev.order[i][1] = ev.internal[ev.order[i][2] + 1], "lexicographic_order")
  \cup Bad({o[1] : o \in Rng(ev.order)} = 1..Len(c.sc.ops), "lexicographic_order_operators")

StepC23(c, s, ev) ==
  [st |-> s, bad |-> Bad(c.okops, "operator_table") \cup
     CASE ev.k = "moments" -> UNION {JudgeMoment(c, ev.moms[i]) : i \in DOMAIN ev.moms}
       [] ev.k = "atoms" -> UNION {JudgeAtom(c, ev.atoms[i]) : i \in DOMAIN ev.atoms} \cup StepOrder(c, ev)
       [] ev.k = "lists" -> StepLists(c, ev)
       [] ev.k = "equal" -> StepEqual(c, ev)
       [] ev.k = "conditions" -> StepConds(c, s, ev)
       [] ev.k = "views" -> StepViews(c, ev)
       [] ev.k = "marginal" -> StepMarginal(c, ev)
       [] ev.k = "evaluate" -> StepEvaluate(c, ev)
       [] ev.k = "relations" -> Bad(ev.exc = "", "raised") \cup (IF ev.exc = "" THEN StepRel(c, ev) ELSE {})
       [] OTHER -> {"unexpected_" \o ev.k}]
=============================================================================
