-------------------------------- MODULE T_C08 --------------------------------
(***************************************************************************)
(* C08: the variables and constraints of the linear relaxation.            *)
(* Events are increasing words of pairwise commuting operators with at most *)
(* one outcome per measurement.                                            *)
(***************************************************************************)
EXTENDS Harness, Know

MeasOf(o) == SubSeq(o, 1, Len(o) - 1)

PrepareC08(bl) ==
  LET sc0 == Derive(bl.inp)
      sc == TLCEval([sc0 EXCEPT !.ops = bl.ops])
      al == Algebra(sc)
      N == Len(sc.ops)
      elim == TLCEval([p \in 1..sc.P |-> ~(bl.full \/ sc.haschild[p])])     \* last outcome eliminated
      meas == TLCEval([i \in 1..N |-> MeasOf(sc.ops[i])])
      ok == TLCEval([i \in 1..N |-> [j \in 1..N |-> ~al.nc[i][j] /\ meas[i] # meas[j]]])
      last == TLCEval([i \in 1..N |-> Outc(sc.ops[i]) = sc.outs[Pty(sc.ops[i])] - 1])
      kept == TLCEval([i \in 1..N |-> ~(last[i] /\ elim[Pty(sc.ops[i])])])
      siblings == TLCEval([i \in 1..N |-> {j \in 1..N : meas[j] = meas[i] /\ j # i}])
      mset == TLCEval({meas[i] : i \in 1..N})
  IN [okops |-> Rng(bl.ops) = Rng(sc0.ops) /\ Len(bl.ops) = Len(sc0.ops), sc |-> sc, al |-> al, perms |-> Perms(sc),
      N |-> N, elim |-> elim, ok |-> ok, last |-> last, kept |-> kept, meas |-> meas, siblings |-> siblings, mset |-> mset]
StartC08(bl, c) == <<>>
Bad(cond, name) == IF cond THEN {} ELSE {name}

(* all events over the letters, as increasing sequences *)
RECURSIVE EventsFrom(_, _, _)
EventsFrom(c, letters, w) ==
  {w} \cup UNION {LET l == letters[k] IN
      IF \A j \in DOMAIN w : c.ok[w[j]][l] THEN EventsFrom(c, SubSeq(letters, k + 1, Len(letters)), Append(w, l)) ELSE {}
      : k \in DOMAIN letters}
Letters(c, keptonly) == SelectSeq([i \in 1..c.N |-> i], LAMBDA i : ~keptonly \/ c.kept[i])
SortE(S) == SetToSortSeq(S, <)
Class(c, w) == AtomsOf(c.al, c.perms, w)       \* factors, each up to relabelling
KeyOf(c, fs) == SortW([i \in DOMAIN fs |-> Rep(c.al, c.perms, SortE(Rng(fs[i])))])

(* no compatible measurement can be added *)
MaximalEvent(c, w) == \A l \in 1..c.N : \E j \in DOMAIN w : ~c.ok[w[j]][l]

(* P(w) with the letters in X (last outcomes) written through the other outcomes of their measurements: *)
(* set of <<sign, event>>                                                                              *)
RECURSIVE Expand(_, _, _)
Expand(c, base, X) ==
  IF X = {} THEN {<<1, base>>}
  ELSE LET x == CHOOSE y \in X : TRUE
           r == Expand(c, base, X \ {x})
       IN r \cup {<<0 - t[1], t[2] \cup {o}>> : t \in r, o \in c.siblings[x]}
Row(c, terms) ==     \* coefficients by class, zero coefficients dropped
  LET T == TLCEval({<<t, Class(c, SortE(t[2]))>> : t \in terms})
      K == {t[2] : t \in T}
      S(k) == Cardinality({t \in T : t[2] = k /\ t[1][1] > 0}) - Cardinality({t \in T : t[2] = k /\ t[1][1] < 0})
  IN {<<k, S(k)>> : k \in {q \in K : S(q) # 0}}

IneqRow(c, w) == LET X == {w[i] : i \in {j \in DOMAIN w : ~c.kept[w[j]]}} IN Row(c, Expand(c, Rng(w) \ X, X))
EqRow(c, w) == LET X == {w[i] : i \in {j \in DOMAIN w : c.last[w[j]]}}
                   r == Row(c, Expand(c, Rng(w) \ X, X) \cup {})
                   k == Class(c, w)
                   old == IF \E p \in r : p[1] = k THEN (CHOOSE p \in r : p[1] = k)[2] ELSE 0
               IN {p \in r : p[1] # k} \cup (IF old = 1 THEN {} ELSE {<<k, old - 1>>})

GotRow(c, vs, row) == {<<vs[row[i][1]], row[i][2]>> : i \in DOMAIN row}
Neg(r) == {<<p[1], 0 - p[2]>> : p \in r}

KnowStatus(c, f) == LET k == {i \in DOMAIN f : KnowableAtom(c.sc, f[i])}
                    IN IF k = DOMAIN f THEN "Knowable" ELSE IF k = {} THEN "Unknowable" ELSE "Semi"

StepLP(c, ev) ==
  LET raw == TLCEval(EventsFrom(c, Letters(c, TRUE), <<>>))
      vs == TLCEval([i \in DOMAIN ev.vars |-> KeyOf(c, ev.vars[i].fs)])
      want == TLCEval({Class(c, w) : w \in raw})
      full == TLCEval({w \in EventsFrom(c, Letters(c, FALSE), <<>>) : MaximalEvent(c, w)})
      iq == TLCEval({IneqRow(c, w) : w \in full})
      eqv == {w \in raw : \E i \in DOMAIN w : c.last[w[i]]}
      eq == TLCEval({EqRow(c, w) : w \in eqv})
      giq == TLCEval({GotRow(c, vs, ev.ineq[i]) : i \in DOMAIN ev.ineq})
      geq == TLCEval({GotRow(c, vs, ev.eq[i]) : i \in DOMAIN ev.eq})
  IN Bad(Cardinality(Rng(vs)) = Len(vs), "split_variables")
     \cup Bad(Rng(vs) \subseteq want, "extra_variables")
     \cup Bad(want \subseteq Rng(vs), "missing_variables")
     \cup Bad(\A i \in DOMAIN ev.vars : ev.vars[i].status = "" \/ ev.vars[i].status = KnowStatus(c, ev.vars[i].fs), "knowability_status")
     \cup Bad(iq \subseteq giq, "missing_inequality")
     \cup Bad(giq \subseteq iq, "extra_inequality")
     \cup Bad(\A r \in eq : r \in geq \/ Neg(r) \in geq, "missing_equality")
     \cup Bad(\A r \in geq : r \in eq \/ Neg(r) \in eq \/ r = {}, "extra_equality")
     \cup UNION {LET k == vs[ev.fact[i].v]
                     parts(u) == SortW(FlattenSeq(u))
                     single(u) == [j \in DOMAIN u |-> KeyOf(c, u[j])]
                 IN Bad(Len(ev.fact[i].parts) = Len(k) /\ Len(ev.fact[i].quad) = 2, "number_of_factors")
                    \cup Bad(\A j \in DOMAIN ev.fact[i].parts : Len(ev.fact[i].parts[j]) = 1, "atomic_factors")
                    \cup Bad(parts(single(ev.fact[i].parts)) = k, "factorisation_condition")
                    \cup Bad(parts(single(ev.fact[i].quad)) = k, "quadratic_factorisation_condition")
                 : i \in DOMAIN ev.fact}
     \cup Bad({ev.fact[i].v : i \in DOMAIN ev.fact} = {i \in DOMAIN vs : Len(vs[i]) > 1}, "factorising_variables")

StepC08(c, s, ev) ==
  [st |-> s,
   bad |-> Bad(c.okops, "operator_table") \cup
     CASE ev.k = "lp" -> IF ev.exc # "" THEN {"raised"} ELSE StepLP(c, ev)
       [] OTHER -> {"unexpected_" \o ev.k}]
=============================================================================
