------------------------------- MODULE T_C17 -------------------------------
(***************************************************************************)
(* C17: cleaning coefficients, and the views of one polynomial.            *)
(* A polynomial is a sequence of <<factors, coefficient>>, the factors a    *)
(* sorted sequence of atom numbers; repeated terms add up.                  *)
(***************************************************************************)
EXTENDS Harness, Know

PrepareC17(bl) ==
  LET sc0 == Derive(bl.inp)
  IN [okops |-> Rng(bl.ops) = Rng(sc0.ops) /\ Len(bl.ops) = Len(sc0.ops), sc |-> TLCEval([sc0 EXCEPT !.ops = bl.ops]),
      atoms |-> bl.atoms, big |-> bl.big, unit |-> bl.unit]
StartC17(bl, c) == <<>>
Bad(cond, name) == IF cond THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN -x ELSE x
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Pow10(r) == <<1, 10, 100, 1000>>[r + 1]

Mons(p) == {p[k][1] : k \in DOMAIN p}
Coef(p, m) == Sum([k \in DOMAIN p |-> IF p[k][1] = m THEN p[k][2] ELSE 0])
Count(p, m) == Cardinality({k \in DOMAIN p : p[k][1] = m})
(* the same polynomial, coefficients over d1 and d2 = q * d1, up to e *)
Same(p, q, f, e) == \A m \in Mons(p) \cup Mons(q) : Abs(Coef(p, m) * f - Coef(q, m)) <= e * (Count(p, m) + Count(q, m))

(* cleaned(n, n0, o): coefficient n (over u) became o (over 10^r) when n0 was scaled to one *)
Chopped(n, tol, u) == Abs(n) * tol[2] <= u * tol[1]
(* o times n0 fits when o is what it should be *)
Near(n, n0, o, r, k) ==
  LET e == (Abs(n) * Pow10(r)) \div Abs(n0) IN Abs(Abs(o) - e) <= k + 1 /\ 2 * Abs(o * Abs(n0) - n * Pow10(r)) <= k * Abs(n0)
CleanSeq(src, out, tol, r, u) ==
  LET live == {i \in DOMAIN src : ~Chopped(src[i], tol, u)}
  IN /\ \A i \in DOMAIN src \ live : out[i] = 0
     /\ live = {} \/ \E i \in {i \in live : out[i] = Pow10(r) \/ out[i] = -Pow10(r)} : \A j \in live : Near(src[j], src[i], out[j], r, 1)

StepClean(c, ev) ==
  IF ev.exc # "" THEN {"raised"}
  ELSE Bad(ev.keys, "keys") \cup Bad(ev.same, "input_changed") \cup Bad(ev.grid, "rounding")
       \cup Bad(CleanSeq(ev.src, ev.out, ev.tol, ev.r, c.unit), "cleaned")

(* the value of a polynomial on a distribution, coefficients over d *)
Value(c, p, d, ev) ==
  RSumSeq([k \in DOMAIN p |-> RMul(Norm(<<p[k][2], d>>),
     RProdSeq([j \in DOMAIN p[k][1] |-> Marginal(c.sc, ev.dist, ev.den, c.atoms[p[k][1][j]])]))])

StepPoly(c, ev) ==
  IF ev.exc # "" THEN {"raised"}
  ELSE UNION {Bad(Same(ev.want, ev.views[v], c.big \div c.unit, 2), <<"view_dict", "view_symbols", "view_string">>[v]) : v \in DOMAIN ev.views}
       \cup (IF ~ev.ev THEN {} ELSE Bad(Value(c, ev.want, c.unit, ev) = ev.value, "evaluation"))

(* the certificate's terms (by name, hence possibly several constants) after cleaning *)
CleanPoly(want, all, out, tol, r, big, u) ==
  LET live == {i \in DOMAIN all : ~Chopped(all[i], tol, u)}
      keep == SelectSeq(want, LAMBDA t : ~Chopped(t[2], tol, u))
      unit == big \div Pow10(r)
  IN /\ \A m \in Mons(out) : Coef(out, m) % unit = 0
     /\ IF live = {} \/ \A i \in DOMAIN all : all[i] = 0 THEN \A m \in Mons(out) : Coef(out, m) = 0
        ELSE \E i \in live : \A m \in Mons(keep) \cup Mons(out) :
               Near(Coef(keep, m), all[i], Coef(out, m) \div unit, r, IF Count(keep, m) < 2 THEN 1 ELSE Count(keep, m))

StepCert(c, ev) ==
  IF ev.exc # "" THEN {"raised"}
  ELSE UNION {Bad(Same(ev.want, ev.views[v], c.big \div c.unit, 2), <<"cert_dict", "cert_symbols", "cert_string">>[v]) : v \in DOMAIN ev.views}
       \cup Bad(CleanPoly(ev.want, ev.allc, ev.clean[1], ev.tol, ev.r, c.big, c.unit), "cleaned_cert")
       \cup Bad(CleanPoly(ev.want, ev.allc, ev.std, RZero, 3, c.big, c.unit), "cleaned_cert_default")
       \cup Bad(\A v \in 2..Len(ev.clean) : Same(ev.clean[1], ev.clean[v], 1, 2), "cleaned_views")
       \cup Bad(ev.kept, "solution_changed")
       \cup (IF ~ev.ev THEN {}
             ELSE LET v == Value(c, [k \in DOMAIN ev.std |-> <<ev.std[k][1], ev.std[k][2] \div (c.big \div 1000)>>], 1000, ev)
                  IN Bad(RLe(RAbs(RSub(v, <<ev.value[1] \div 100, 10000>>)), <<1, 1000>>), "evaluation_cert"))

StepC17(c, s, ev) ==
  [st |-> s,
   bad |-> Bad(c.okops, "operator_table") \cup
      (CASE ev.k = "clean" -> StepClean(c, ev) [] ev.k = "poly" -> StepPoly(c, ev) [] ev.k = "cert" -> StepCert(c, ev))]
=============================================================================
