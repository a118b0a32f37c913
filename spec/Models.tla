-------------------------------- MODULE Models --------------------------------
(***************************************************************************)
(* Explicit models of a scenario and the expectations they give to inflated *)
(* products.  Two kinds:                                                    *)
(*  classical: finite sources with integer weights over D, deterministic    *)
(*    intermediate latents, deterministic responses;                        *)
(*  stabiliser: every nonclassical source is a stabiliser state shared by   *)
(*    qubits, one per child; every measurement is a Pauli observable chosen *)
(*    by the setting, the observed parents and the classical sources.       *)
(* Both give rational expectations, so comparisons are exact.               *)
(* Copies of a source are independent and identically distributed.          *)
(***************************************************************************)
EXTENDS Know

(* position in a row-major table *)
TabIdx(dims, key) == FoldLeft(LAMBDA acc, k : acc * dims[k] + key[k], 0, [k \in DOMAIN dims |-> k]) + 1
CopiesOf(sc, w) == UNION {{<<s, Cpy(sc.ops[w[i]], s)>> : s \in {t \in 1..sc.S : Cpy(sc.ops[w[i]], t) > 0}} : i \in DOMAIN w}
IPow(a, n) == FoldLeft(LAMBDA x, y : x * a, 1, [k \in 1..n |-> k])
SumF(S, f(_)) == FoldLeft(LAMBDA a, x : a + f(x), 0, SetToSeq(S))
ProdF(S, f(_)) == FoldLeft(LAMBDA a, x : a * f(x), 1, SetToSeq(S))

(* ------------------------------ classical ------------------------------ *)
(* does the operator row r happen when source copies have values v? *)
Happens(sc, m, r, v) ==
  LET p == Pty(r)
      e == sc.eff[p][Setg(r) + 1]
      t == m.resp[p]
      val(s) == v[<<s, Cpy(r, s)>>]
      latv(l) == LET L == m.lat[l] IN L.tab[TabIdx([k \in DOMAIN L.src |-> m.vals], [k \in DOMAIN L.src |-> val(L.src[k])])]
      key == [k \in DOMAIN t.src |-> val(t.src[k])] \o [k \in DOMAIN t.lat |-> latv(t.lat[k])] \o e
      dims == [k \in DOMAIN t.src |-> m.vals] \o [k \in DOMAIN t.lat |-> 2] \o <<sc.priv[p]>>
              \o [k \in DOMAIN sc.par[p] |-> sc.outs[sc.par[p][k]]]
  IN t.tab[TabIdx(dims, key)] = Outc(r)
ClassicalE(sc, m, w) ==
  LET U == CopiesOf(sc, w)
      A == [U -> 0..(m.vals - 1)]
      ok(v) == \A i \in DOMAIN w : Happens(sc, m, sc.ops[w[i]], v)
      wt(v) == ProdF(U, LAMBDA u : m.w[u[1]][v[u] + 1])
  IN Norm(<<SumF({v \in A : ok(v)}, wt), IPow(m.D, Cardinality(U))>>)

(* ------------------------------ stabiliser ----------------------------- *)
(* Paulis 0..3 = I X Y Z; phases are exponents of i *)
PMul(a, b) == IF a = 0 THEN <<0, b>> ELSE IF b = 0 THEN <<0, a>> ELSE IF a = b THEN <<0, 0>>
              ELSE IF b = (a % 3) + 1 THEN <<1, 6 - a - b>> ELSE <<3, 6 - a - b>>
SeqMul(x, y) ==     \* product of two phased strings <<phase, seq>>
  LET r == [k \in DOMAIN x[2] |-> PMul(x[2][k], y[2][k])]
  IN <<(x[1] + y[1] + FoldLeft(LAMBDA a, q : a + q[1], 0, r)) % 4, [k \in DOMAIN r |-> r[k][2]]>>
RECURSIVE GroupOf(_, _)
GroupOf(gens, n) == IF gens = <<>> THEN {<<0, [k \in 1..n |-> 0]>>}
                    ELSE LET G == GroupOf(Tail(gens), n) g == <<gens[1].phase, gens[1].p>>
                         IN G \cup {SeqMul(g, h) : h \in G}
Groups(m) == [s \in DOMAIN m.src |-> IF m.src[s].cls THEN {} ELSE GroupOf(m.src[s].gens, Len(m.src[s].kids))]
ValidStab(m) == \A s \in DOMAIN m.src : m.src[s].cls \/ \A g \in GroupOf(m.src[s].gens, Len(m.src[s].kids)) :
                   (g[2] = [k \in DOMAIN g[2] |-> 0] => g[1] = 0) /\ g[1] \in {0, 2}
(* expectation (-1, 0, 1) of Paulis ps (one per kid) in the state of source s *)
StabE(grp, ps) == IF <<0, ps>> \in grp THEN 1 ELSE IF <<2, ps>> \in grp THEN -1 ELSE 0

QSources(m, p) == SelectSeq([s \in DOMAIN m.src |-> s], LAMBDA s : ~m.src[s].cls /\ p \in Rng(m.src[s].kids))
CSources(m, p) == SelectSeq([s \in DOMAIN m.src |-> s], LAMBDA s : m.src[s].cls /\ p \in Rng(m.src[s].kids))
(* the operator of row r, classical sources having values v: <<cI, cP, paulis on its qubits>> meaning (cI + cP P)/2 *)
QLetter(sc, m, r, v) ==
  LET p == Pty(r) cs == CSources(m, p)
      key == [k \in DOMAIN cs |-> v[<<cs[k], Cpy(r, cs[k])>>]] \o sc.eff[p][Setg(r) + 1]
      dims == [k \in DOMAIN cs |-> 2] \o <<sc.priv[p]>> \o [k \in DOMAIN sc.par[p] |-> sc.outs[sc.par[p][k]]]
      t == m.resp[p][TabIdx(dims, key)]
      a == Outc(r)
      trivial == \A k \in DOMAIN t.P : t.P[k] = 0
  IN IF trivial THEN <<IF t.plus = a THEN 2 ELSE 0, 0, t.P>>
     ELSE IF t.plus = a /\ t.minus = a THEN <<2, 0, t.P>>
     ELSE IF t.plus = a THEN <<1, 1, t.P>> ELSE IF t.minus = a THEN <<1, -1, t.P>> ELSE <<0, 0, t.P>>

RECURSIVE Expand2(_, _, _, _, _, _, _)
(* sum over the remaining letters; str: global Pauli string (function on qubits), ph: phase *)
Expand2(sc, m, grps, w, ls, ph, str) ==
  IF ls = <<>> THEN
     LET SC == {<<q[1], q[2]>> : q \in DOMAIN str}
         e == (IF ph \in {0, 1} THEN 1 ELSE -1) *
             ProdF(SC, LAMBDA x : LET kids == m.src[x[1]].kids IN
                 StabE(grps[x[1]], [k \in DOMAIN kids |-> LET q == <<x[1], x[2], kids[k]>> IN IF q \in DOMAIN str THEN str[q] ELSE 0]))
     IN IF ph % 2 = 0 THEN <<e, 0>> ELSE <<0, e>>
  ELSE LET l == ls[1] r == sc.ops[w[1]] qs == QSources(m, Pty(r))
           qof(k) == <<qs[k], Cpy(r, qs[k]), Pty(r)>>
           prod == [k \in DOMAIN qs |-> PMul(str[qof(k)], l[3][k])]
           ph2 == (ph + FoldLeft(LAMBDA a, x : a + x[1], 0, prod)) % 4
           str2 == [q \in DOMAIN str |-> IF \E k \in DOMAIN qs : qof(k) = q
                                         THEN prod[CHOOSE k \in DOMAIN qs : qof(k) = q][2] ELSE str[q]]
           x == IF l[1] = 0 THEN <<0, 0>> ELSE Expand2(sc, m, grps, Tail(w), Tail(ls), ph, str)
           y == IF l[2] = 0 THEN <<0, 0>> ELSE Expand2(sc, m, grps, Tail(w), Tail(ls), ph2, TLCEval(str2))
       IN <<l[1] * x[1] + l[2] * y[1], l[1] * x[2] + l[2] * y[2]>>
StabExp(sc, m, grps, w) ==
  LET U == {u \in CopiesOf(sc, w) : m.src[u[1]].cls}
      Q == UNION {LET r == sc.ops[w[i]] qs == QSources(m, Pty(r))
                  IN {<<qs[k], Cpy(r, qs[k]), Pty(r)>> : k \in DOMAIN qs} : i \in DOMAIN w}
      A == [U -> {0, 1}]
      wt(v) == ProdF(U, LAMBDA u : m.src[u[1]].w[v[u] + 1])
      one(v) == IF wt(v) = 0 THEN <<0, 0>>
                ELSE LET x == TLCEval(Expand2(sc, m, grps, w, TLCEval([i \in DOMAIN w |-> QLetter(sc, m, sc.ops[w[i]], v)]), 0, [q \in Q |-> 0]))
                     IN <<wt(v) * x[1], wt(v) * x[2]>>
      tot == FoldLeft(LAMBDA a, v : LET x == one(v) IN <<a[1] + x[1], a[2] + x[2]>>, <<0, 0>>, SetToSeq(A))
      den == IPow(m.D, Cardinality(U)) * IPow(2, Len(w))
  IN <<Norm(<<tot[1], den>>), Norm(<<tot[2], den>>)>>

(* ------------------------------- either -------------------------------- *)
(* complex numbers as pairs of rationals *)
Expect(sc, m, grps, w) == IF m.kind = "classical" THEN <<ClassicalE(sc, m, w), RZero>> ELSE StabExp(sc, m, grps, w)
CMul(a, b) == <<RSub(RMul(a[1], b[1]), RMul(a[2], b[2])), RAdd(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
RECURSIVE CProd(_)
CProd(s) == IF s = <<>> THEN <<ROne, RZero>> ELSE CMul(s[1], CProd(Tail(s)))
(* a moment given by its factors; moments stand for real parts *)
ExpectM(sc, m, grps, atoms) == CProd([i \in DOMAIN atoms |-> Expect(sc, m, grps, atoms[i])])[1]
=============================================================================
