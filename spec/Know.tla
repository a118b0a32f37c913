-------------------------------- MODULE Know --------------------------------
(***************************************************************************)
(* Which factors the data of the original scenario determine, and to what. *)
(***************************************************************************)
EXTENDS Symmetry, Rat

Rows(sc, w) == [i \in DOMAIN w |-> sc.ops[w[i]]]
(* outcome of party q among the rows (the factor contains q exactly once)  *)
OutOf(rows, q) == Outc(rows[CHOOSE i \in DOMAIN rows : Pty(rows[i]) = q])
InPlay(rows, q) == \E i \in DOMAIN rows : Pty(rows[i]) = q

KnowableAtom(sc, w) ==
  LET rows == Rows(sc, w) IN
  /\ \A i, j \in DOMAIN rows : i # j => Pty(rows[i]) # Pty(rows[j])
  /\ \A i, j \in DOMAIN rows : \A s \in 1..sc.S :
        Cpy(rows[i], s) > 0 /\ Cpy(rows[j], s) > 0 => Cpy(rows[i], s) = Cpy(rows[j], s)
  /\ \A i \in DOMAIN rows :
        LET p == Pty(rows[i]) e == sc.eff[p][Setg(rows[i]) + 1] IN
        \A k \in DOMAIN sc.par[p] : InPlay(rows, sc.par[p][k]) /\ OutOf(rows, sc.par[p][k]) = e[k + 1]

(* The distribution: flat, row-major over outs x private settings, integers over a common denominator. *)
DistIdx(sc, idx) == LET dims == sc.outs \o sc.priv
                    IN FoldLeft(LAMBDA acc, k : acc * dims[k] + idx[k], 0, [k \in DOMAIN dims |-> k]) + 1
MarginalNum(sc, dist, w) ==
  LET rows == Rows(sc, w)
      setg == [p \in 1..sc.P |-> IF InPlay(rows, p)
                 THEN sc.eff[p][Setg(rows[CHOOSE i \in DOMAIN rows : Pty(rows[i]) = p]) + 1][1] ELSE 0]
      all == NdIndex(sc.outs)
      ok(o) == \A i \in DOMAIN rows : o[Pty(rows[i])] = Outc(rows[i])
  IN FoldLeft(LAMBDA acc, o : IF ok(o) THEN acc + dist[DistIdx(sc, o \o setg)] ELSE acc, 0, all)
Marginal(sc, dist, den, w) == Norm(<<MarginalNum(sc, dist, w), den>>)

(* What a moment (a multiset of factors) becomes when values of some factors are known.    *)
(* val: function from factor key (representative word) to rational.                          *)
=============================================================================
