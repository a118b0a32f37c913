-------------------------------- MODULE T_C09 --------------------------------
(***************************************************************************)
(* C09: normalisation equalities of the semidefinite relaxation.           *)
(***************************************************************************)
EXTENDS T_ALG

PrepareC09(bl) == LET c == PrepareALG(bl) IN
  [okops |-> c.okops, sc |-> c.sc, al |-> c.al, perms |-> c.perms,
   keep |-> [p \in 1..c.sc.P |-> bl.full \/ c.sc.haschild[p]],
   imposed |-> bl.supports \/ ~c.sc.network]
StartC09(bl, c) == <<>>

RemoveAt9(w, i) == SubSeq(w, 1, i - 1) \o SubSeq(w, i + 1, Len(w))
Sub9(w, i, x) == [w EXCEPT ![i] = x]
Outcomes(c, x) == {y \in DOMAIN c.sc.ops : SameMeasurement(c.sc.ops[x], c.sc.ops[y])}

(* identities between columns: <<column without the measurement, set of columns with each outcome>> *)
ColIds(c, cols) ==
  LET C == Rng(cols) IN
  UNION {LET v == cols[k] IN
     {<<Canon(c.al, RemoveAt9(v, i)), {Canon(c.al, Sub9(v, i, x)) : x \in Outcomes(c, v[i])}>> :
        i \in {j \in DOMAIN v : /\ Outc(c.sc.ops[v[j]]) = c.sc.outs[Pty(c.sc.ops[v[j]])] - 1
                                /\ c.keep[Pty(c.sc.ops[v[j]])]
                                /\ Canon(c.al, RemoveAt9(v, j)) \in C
                                /\ \A x \in Outcomes(c, v[j]) : Canon(c.al, Sub9(v, j, x)) \in C}}
     : k \in DOMAIN cols}
(* what such an identity says in row u: zero terms vanish, trivial identities are dropped *)
RowId(c, u, id) ==
  LET K(v) == MomentKey(c.al, c.perms, Rev(u) \o v)
      n == K(id[1])
      T == TLCEval({<<v, K(v)>> : v \in id[2]})
      keys == {t[2] : t \in T} \ {<< ZERO >>}
      cnt(k) == Cardinality({t \in T : t[2] = k})
      coef(k) == (IF k = n THEN 1 ELSE 0) - cnt(k)
  IN {<<k, coef(k)>> : k \in {q \in keys \cup (IF n = << ZERO >> THEN {} ELSE {n}) : coef(q) # 0}}

NegEq(r) == {<<p[1], 0 - p[2]>> : p \in r}

StepNorm(c, ev) ==
  LET ids == TLCEval(ColIds(c, ev.cols))
      want == TLCEval(IF c.imposed THEN {RowId(c, ev.cols[u], id) : u \in DOMAIN ev.cols, id \in ids} \ {{}} ELSE {})
      got == TLCEval({LET r == ev.eqs[i] IN {<<LabelKey(c, r[j].m), r[j].c>> : j \in {k \in DOMAIN r : ~r[k].m.zero}} : i \in DOMAIN ev.eqs})
  IN Bad(\A r \in got : r \in want \/ NegEq(r) \in want \/ r = {}, "extra_normalisation")
     \cup Bad(\A r \in want : r \in got \/ NegEq(r) \in got, "missing_normalisation")
     \cup Bad(\A i \in DOMAIN ev.eqs : Cardinality({LabelKey(c, ev.eqs[i][j].m) : j \in DOMAIN ev.eqs[i]}) = Len(ev.eqs[i]), "repeated_term")

StepC09(c, s, ev) ==
  [st |-> s,
   bad |-> Bad(c.okops, "operator_table") \cup
     CASE ev.k = "norm" -> IF ev.exc # "" THEN {"raised"} ELSE StepNorm(c, ev)
       [] OTHER -> {"unexpected_" \o ev.k}]
=============================================================================
