------------------------------- MODULE T_C19 -------------------------------
(* C19: the file written for a linear relaxation, read by the format's rules, is the program handed to the solver. *)
EXTENDS Harness, LinProg
PrepareC19(bl) == <<>>
StartC19(bl, c) == <<>>
Bad(cond, name) == IF cond THEN {} ELSE {name}

(* the reader's variables are listed in its own order: variable j of the file is variable pos[j] of the program *)
Renamed(t) == LET m(row) == [k \in DOMAIN row |-> <<t.pos[row[k][1]], row[k][2]>>]
                  c == LinOf([j \in 1..t.numvar |-> <<t.pos[j], t.c[j]>>])
                  s == IF t.sense = "max" THEN ROne ELSE <<-1, 1>>
              IN [H |-> UNION {FromBound(LinOf(m(t.rows[i])), t.con[i]) : i \in 1..t.numcon}
                        \cup UNION {FromBound(Unit(t.pos[j]), t.var[j]) : j \in 1..t.numvar},
                  f |-> LTimes(s, c), k |-> RMul(s, t.cfix)]

(* A file may leave fixed variables out, having put in their values, and need not mention variables in no constraint. *)
StepC19(c, st, ev) ==
  [st |-> st, bad |->
   IF ev.exc # "" THEN {"raised"}
   ELSE
    LET S == TLCEval(Stated(ev))
        F == TLCEval(Renamed(ev.task))
        here == {ev.task.pos[k] : k \in DOMAIN ev.task.pos}
        kn == Pairs(ev.known)
        free == {i \in (1..ev.n) \ (here \cup DOMAIN kn) : \A h \in S.H : i \in DOMAIN h[1] => h = Half(Unit(i), RZero)}
        SH == {h \in S.H : \A i \in DOMAIN h[1] : i \notin free}
        FH == F.H \cup UNION {Eq(Unit(i), kn[i]) : i \in DOMAIN kn \ here}
        NS == TLCEval(Solved(SH))
        NF == TLCEval(Solved(FH))
    IN Bad(NF \subseteq NS, "extra_constraint") \cup Bad(NS \subseteq NF, "missing_constraint")
       \cup (IF NS = {Never} THEN {} ELSE Bad(NormalObj(NF, F.f, F.k) = NormalObj(NS, S.f, S.k), "objective"))]
=============================================================================
