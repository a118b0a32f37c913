------------------------------ MODULE Program ------------------------------
(***************************************************************************)
(* The state machine of a relaxation object: the program it stands for and *)
(* the solution it reports, as a function of the calls made on it.         *)
(*                                                                         *)
(* c (constant over a history): mode "sdp"/"lp", supports, one, zero (0 if *)
(* the zero moment does not occur), M: the moments, each with              *)
(*   f       sequence of factor numbers (<<>> for the identity and zero)   *)
(*   inrel   belongs to the relaxation                                     *)
(*   nonneg  bounded below by zero by default                              *)
(* State st:                                                               *)
(*   known   fixed moments -> value      semi  linearised moments ->       *)
(*   lo, up  bounds in force                    <<value, free positions>>  *)
(*   supp    moments known to be positive (supports problems)              *)
(*   obj, max   objective as given      eqs, iqs   extra constraints       *)
(*   sol     <<>> or the result of the last solve of this program          *)
(*   dead    a call was refused: what follows is not specified             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Rat

Fn(pairs) == [i \in {pairs[k][1] : k \in DOMAIN pairs} |-> pairs[CHOOSE k \in DOMAIN pairs : pairs[k][1] = i /\
                 \A l \in DOMAIN pairs : pairs[l][1] = i => l <= k][2]]
Put(f, g) == [i \in DOMAIN f \cup DOMAIN g |-> IF i \in DOMAIN g THEN g[i] ELSE f[i]]
Drop(f, S) == [i \in DOMAIN f \ S |-> f[i]]
Only(f, S) == [i \in DOMAIN f \cap S |-> f[i]]
Empty == [i \in {} |-> RZero]

InRel(c) == {i \in DOMAIN c.M : c.M[i].inrel}
Constants(c) == Put([i \in {c.one} |-> ROne], IF c.zero = 0 THEN Empty ELSE [i \in {c.zero} |-> RZero])
DefaultLo(c) == IF c.mode = "sdp" THEN [i \in {j \in DOMAIN c.M : c.M[j].nonneg} |-> RZero] ELSE Empty

Contradicts(known, lo, up) ==
  \E i \in DOMAIN known : \/ i \in DOMAIN lo /\ ~RLe(lo[i], known[i])
                          \/ i \in DOMAIN up /\ ~RLe(known[i], up[i])
(* in the semidefinite relaxation a fixed value retires the bounds of the moment, or contradicts them *)
Reconcile(c, st) ==
  IF c.mode = "lp" THEN st
  ELSE IF Contradicts(st.known, st.lo, st.up) THEN [st EXCEPT !.dead = TRUE]
  ELSE [st EXCEPT !.lo = Drop(st.lo, DOMAIN st.known), !.up = Drop(st.up, DOMAIN st.known)]

(* after values changed *)
Cleanup(c, st) ==
  LET pos == {i \in DOMAIN st.known : st.known[i][1] # 0}
      st1 == IF ~c.supports THEN st
             ELSE [st EXCEPT !.known = Drop(st.known, pos), !.supp = st.supp \cup pos, !.semi = Empty,
                             !.lo = Put(st.lo, [i \in pos |-> ROne])]
      st2 == Reconcile(c, st1)
  IN [st2 EXCEPT !.semi = Drop(st2.semi, DOMAIN st2.known)]

Forget(st) == [st EXCEPT !.sol = <<>>]

ResetValues(c, st) ==
  LET d == DefaultLo(c)
      lo == [i \in (DOMAIN st.lo \ st.supp) \cup (st.supp \cap DOMAIN d) |-> IF i \in st.supp THEN d[i] ELSE st.lo[i]]
  IN Forget([st EXCEPT !.known = Constants(c), !.semi = Empty, !.eqs = <<>>, !.iqs = <<>>, !.supp = {}, !.lo = lo])
ResetLo(c, st) == Reconcile(c, Forget([st EXCEPT !.lo = Put(DefaultLo(c), [i \in st.supp |-> ROne])]))
ResetUp(c, st) == Forget([st EXCEPT !.up = Empty])
ResetObj(c, st) == Forget([st EXCEPT !.obj = Empty, !.max = TRUE])

(* products of factors whose values are known *)
Propagate(c, known, semi, lpi) ==
  LET src == {i \in DOMAIN known : Len(c.M[i].f) = 1}
      val(a) == LET i == CHOOSE j \in src : c.M[j].f[1] = a IN known[i]
      av == {c.M[i].f[1] : i \in src}
      kpos(i) == {p \in DOMAIN c.M[i].f : c.M[i].f[p] \in av}
      prod(i) == RProdSeq([p \in DOMAIN c.M[i].f |-> IF c.M[i].f[p] \in av THEN val(c.M[i].f[p]) ELSE ROne])
      multi == {i \in InRel(c) : Len(c.M[i].f) > 1}
      full == {i \in multi : kpos(i) = DOMAIN c.M[i].f}
      part == IF ~lpi THEN {} ELSE {i \in multi : kpos(i) # {} /\ i \notin full}
      vanish == {i \in part : prod(i)[1] = 0}
  IN [known |-> Put(Only(known, InRel(c)), [i \in full \cup vanish |-> prod(i)]),
      semi |-> [i \in DOMAIN semi \cup (part \ vanish) |->
                   IF i \in part \ vanish THEN <<prod(i), DOMAIN c.M[i].f \ kpos(i)>> ELSE semi[i]]]

(* vals: sequence of <<moment, value>>, value <<0,0>> standing for an undefined number *)
Assign(c, st, vals, lpi, only) ==
  LET st0 == Forget(st)
      k1 == Put(st0.known, Fn(SelectSeq(vals, LAMBDA p : RIsNum(p[2]))))
      s1 == IF lpi THEN st0.semi ELSE Empty
      q == IF only THEN [known |-> k1, semi |-> s1] ELSE Propagate(c, k1, s1, lpi)
  IN Cleanup(c, [st0 EXCEPT !.known = q.known, !.semi = q.semi])
UpdateValues(c, st, vals, lpi, only) == IF vals = <<>> THEN st ELSE Assign(c, st, vals, lpi, only)
SetValues(c, st, vals, lpi, only) ==
  IF vals = <<>> THEN Cleanup(c, ResetValues(c, st)) ELSE Assign(c, ResetValues(c, st), vals, lpi, only)

(* bounds given twice for one moment have to agree *)
Clash(vals) == \E k, l \in DOMAIN vals : vals[k][1] = vals[l][1] /\ vals[k][2] # vals[l][2]
SetBounds(c, st, vals, typ, none) ==
  IF none /\ c.mode = "sdp" THEN st
  ELSE IF Clash(vals) THEN [st EXCEPT !.dead = TRUE]
  ELSE IF typ = "up" THEN LET s1 == [ResetUp(c, st) EXCEPT !.up = Fn(vals)] IN [Reconcile(c, s1) EXCEPT !.lo = s1.lo]
  ELSE LET s1 == Forget([st EXCEPT !.lo = Put(DefaultLo(c), [i \in st.supp |-> ROne])])
       IN IF c.mode = "sdp" /\ Contradicts(st.known, s1.lo, Empty) THEN [st EXCEPT !.dead = TRUE]
          ELSE Reconcile(c, [s1 EXCEPT !.lo = Put(Reconcile(c, s1).lo, Fn(vals))])

(* linear functions: moment -> coefficient, the identity carrying the constant *)
Lin(vals) == LET keys == {vals[k][1] : k \in DOMAIN vals}
                 tot(i) == RSumSeq([k \in DOMAIN vals |-> IF vals[k][1] = i THEN vals[k][2] ELSE RZero])
             IN [i \in {j \in keys : tot(j)[1] # 0} |-> tot(i)]
LAdd(f, g) == LET keys == DOMAIN f \cup DOMAIN g
                  tot(i) == RAdd(IF i \in DOMAIN f THEN f[i] ELSE RZero, IF i \in DOMAIN g THEN g[i] ELSE RZero)
              IN [i \in {j \in keys : tot(j)[1] # 0} |-> tot(i)]
LScale(r, f) == IF r[1] = 0 THEN Empty ELSE [i \in DOMAIN f |-> RMul(r, f[i])]

SetObjective(c, st, vals, dir, none) ==
  IF c.supports /\ ~none THEN [st EXCEPT !.dead = TRUE]
  ELSE [Forget(st) EXCEPT !.obj = IF none THEN Empty ELSE Lin(vals), !.max = (dir = "max")]
SetExtra(st, which, rows) ==
  IF which = "eq" THEN [Forget(st) EXCEPT !.eqs = [k \in DOMAIN rows |-> Lin(rows[k])]]
  ELSE [Forget(st) EXCEPT !.iqs = [k \in DOMAIN rows |-> Lin(rows[k])]]

ResetOne(c, st, w) ==
  CASE w = "values" -> ResetValues(c, st)
    [] w = "lowerbounds" -> ResetLo(c, st)
    [] w = "upperbounds" -> ResetUp(c, st)
    [] w = "bounds" -> ResetUp(c, ResetLo(c, st))
    [] w = "objective" -> ResetObj(c, st)
RECURSIVE ResetAll(_, _, _)
ResetAll(c, st, ws) == IF ws = <<>> \/ st.dead THEN st ELSE ResetAll(c, ResetOne(c, st, ws[1]), Tail(ws))

Initial(c) == SetValues(c, [known |-> Empty, semi |-> Empty, lo |-> DefaultLo(c), up |-> Empty, supp |-> {}, obj |-> Empty,
                            max |-> TRUE, eqs |-> <<>>, iqs |-> <<>>, sol |-> <<>>, dead |-> FALSE], <<>>, FALSE, FALSE)

(* the objective after fixed and linearised moments are replaced; Target: number of the moment made of the
   factors of moment i at positions pos *)
Substitute(c, st, f, Target(_, _)) ==
  FoldSet(LAMBDA i, acc :
     LAdd(acc, IF i \in DOMAIN st.known THEN LScale(RMul(f[i], st.known[i]), [j \in {c.one} |-> ROne])
               ELSE IF i \in DOMAIN st.semi
                    THEN LET t == Target(i, st.semi[i][2]) k == RMul(f[i], st.semi[i][1])
                         IN IF t \in DOMAIN st.known THEN LScale(RMul(k, st.known[t]), [j \in {c.one} |-> ROne])
                            ELSE LScale(k, [j \in {t} |-> ROne])
               ELSE [j \in {i} |-> f[i]]), Empty, DOMAIN f)
Signed(st) == IF st.max THEN st.obj ELSE LScale(<<-1, 1>>, st.obj)

Solvable(c, st) == DOMAIN st.known \subseteq InRel(c)
Solve(c, st, result) == IF ~Solvable(c, st) THEN [st EXCEPT !.dead = TRUE] ELSE [st EXCEPT !.sol = result]
=============================================================================
