------------------------------ MODULE Symmetry ------------------------------
(***************************************************************************)
(* Copies of one source are interchangeable: the group of relabellings of  *)
(* copies acts on operators, words, moments.  Keys of moments: two words   *)
(* have the same expectation for every model's copy-symmetric state iff    *)
(* the library may (and has to) use one variable for them.                 *)
(***************************************************************************)
EXTENDS Algebra

PermsOf(n) == LET S == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]} IN SetToSeq(S)

(* All tuples of permutations, one per source, as functions on operator numbers. *)
ApplyRow(sc, pi, o) == <<Pty(o)>> \o [s \in 1..sc.S |-> IF Cpy(o, s) = 0 THEN 0 ELSE pi[s][Cpy(o, s)]]
                       \o <<Setg(o), Outc(o)>>
OpIndex(sc) == TLCEval([o \in Rng(sc.ops) |-> CHOOSE i \in DOMAIN sc.ops : sc.ops[i] = o])

RECURSIVE PermTuples(_, _)
PermTuples(lv, k) == IF k > Len(lv) THEN << <<>> >>
                     ELSE LET ps == PermsOf(lv[k]) rest == PermTuples(lv, k + 1)
                          IN TLCEval([z \in 1..(Len(ps) * Len(rest)) |->
                               <<ps[((z - 1) \div Len(rest)) + 1]>> \o rest[((z - 1) % Len(rest)) + 1]])
Perms(sc) == LET ix == OpIndex(sc) pt == TLCEval(PermTuples(sc.lv, 1))
             IN TLCEval([k \in DOMAIN pt |-> [i \in DOMAIN sc.ops |-> ix[ApplyRow(sc, pt[k], sc.ops[i])]]])

MapW(p, w) == [i \in DOMAIN w |-> p[w[i]]]
Orbit(al, perms, w) == {LexNF(al.nc, MapW(perms[k], w)) : k \in DOMAIN perms}
Rep(al, perms, w) == IF w = ZERO \/ w = <<>> THEN w ELSE WMin(Orbit(al, perms, w))

(* sorted sequence of words *)
RECURSIVE InsertW(_, _)
InsertW(w, s) == IF s = <<>> THEN <<w>> ELSE IF WLt(w, s[1]) THEN <<w>> \o s ELSE <<s[1]>> \o InsertW(w, Tail(s))
RECURSIVE SortW(_)
SortW(s) == IF s = <<>> THEN <<>> ELSE InsertW(s[1], SortW(Tail(s)))

SeqLt(a, b) == \/ Len(a) < Len(b)
               \/ Len(a) = Len(b) /\ \E i \in 1..Len(a) : WLt(a[i], b[i]) /\ \A j \in 1..(i - 1) : a[j] = b[j]

(* Key of a moment: sorted factors, each up to relabelling, jointly with the conjugate. w canonical. *)
AtomsOf(al, perms, w) == LET f == Factors(al, w) IN SortW([i \in DOMAIN f |-> Rep(al, perms, f[i])])
MomentKey(al, perms, w0) ==
  LET w == Canon(al, w0) IN
  IF w = ZERO THEN << ZERO >>
  ELSE IF AllCommute(al, w) THEN AtomsOf(al, perms, w)
  ELSE LET k1 == AtomsOf(al, perms, w) k2 == AtomsOf(al, perms, LexNF(al.nc, Rev(w)))
       IN IF SeqLt(k2, k1) THEN k2 ELSE k1

(* A factor is positive in every model when it equals its own reversal as an operator. *)
SelfAdjoint(al, w) == LexNF(al.nc, Rev(w)) = LexNF(al.nc, w)

FullCtx(inp) ==
  LET sc == Derive(inp) al == Algebra(sc)
  IN [inp |-> inp, sc |-> sc, al |-> al, perms |-> Perms(sc), ix |-> OpIndex(sc)]
=============================================================================
