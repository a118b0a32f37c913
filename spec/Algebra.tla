------------------------------- MODULE Algebra -------------------------------
(***************************************************************************)
(* Operators, products and their equality.                                 *)
(* A word is a sequence of operator numbers (positions in sc.ops).         *)
(***************************************************************************)
EXTENDS Scenario

(* The commutation rule on two operator rows.                              *)
Commute(sc, a, b) ==
  LET k == sc.kind[Pty(a)][Pty(b)]
      Q == {s \in 1..sc.S : k[s] = 2}
      A == {s \in 1..sc.S : k[s] > 0}
  IN \/ Q = {}
     \/ \A s \in Q : Cpy(a, s) # Cpy(b, s)
     \/ /\ \A s \in A : Cpy(a, s) = Cpy(b, s)
        /\ Pty(a) # Pty(b) \/ Setg(a) = Setg(b)

SameMeasurement(a, b) == SubSeq(a, 1, Len(a) - 1) = SubSeq(b, 1, Len(b) - 1)
Orthogonal(a, b) == SameMeasurement(a, b) /\ Outc(a) # Outc(b)
Overlap(sc, a, b) == \E s \in 1..sc.S : Cpy(a, s) > 0 /\ Cpy(a, s) = Cpy(b, s)

(* ctx: everything about one scenario that judging needs, computed once.   *)
NotComm(sc) == TLCEval([i \in 1..Len(sc.ops) |-> [j \in 1..Len(sc.ops) |-> ~Commute(sc, sc.ops[i], sc.ops[j])]])
Ortho(sc) == TLCEval([i \in 1..Len(sc.ops) |-> [j \in 1..Len(sc.ops) |-> Orthogonal(sc.ops[i], sc.ops[j])]])
Overl(sc) == TLCEval([i \in 1..Len(sc.ops) |-> [j \in 1..Len(sc.ops) |-> Overlap(sc, sc.ops[i], sc.ops[j])]])

Algebra(sc) == [nc |-> NotComm(sc), orth |-> Ortho(sc), ov |-> Overl(sc)]

(* Lexicographically least word equal to w under commutations: repeatedly  *)
(* pull to the front the least letter that commutes with all before it.    *)
RECURSIVE LexNF(_, _)
LexNF(nc, w) ==
  IF Len(w) <= 1 THEN w
  ELSE LET mov == {i \in 1..Len(w) : \A j \in 1..(i - 1) : ~nc[w[j]][w[i]]}
           m == CHOOSE i \in mov : \A k \in mov : w[i] < w[k] \/ (w[i] = w[k] /\ i <= k)
       IN <<w[m]>> \o LexNF(nc, SubSeq(w, 1, m - 1) \o SubSeq(w, m + 1, Len(w)))

RECURSIVE DropRepeats(_)
DropRepeats(w) == IF Len(w) <= 1 THEN w
                  ELSE IF w[1] = w[2] THEN DropRepeats(Tail(w))
                  ELSE <<w[1]>> \o DropRepeats(Tail(w))

ZERO == <<0>>
HasOrth(orth, w) == \E i \in 1..(Len(w) - 1) : orth[w[i]][w[i + 1]]
CanonCom(al, w) == LexNF(al.nc, w)
Canon(al, w) == IF w = ZERO THEN ZERO
                ELSE LET n == LexNF(al.nc, w)
                     IN IF HasOrth(al.orth, n) THEN ZERO ELSE DropRepeats(n)

(* Order on words: by length, then lexicographically.                      *)
WLt(u, v) == \/ Len(u) < Len(v)
             \/ Len(u) = Len(v) /\ \E i \in 1..Len(u) : u[i] < v[i] /\ \A j \in 1..(i - 1) : u[j] = v[j]
WMin(S) == CHOOSE u \in S : \A v \in S : u = v \/ WLt(u, v)

AllCommute(al, w) == \A i, j \in 1..Len(w) : ~al.nc[w[i]][w[j]]
Rev(w) == Reverse(w)

(* Connected components of a word under shared source copies: sequence of  *)
(* subwords, in the order of first letters.                                *)
RECURSIVE Grow(_, _, _)
Grow(ov, w, C) == LET D == C \cup {i \in 1..Len(w) : \E j \in C : ov[w[i]][w[j]]}
                  IN IF D = C THEN C ELSE Grow(ov, w, D)
PickIdx(w, C) == LET s == SetToSortSeq(C, <) IN [k \in 1..Len(s) |-> w[s[k]]]
RECURSIVE CompsFrom(_, _, _)
CompsFrom(ov, w, left) ==
  IF left = {} THEN <<>>
  ELSE LET i == CHOOSE x \in left : \A y \in left : x <= y
           C == Grow(ov, w, {i})
       IN <<PickIdx(w, C)>> \o CompsFrom(ov, w, left \ C)
Factors(al, w) == CompsFrom(al.ov, w, 1..Len(w))
=============================================================================
