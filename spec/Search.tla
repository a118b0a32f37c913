------------------------------- MODULE Search -------------------------------
(***************************************************************************)
(* What answers about a threshold family justify as its critical value.    *)
(* Positions are integers; Unit is the number of them within the           *)
(* precision.  An answer at p says whether p is feasible and carries a     *)
(* cut: no position above the cut is feasible.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
SMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SMax(S) == CHOOSE x \in S : \A y \in S : x >= y
(* the threshold of a family given by the roots of its pieces *)
Threshold(roots) == SMin({roots[k] : k \in DOMAIN roots})
(* a bisection ends between a feasible and an infeasible answer that are close (an answer of nearly zero is both) *)
BracketJustified(r, answers, prec, tol) ==
  /\ \E a \in answers : a.feas /\ a.p >= r - prec - tol /\ a.p <= r + prec + tol
  /\ \E a \in answers : a.infeas /\ a.p <= r + prec + tol
(* a search along cuts ends where the cut made within the precision above it does not come below it *)
CutJustified(r, answers, prec, tol) ==
  /\ \E a \in answers : a.infeas /\ a.p <= r + prec + tol /\ a.p >= r - tol
  /\ \A a \in answers : ~a.infeas \/ a.cut >= r - 2 * prec - tol
(* no answer contradicts a threshold *)
Consistent(answers, t, tol) == \A a \in answers : (a.feas /\ a.p <= t + tol) \/ (a.infeas /\ a.p >= t - tol)
=============================================================================
