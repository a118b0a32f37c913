-------------------------------- MODULE Rat --------------------------------
(* Exact rationals <<numerator, denominator>> with positive denominator.   *)
(* <<0, 0>> marks a recorded number 32-bit rationals cannot hold.          *)
EXTENDS Integers, Sequences
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RAbsI(x) == IF x < 0 THEN -x ELSE x
Norm(r) == IF r[2] = 0 THEN r
           ELSE IF r[1] = 0 THEN <<0, 1>>
           ELSE LET g == Gcd(RAbsI(r[1]), RAbsI(r[2])) s == IF r[2] < 0 THEN -1 ELSE 1
                IN <<s * (r[1] \div g), s * (r[2] \div g)>>
R(n) == <<n, 1>>
RZero == <<0, 1>>
ROne == <<1, 1>>
RNeg(a) == <<-a[1], a[2]>>
RAdd(a, b) == IF a[2] = 0 \/ b[2] = 0 THEN <<0, 0>>
              ELSE IF a[2] = b[2] THEN Norm(<<a[1] + b[1], a[2]>>)
              ELSE LET g == Gcd(a[2], b[2])
                   IN Norm(<<a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2]>>)
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == IF a[2] = 0 \/ b[2] = 0 THEN <<0, 0>>
              ELSE IF a[1] = 0 \/ b[1] = 0 THEN <<0, 1>>
              ELSE LET g == Gcd(RAbsI(a[1]), b[2]) h == Gcd(RAbsI(b[1]), a[2])
                   IN Norm(<<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>)
RInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
RLt(a, b) == LET d == RSub(a, b) IN d[1] < 0
RLe(a, b) == LET d == RSub(a, b) IN d[1] <= 0
RAbs(a) == <<RAbsI(a[1]), a[2]>>
RIsNum(a) == a[2] > 0
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(a, b) THEN a ELSE b
RECURSIVE RSumSeq(_)
RSumSeq(s) == IF s = <<>> THEN RZero ELSE RAdd(s[1], RSumSeq(Tail(s)))
RECURSIVE RProdSeq(_)
RProdSeq(s) == IF s = <<>> THEN ROne ELSE RMul(s[1], RProdSeq(Tail(s)))
=============================================================================
