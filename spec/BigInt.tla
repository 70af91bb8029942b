------------------------------- MODULE BigInt -------------------------------
(***************************************************************************)
(* Integers of arbitrary size; TLC's integers have 32 bit.                 *)
(*                                                                         *)
(* A number is [neg, m] where m is the sequence of digits of its absolute  *)
(* value to base 10000, least significant first and without leading zeros. *)
(***************************************************************************)
EXTENDS Integers, Sequences

Base == 10000

MaxInt == 2147483647
MinInt == -2147483647 - 1

RECURSIVE Trim(_)
Trim(m) == IF m # <<>> /\ m[Len(m)] = 0 THEN Trim(SubSeq(m, 1, Len(m) - 1)) ELSE m

Digit(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

Longer(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)

(* comparison from the most significant digit i downwards                  *)
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) ==
    IF i = 0 THEN FALSE
    ELSE Digit(a, i) < Digit(b, i) \/ (Digit(a, i) = Digit(b, i) /\ LessFrom(a, b, i - 1))

MagLess(a, b) == LessFrom(a, b, Longer(a, b))

RECURSIVE MagAddFrom(_, _, _, _)
MagAddFrom(a, b, i, c) ==
    IF i > Longer(a, b) THEN (IF c = 0 THEN <<>> ELSE << c >>)
    ELSE LET s == Digit(a, i) + Digit(b, i) + c
         IN  << s % Base >> \o MagAddFrom(a, b, i + 1, s \div Base)

MagAdd(a, b) == Trim(MagAddFrom(a, b, 1, 0))

(* a - b for b <= a *)
RECURSIVE MagSubFrom(_, _, _, _)
MagSubFrom(a, b, i, c) ==
    IF i > Longer(a, b) THEN <<>>
    ELSE LET s == Digit(a, i) - Digit(b, i) - c
         IN  << s % Base >> \o MagSubFrom(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)

MagSub(a, b) == Trim(MagSubFrom(a, b, 1, 0))

RECURSIVE MagScale(_, _, _, _)
MagScale(a, x, i, c) ==
    IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE << c >>)
    ELSE LET s == a[i] * x + c
         IN  << s % Base >> \o MagScale(a, x, i + 1, s \div Base)

RECURSIVE MagMul(_, _)
MagMul(a, b) ==
    IF b = <<>> THEN <<>>
    ELSE MagAdd(Trim(MagScale(a, b[1], 1, 0)),
                LET r == MagMul(a, Tail(b)) IN IF r = <<>> THEN <<>> ELSE << 0 >> \o r)

-----------------------------------------------------------------------------
Mk(neg, m) == [ neg |-> neg /\ m # <<>>, m |-> m ]

Zero == Mk(FALSE, <<>>)

BNeg(a) == Mk(~a.neg, a.m)
BAbs(a) == Mk(FALSE, a.m)

BAdd(a, b) ==
    IF a.neg = b.neg THEN Mk(a.neg, MagAdd(a.m, b.m))
    ELSE IF MagLess(a.m, b.m) THEN Mk(b.neg, MagSub(b.m, a.m))
    ELSE Mk(a.neg, MagSub(a.m, b.m))

BSub(a, b) == BAdd(a, BNeg(b))

BMul(a, b) == Mk(a.neg # b.neg, MagMul(a.m, b.m))

BLess(a, b) ==
    IF a.neg # b.neg THEN a.neg
    ELSE IF a.neg THEN MagLess(b.m, a.m) ELSE MagLess(a.m, b.m)

BLeq(a, b) == ~BLess(b, a)

RECURSIVE NatDigits(_)
NatDigits(n) == IF n = 0 THEN <<>> ELSE << n % Base >> \o NatDigits(n \div Base)

(* from and to TLC's integers *)
Big(n) == IF n >= 0 THEN Mk(FALSE, NatDigits(n))
          ELSE BSub(Mk(TRUE, NatDigits(-(n + 1))), Mk(FALSE, << 1 >>))

Fits(a) == BLeq(Big(MinInt), a) /\ BLeq(a, Big(MaxInt))

RECURSIVE MagInt(_, _)
MagInt(m, i) == IF i > Len(m) THEN 0 ELSE m[i] + Base * MagInt(m, i + 1)

Int32(a) ==
    IF a = Big(MinInt) THEN MinInt
    ELSE IF a.neg THEN -MagInt(a.m, 1) ELSE MagInt(a.m, 1)

(* division rounding towards zero; a and b fit and b is not zero *)
TruncDiv(a, b) ==
    LET x == Int32(a)
        y == Int32(b)
    IN  IF x = MinInt /\ y = -1 THEN BNeg(a)
        ELSE IF x = MinInt
             THEN (IF y = MinInt THEN Big(1)
                   ELSE \* |x| = MaxInt + 1
                        LET n == IF y < 0 THEN -y ELSE y
                            q == MaxInt \div n
                            r == MaxInt % n
                            m == IF r + 1 = n THEN BAdd(Big(q), Big(1)) ELSE Big(q)
                        IN  IF y < 0 THEN m ELSE BNeg(m))
        ELSE IF y = MinInt THEN Zero
        ELSE LET p == IF x < 0 THEN -x ELSE x
                 n == IF y < 0 THEN -y ELSE y
             IN  IF (x < 0) = (y < 0) THEN Big(p \div n) ELSE BNeg(Big(p \div n))
=============================================================================
