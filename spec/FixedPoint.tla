----------------------------- MODULE FixedPoint -----------------------------
(* Real arithmetic in fixed point: the integer n stands for n / 1000000.      *)
EXTENDS Integers, Sequences
E6 == 1000000
FAbs(x) == IF x < 0 THEN -x ELSE x
FSgn(x) == IF x < 0 THEN -1 ELSE 1
FMax(a, b) == IF a > b THEN a ELSE b
FMin(a, b) == IF a < b THEN a ELSE b
MulP(a, b) == LET ah == a \div 1000
                  al == a % 1000
                  bh == b \div 1000
                  bl == b % 1000
              IN (ah * bh) + ((ah * bl + al * bh + ((al * bl) \div 1000) + 500) \div 1000)
FMul(a, b) == (FSgn(a) * FSgn(b)) * MulP(FAbs(a), FAbs(b))
RECURSIVE DivDigits(_, _, _, _)
DivDigits(q, r, b, k) == IF k = 0 THEN (IF 2 * r >= b THEN q + 1 ELSE q)
                         ELSE DivDigits((10 * q) + ((10 * r) \div b), (10 * r) % b, b, k - 1)
FDiv(a, b) == (FSgn(a) * FSgn(b)) * DivDigits(FAbs(a) \div FAbs(b), FAbs(a) % FAbs(b), FAbs(b), 6)
RECURSIVE SqrtIt(_, _, _)
SqrtIt(x, s, k) == IF k = 0 THEN s
                   ELSE LET n == (s + FDiv(x, s)) \div 2
                        IN IF FAbs(n - s) <= 1 THEN FMax(n, 1) ELSE SqrtIt(x, FMax(n, 1), k - 1)
RECURSIVE FSqrt(_)
FSqrt(x) == IF x <= 0 THEN 0 ELSE IF x > 400000000 THEN 10 * FSqrt(x \div 100) ELSE SqrtIt(x, FMax((x + E6) \div 2, 1000), 30)
(* length of (a, b) without losing the small ones *)
Hyp(a, b) == LET m == FMax(FAbs(a), FAbs(b))
                 n == FMin(FAbs(a), FAbs(b))
             IN IF m = 0 THEN 0 ELSE LET t == FDiv(n, m) IN FMul(m, FSqrt(E6 + FMul(t, t)))
PI == 3141593
HalfPI == 1570796
QuarterPI == 785398
(* arc tangent of t in [-0.42, 0.42] by its series *)
AtanSeries(t) == LET u == FMul(t, t)
                 IN FMul(t, E6 - FMul(u, 333333 - FMul(u, 200000 - FMul(u, 142857 - FMul(u, 111111 - FMul(u, 90909 - FMul(u, 76923)))))))
Atan01(t) == IF t <= 414214 THEN AtanSeries(t) ELSE QuarterPI + AtanSeries(FDiv(t - E6, t + E6))
AtanQ(y, x) == IF y = 0 THEN 0 ELSE IF y <= x THEN Atan01(FDiv(y, x)) ELSE HalfPI - Atan01(FDiv(x, y))
RECURSIVE FAtan2(_, _)
FAtan2(y, x) == IF FMax(FAbs(x), FAbs(y)) > 200000000 THEN FAtan2(y \div 10, x \div 10) ELSE
                LET a == AtanQ(FAbs(y), FAbs(x))
                    b == IF x >= 0 THEN a ELSE PI - a
                IN IF y >= 0 THEN b ELSE -b
(* sine and cosine: Taylor series on [0, pi/4], symmetries elsewhere *)
SinS(x) == LET u == FMul(x, x) IN FMul(x, E6 - (FMul(u, E6 - (FMul(u, E6 - (FMul(u, E6) \div 42)) \div 20)) \div 6))
CosS(x) == LET u == FMul(x, x) IN E6 - (FMul(u, E6 - (FMul(u, E6 - (FMul(u, E6 - (u \div 56)) \div 30)) \div 12)) \div 2)
RECURSIVE FSin(_), FCos(_)
FSin(x) == IF x < 0 THEN -FSin(-x)
           ELSE IF x > 2 * PI THEN FSin(x - 2 * PI)
           ELSE IF x > PI THEN -FSin(x - PI)
           ELSE IF x > HalfPI THEN FSin(PI - x)
           ELSE IF x > QuarterPI THEN CosS(HalfPI - x) ELSE SinS(x)
FCos(x) == FSin(x + HalfPI)
(* natural logarithm of x > 0: powers of two, then the series of the area tangent *)
Ln2 == 693147
LnSeries(z) == LET u == FMul(z, z) IN 2 * FMul(z, E6 + FMul(u, 333333 + FMul(u, 200000 + FMul(u, 142857 + FMul(u, 111111)))))
RECURSIVE FLn(_)
FLn(x) == IF x > 1414214 THEN Ln2 + FLn((x + 1) \div 2) ELSE IF x < 707107 THEN FLn(2 * x) - Ln2 ELSE LnSeries(FDiv(x - E6, x + E6))
=============================================================================
