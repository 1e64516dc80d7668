--------------------------------- MODULE Real ---------------------------------
(* Real numbers as decimal floating point pairs <<m, e>> (value m * 10^e, m = 0 or 10^7 <= |m| <= 10^8), with the         *)
(* arithmetic and the elementary functions computed from their definitions by series.  Everything fits 32 bit integers.   *)
(* The relative error of an operation is about 1e-8; the laws in RealLaws are checked by TLC over a grid.                  *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
Tens == <<1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000>>
P10(k) == Tens[k + 1]
IAbs(n) == IF n < 0 THEN -n ELSE n
Dig(n) == IF n < 10000 THEN (IF n < 100 THEN (IF n < 10 THEN 1 ELSE 2) ELSE (IF n < 1000 THEN 3 ELSE 4))
          ELSE IF n < 100000000 THEN (IF n < 1000000 THEN (IF n < 100000 THEN 5 ELSE 6) ELSE (IF n < 10000000 THEN 7 ELSE 8))
          ELSE IF n < 1000000000 THEN 9 ELSE 10
RoundDiv(m, q) == IF m >= 0 THEN (m + q \div 2) \div q ELSE -(((-m) + q \div 2) \div q)
Zero == <<0, 0>>
Norm(m, e) == IF m = 0 THEN Zero ELSE
    LET d == Dig(IAbs(m)) IN IF d = 8 THEN <<m, e>> ELSE IF d < 8 THEN <<m * P10(8 - d), e - (8 - d)>> ELSE <<RoundDiv(m, P10(d - 8)), e + d - 8>>
R(n) == Norm(n, 0)
One == <<10000000, -7>>
Two == <<20000000, -7>>
Neg(a) == <<-a[1], a[2]>>
RAbs(a) == <<IAbs(a[1]), a[2]>>
Sgn(a) == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0
Add(a, b) == IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a ELSE
    LET d == a[2] - b[2] IN
    IF d > 9 THEN a ELSE IF d < -9 THEN b ELSE
    IF d > 0 THEN Norm(a[1] * 10 + RoundDiv(b[1], P10(d - 1)), a[2] - 1)
    ELSE IF d < 0 THEN Norm(b[1] * 10 + RoundDiv(a[1], P10(-d - 1)), b[2] - 1)
    ELSE Norm(a[1] * 10 + b[1] * 10, a[2] - 1)
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN Zero ELSE
    LET x == IAbs(a[1]) y == IAbs(b[1]) x1 == x \div 10000 x0 == x % 10000 y1 == y \div 10000 y0 == y % 10000
        p == x1 * y1 * 10 + (((x1 * y0 + x0 * y1) * 10 + (x0 * y0) \div 1000 + 5000) \div 10000)
    IN Norm(IF (a[1] < 0) = (b[1] < 0) THEN p ELSE -p, a[2] + b[2] + 7)
RECURSIVE Quo(_, _, _, _)
Quo(q, r, y, k) == IF k = 0 THEN (IF 2 * r >= y THEN q + 1 ELSE q) ELSE LET s == r * 10 IN Quo(q * 10 + (s \div y), s % y, y, k - 1)
Div(a, b) == IF a[1] = 0 THEN Zero ELSE
    LET x == IAbs(a[1]) y == IAbs(b[1]) q == Quo(x \div y, x % y, y, 8) IN Norm(IF (a[1] < 0) = (b[1] < 0) THEN q ELSE -q, a[2] - b[2] - 8)
MulI(a, n) == Mul(a, R(n))
DivI(a, n) == IF a[1] = 0 THEN Zero ELSE Norm(RoundDiv(a[1] * 10, n), a[2] - 1)        \* 0 < n < 10^9
Rat(p, q) == Div(R(p), R(q))
Sq(a) == Mul(a, a)
Lt(a, b) == LET sa == Sgn(a) sb == Sgn(b) IN IF sa # sb THEN sa < sb ELSE Sub(a, b)[1] < 0
Le(a, b) == ~Lt(b, a)
RMax(a, b) == IF Lt(a, b) THEN b ELSE a
RMin(a, b) == IF Lt(b, a) THEN b ELSE a
RECURSIVE SumR(_)
SumR(s) == IF Len(s) = 0 THEN Zero ELSE IF Len(s) = 1 THEN s[1] ELSE LET h == Len(s) \div 2 IN Add(SumR(SubSeq(s, 1, h)), SumR(SubSeq(s, h + 1, Len(s))))
\* --- integers near a real (|a| < 10^9)
FloorI(a) == IF a[2] >= 0 THEN a[1] * P10(a[2]) ELSE IF a[2] < -9 THEN (IF a[1] < 0 THEN -1 ELSE 0) ELSE a[1] \div P10(-a[2])
CeilI(a) == -FloorI(Neg(a))
TruncI(a) == IF a[1] < 0 THEN CeilI(a) ELSE FloorI(a)
AwayI(a) == IF a[1] < 0 THEN -FloorI(Add(Neg(a), <<50000000, -8>>)) ELSE FloorI(Add(a, <<50000000, -8>>))          \* halves away from zero
EvenI(a) == LET f == FloorI(a) d == Sub(a, R(f)) h == Sub(d, <<50000000, -8>>) IN                                     \* halves to even
            IF h[1] < 0 THEN f ELSE IF h[1] > 0 THEN f + 1 ELSE IF f % 2 = 0 THEN f ELSE f + 1
\* --- constants; those used to reduce arguments have a second part
PI == <<31415927, -7>>
PI2 == <<15707963, -7>>
PI2lo == <<26794897, -15>>
LN2 == <<69314718, -8>>
LN10 == <<23025851, -7>>
LN10lo == <<-70059544, -16>>
Half == <<50000000, -8>>
\* --- exponential: n powers of ten, then the fourth power of a number near one
RECURSIVE ExpSer(_, _)
ExpSer(y, k) == IF k = 11 THEN One ELSE Add(One, Mul(DivI(y, k), ExpSer(y, k + 1)))
Exp(x) == IF x[1] = 0 THEN One ELSE IF Le(x, R(-200)) THEN Zero ELSE
    LET n == AwayI(Div(x, LN10))
        r == Sub(Sub(x, MulI(LN10, n)), MulI(LN10lo, n))
        y == Sq(Sq(ExpSer(DivI(r, 4), 1)))
    IN <<y[1], y[2] + n>>
\* --- logarithm of a positive number: a power of ten, a digit, and a number near one
LnDigit == <<Zero, LN2, <<10986123, -7>>, <<13862944, -7>>, <<16094379, -7>>, <<17917595, -7>>, <<19459101, -7>>, <<20794415, -7>>, <<21972246, -7>>>>
RECURSIVE AtanhSer(_, _)
AtanhSer(z2, k) == IF k > 25 THEN Zero ELSE Add(DivI(One, k), Mul(z2, AtanhSer(z2, k + 2)))
AtanhS(z) == Mul(z, AtanhSer(Sq(z), 1))                                                    \* |z| <= 1/3
Ln(x) == LET m == x[1] \div 10000000 k == IF m = 10 THEN 9 ELSE m e == x[2] + 7
             t == Sub(<<x[1], -7>>, R(k))
         IN Add(Add(MulI(LN10, e), MulI(LN10lo, e)), Add(LnDigit[k], MulI(AtanhS(Div(t, Add(R(2 * k), t))), 2)))
\* --- square root by Newton's method
RECURSIVE Newton(_, _, _)
Newton(x, y, k) == IF k = 0 THEN y ELSE Newton(x, DivI(Add(y, Div(x, y)), 2), k - 1)
Sqrt(x) == IF x[1] = 0 THEN Zero ELSE
    LET m == IF x[2] % 2 = 0 THEN <<x[1], -8>> ELSE <<x[1], -7>>  e == IF x[2] % 2 = 0 THEN (x[2] + 8) \div 2 ELSE (x[2] + 7) \div 2
        y == Newton(m, DivI(Add(One, m), 2), 5) IN <<y[1], y[2] + e>>
Cbrt(x) == IF x[1] = 0 THEN Zero ELSE LET y == Exp(DivI(Ln(RAbs(x)), 3)) IN IF x[1] < 0 THEN Neg(y) ELSE y
Pow(x, y) == Exp(Mul(y, Ln(x)))
\* --- trigonometric functions
RECURSIVE SinSer(_, _), CosSer(_, _)
SinSer(r2, k) == IF k > 13 THEN One ELSE Sub(One, Mul(DivI(r2, k * (k + 1)), SinSer(r2, k + 2)))
CosSer(r2, k) == IF k > 13 THEN One ELSE Sub(One, Mul(DivI(r2, k * (k + 1)), CosSer(r2, k + 2)))
Quad(x) == AwayI(Div(x, PI2))
Red(x) == LET k == Quad(x) IN Sub(Sub(x, MulI(PI2, k)), MulI(PI2lo, k))
SinCos(x, q) == LET k == (Quad(x) + q) % 4 r == Red(x) v == IF k % 2 = 0 THEN Mul(r, SinSer(Sq(r), 2)) ELSE CosSer(Sq(r), 1) IN IF k >= 2 THEN Neg(v) ELSE v
Sin(x) == IF x[1] = 0 THEN Zero ELSE SinCos(x, 0)
Cos(x) == IF x[1] = 0 THEN One ELSE SinCos(x, 1)
Tan(x) == Div(Sin(x), Cos(x))
RECURSIVE AtanSer(_, _)
AtanSer(z2, k) == IF k > 15 THEN Zero ELSE Sub(DivI(One, k), Mul(z2, AtanSer(z2, k + 2)))
HalfAngle(x) == Div(x, Add(One, Sqrt(Add(One, Sq(x)))))
AtanC(x) == LET z == HalfAngle(HalfAngle(x)) IN MulI(Mul(z, AtanSer(Sq(z), 1)), 4)
Atan(x) == IF x[1] = 0 THEN Zero ELSE IF Lt(One, RAbs(x)) THEN Sub(IF x[1] > 0 THEN PI2 ELSE Neg(PI2), AtanC(Div(One, x))) ELSE AtanC(x)
Atan2(y, x) == IF x[1] = 0 THEN (IF y[1] > 0 THEN PI2 ELSE IF y[1] < 0 THEN Neg(PI2) ELSE Zero)
               ELSE IF x[1] > 0 THEN Atan(Div(y, x)) ELSE IF y[1] >= 0 THEN Add(Atan(Div(y, x)), PI) ELSE Sub(Atan(Div(y, x)), PI)
Asin(x) == Atan2(x, Sqrt(Sub(One, Sq(x))))
Acos(x) == Sub(PI2, Asin(x))
\* --- hyperbolic functions
Sinh(x) == DivI(Sub(Exp(x), Exp(Neg(x))), 2)
Cosh(x) == DivI(Add(Exp(x), Exp(Neg(x))), 2)
Tanh(x) == IF Lt(R(20), RAbs(x)) THEN R(Sgn(x)) ELSE LET y == Exp(MulI(x, 2)) IN Div(Sub(y, One), Add(y, One))
Asinh(x) == LET y == Ln(Add(RAbs(x), Sqrt(Add(One, Sq(x))))) IN IF x[1] < 0 THEN Neg(y) ELSE y
Acosh(x) == Ln(Add(x, Sqrt(Sub(Sq(x), One))))
Atanh(x) == DivI(Ln(Div(Add(One, x), Sub(One, x))), 2)
\* --- error function: exp(-x^2) times a series of positive terms
RECURSIVE ErfSer(_, _, _)
ErfSer(x2, k, n) == IF k > n THEN One ELSE Add(One, Mul(DivI(MulI(x2, 2), 2 * k + 1), ErfSer(x2, k + 1, n)))
TwoBySqrtPi == <<11283792, -7>>
Erf(x) == IF x[1] = 0 THEN Zero ELSE IF Lt(R(4), RAbs(x)) THEN R(Sgn(x)) ELSE Mul(Mul(TwoBySqrtPi, Mul(x, Exp(Neg(Sq(x))))), ErfSer(Sq(x), 1, 12 + 4 * CeilI(Sq(x))))
\* --- comparison of a recorded value with a computed one: relative tolerance 10^-r, or absolute tolerance t
Near(a, b, t, r) == LET d == Sub(a, b) IN d[1] = 0 \/ ~Lt(t, RAbs(d)) \/ ~Lt(<<RMax(RAbs(a), RAbs(b))[1], RMax(RAbs(a), RAbs(b))[2] - r>>, RAbs(d))
===============================================================================
