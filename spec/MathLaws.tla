------------------------------- MODULE MathLaws -------------------------------
(* Laws of the real functions: every derivative of Math.tla agrees with difference quotients of the function, and the      *)
(* elementary functions of Real.tla satisfy the identities that define them.  One state per function and grid point.       *)
EXTENDS Integers, Sequences, TLC, Real, Math
CONSTANTS Grid, Mutant
VARIABLES k, n
X(i) == DivI(R(i), 16)
Par == <<Dec(-15, -1), Dec(125, -2)>>
P(f) == IF f \in {"clip", "clip_below"} THEN Par ELSE <<Dec(4, -1)>>
Dom(f, x) ==
    CASE f \in {"log", "log2", "log10", "sqrt", "cbrt", "pow"} -> Lt(Dec(3, -1), x)
      [] f \in {"inverse", "cdiv"} -> Lt(Dec(3, -1), RAbs(x))
      [] f = "log1p" -> Lt(Dec(-7, -1), x)
      [] f \in {"asin", "acos", "atanh"} -> Lt(RAbs(x), Dec(8, -1))
      [] f = "acosh" -> Lt(Dec(13, -1), x)
      [] f = "tan" -> Lt(RAbs(x), Dec(13, -1))
      [] f \in {"ceil", "floor", "trunc", "round", "lround", "llround", "rint", "lrint", "llrint", "nearbyint"} -> FALSE
      [] f \in {"soft_sign", "unit_step", "binary_step"} -> FALSE
      [] OTHER -> TRUE
Der(f, x) == IF Mutant = f THEN (CASE f = "log1p" -> Both(Div(One, x)) [] f = "tanh" -> Both(Sub(One, Tanh(x))) [] f = "mish" -> Both(Add(Tanh(Softplus(x)), Mul(x, Sech2(Softplus(x))))) [] OTHER -> Both(One))
             ELSE D(f, P(f), x)
H == Dec(3125, -5)
Diff(f, x) == LET G(m) == F(f, P(f), Add(x, MulI(H, m)))
              IN Div(Sub(MulI(Sub(G(1), G(-1)), 8), Sub(G(2), G(-2))), MulI(H, 12))
Smooth(f, x) == \* no kink within reach of the difference quotient
    \A c \in {-1, 0, 1, 6} : f \in {"abs", "fabs", "selu", "elu", "relu", "negative_relu", "leaky_relu", "prelu", "hard_sigmoid", "relu6", "sign", "softsign"} => Lt(Dec(1, -1), RAbs(Sub(x, R(c))))
SmoothC(f, x) == f \in {"clip", "clip_below"} => \A i \in {1, 2} : Lt(Dec(1, -1), RAbs(Sub(x, Par[i])))
Derivative == (Dom(k, X(n)) /\ Smooth(k, X(n)) /\ SmoothC(k, X(n))) => LET d == Der(k, X(n)) IN d[1] = d[2] /\ Near(d[1], Diff(k, X(n)), Dec(1, -3), 3)
Ordered == Dom(k, X(n)) => LET d == D(k, P(k), X(n)) IN Le(d[1], d[2])
Eq(a, b) == Near(a, b, Dec(1, -6), 6)
Identities == k = "negative" =>
    LET x == X(n) b == Dec(7, -1) a == RAbs(x) IN
    LET L == <<
      Eq(Mul(Exp(x), Exp(Neg(x))), One), Eq(Exp(Add(x, b)), Mul(Exp(x), Exp(b))), Eq(Ln(Exp(x)), x),
      Eq(Add(Sq(Sin(x)), Sq(Cos(x))), One),
      Eq(Sin(Add(x, b)), Add(Mul(Sin(x), Cos(b)), Mul(Cos(x), Sin(b)))), Eq(Cos(Add(x, b)), Sub(Mul(Cos(x), Cos(b)), Mul(Sin(x), Sin(b)))),
      Pos(a) => Eq(Sq(Sqrt(a)), a) /\ Eq(Mul(Cbrt(x), Sq(Cbrt(x))), x) /\ Eq(Exp(Ln(a)), a) /\ Eq(Ln(Mul(a, b)), Add(Ln(a), Ln(b))),
      Pos(a) => Eq(Mul(Power(a, Dec(5, -1)), Power(a, Dec(5, -1))), a) /\ Eq(Power(a, Dec(-5, -1)), Div(One, Sqrt(a))) /\ Eq(Power(x, R(3)), Mul(x, Sq(x))) /\ Eq(Mul(Power(x, R(-2)), Sq(x)), One) /\ Power(x, Zero) = One,
      Eq(Tan(Atan(x)), x), Near(Mul(Add(Cosh(x), Sinh(x)), Sub(Cosh(x), Sinh(x))), One, Dec(1, -5), 5), Eq(Sinh(Asinh(x)), x), Eq(Div(Sinh(x), Cosh(x)), Tanh(x)),
      Lt(a, One) => Eq(Sin(Asin(x)), x) /\ Eq(Cos(Acos(x)), x) /\ Eq(Tanh(Atanh(x)), x), Le(One, a) => Eq(Cosh(Acosh(a)), a),
      Eq(Erf(Neg(x)), Neg(Erf(x))), Eq(Add(Sig(x), Sig(Neg(x))), One), Eq(Sub(Softplus(x), Softplus(Neg(x))), x), Eq(Sech2(x), Sub(One, Sq(Tanh(x)))),
      FloorI(x) = n \div 16 /\ CeilI(x) = -((-n) \div 16) /\ TruncI(x) = (IF n < 0 THEN -((-n) \div 16) ELSE n \div 16),
      AwayI(x) = (IF n < 0 THEN -(((-n) + 8) \div 16) ELSE (n + 8) \div 16),
      LET e == EvenI(x) IN 2 * IAbs(16 * e - n) <= 16 /\ (2 * IAbs(16 * e - n) = 16 => e % 2 = 0),
      \A y \in {Zero, One, Neg(b)} : (x # Zero \/ y # Zero) => LET t == Atan2(x, y) r == Sqrt(Add(Sq(x), Sq(y))) IN Eq(Mul(r, Sin(t)), x) /\ Eq(Mul(r, Cos(t)), y),
      LET s == Softmax(<<x, b, Zero>>) IN Eq(SumR(s), One) /\ Eq(Div(s[1], s[2]), Exp(Sub(x, b))),
      LET g == <<One, Neg(b), x>> q == SoftmaxAdj(<<x, b, Zero>>, g) Ls(h) == LET t == Softmax(<<Add(x, h), b, Zero>>) IN SumR([i \in 1..3 |-> Mul(t[i], g[i])])
      IN Eq(SumR(q), Zero) /\ Near(q[1], Div(Sub(Ls(Dec(2, -3)), Ls(Dec(-2, -3))), Dec(4, -3)), Dec(1, -3), 3) >>
    bad == { i \in DOMAIN L : ~L[i] } IN bad = {} \/ ~PrintT(<<"failing laws", bad, n>>)
Init == k \in Unary /\ n \in {-Grid}
Next == n < Grid /\ n' = n + 1 /\ UNCHANGED k
Spec == Init /\ [][Next]_<<k, n>>
===============================================================================
