--------------------------------- MODULE Math ---------------------------------
(* The elementwise functions of the library and their derivatives over the reals of Real.tla.                             *)
(* F(k, p, x) is the value of function k with parameters p, D(k, p, x) the pair of its one sided derivatives, ordered     *)
(* (equal where the function is differentiable).  Rounding functions count as the identity for the derivative, as the     *)
(* library passes gradients straight through them; sign has derivative zero.                                              *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE Real
LOCAL INSTANCE TLC
Dec(m, e) == Norm(m, e)
Lambda == Dec(10507, -4)
Alpha == Dec(167326, -5)
C1 == Dec(79788456, -8)             \* sqrt(2/pi)
C2 == Dec(44715, -6)
LN2c == <<69314718, -8>>
LN10c == <<23025851, -7>>
Neg1 == R(-1)
Pos(x) == x[1] > 0
NegA(x) == x[1] < 0
Sig(x) == IF NegA(x) THEN LET y == Exp(x) IN Div(y, Add(One, y)) ELSE Div(One, Add(One, Exp(Neg(x))))
Log1p(y) == IF Lt(RAbs(y), Dec(1, -1)) THEN LET z == Div(y, Add(Two, y)) IN MulI(AtanhS(z), 2) ELSE Ln(Add(One, y))
Softplus(x) == Add(RMax(x, Zero), Log1p(Exp(Neg(RAbs(x)))))
Expm1(x) == IF Lt(RAbs(x), Dec(1, -2)) THEN Mul(x, Add(One, Mul(DivI(x, 2), Add(One, Mul(DivI(x, 3), Add(One, DivI(x, 4))))))) ELSE Sub(Exp(x), One)
Sech2(x) == LET e == Exp(Neg(RAbs(MulI(x, 2)))) s == Add(One, e) IN Div(MulI(e, 4), Sq(s))
Inner(x) == Mul(C1, Mul(x, Add(One, Mul(C2, Sq(x)))))
Gelu(x) == Mul(DivI(x, 2), Add(One, Tanh(Inner(x))))
DGelu(x) == Add(DivI(Add(One, Tanh(Inner(x))), 2), Mul(DivI(x, 2), Mul(Sech2(Inner(x)), Mul(C1, Add(One, MulI(Mul(C2, Sq(x)), 3))))))
Step(f, x) == Sig(Mul(MulI(f, 2), x))
DStep(f, x) == LET s == Step(f, x) IN Mul(MulI(f, 2), Mul(s, Step(f, Neg(x))))
\* powers: integer exponents by multiplication, others of positive arguments
RECURSIVE PowN(_, _)
PowN(x, n) == IF n = 0 THEN One ELSE IF n % 2 = 0 THEN PowN(Sq(x), n \div 2) ELSE Mul(x, PowN(x, n - 1))
IsInt(p) == R(FloorI(p)) = p
Power(x, p) == IF IsInt(p) THEN (IF FloorI(p) >= 0 THEN PowN(x, FloorI(p)) ELSE Div(One, PowN(x, -FloorI(p)))) ELSE Exp(Mul(p, Ln(x)))
Unary == {"pow", "cdiv", "negative", "square", "inverse", "abs", "fabs", "acos", "acosh", "asin", "asinh", "atan", "atanh", "cbrt", "ceil", "cos", "cosh", "erf", "erfc", "exp",
          "exp2", "expm1", "floor", "llrint", "llround", "log", "log10", "log1p", "log2", "lrint", "lround", "nearbyint", "rint", "round", "sign", "sin", "sinh",
          "sqrt", "tan", "tanh", "trunc", "heaviside", "soft_sign", "unit_step", "binary_step", "gaussian", "selu", "softplus", "softsign", "sigmoid", "relu",
          "relu6", "leaky_relu", "prelu", "negative_relu", "elu", "exponential", "hard_sigmoid", "gelu", "swish", "silu", "tank_shrink", "mish", "lisht", "clip",
          "clip_below", "addc", "subc", "csub", "mulc", "divc"}
F(k, p, x) ==
    CASE k = "negative" -> Neg(x) [] k = "square" -> Sq(x) [] k = "inverse" -> Div(One, x)
      [] k \in {"abs", "fabs"} -> RAbs(x)
      [] k = "acos" -> Acos(x) [] k = "asin" -> Asin(x) [] k = "atan" -> Atan(x)
      [] k = "acosh" -> Acosh(x) [] k = "asinh" -> Asinh(x) [] k = "atanh" -> Atanh(x)
      [] k = "cos" -> Cos(x) [] k = "sin" -> Sin(x) [] k = "tan" -> Tan(x)
      [] k = "cosh" -> Cosh(x) [] k = "sinh" -> Sinh(x) [] k = "tanh" -> Tanh(x)
      [] k = "cbrt" -> Cbrt(x) [] k = "sqrt" -> Sqrt(x)
      [] k = "ceil" -> R(CeilI(x)) [] k = "floor" -> R(FloorI(x)) [] k = "trunc" -> R(TruncI(x))
      [] k \in {"round", "lround", "llround"} -> R(AwayI(x))
      [] k \in {"rint", "lrint", "llrint", "nearbyint"} -> R(EvenI(x))
      [] k = "erf" -> Erf(x) [] k = "erfc" -> Sub(One, Erf(x))
      [] k \in {"exp", "exponential"} -> Exp(x) [] k = "exp2" -> Exp(Mul(LN2c, x)) [] k = "expm1" -> Expm1(x)
      [] k = "log" -> Ln(x) [] k = "log10" -> Div(Ln(x), LN10c) [] k = "log2" -> Div(Ln(x), LN2c) [] k = "log1p" -> Log1p(x)
      [] k = "sign" -> R(Sgn(x))
      [] k = "heaviside" -> Step(p[1], x) [] k \in {"soft_sign", "unit_step", "binary_step"} -> Step(R(20), x)
      [] k = "gaussian" -> Exp(Neg(Sq(x)))
      [] k = "selu" -> IF NegA(x) THEN Mul(Mul(Lambda, Alpha), Expm1(x)) ELSE Mul(Lambda, x)
      [] k = "elu" -> IF NegA(x) THEN Mul(p[1], Expm1(x)) ELSE x
      [] k = "softplus" -> Softplus(x) [] k = "softsign" -> Div(x, Add(One, RAbs(x))) [] k = "sigmoid" -> Sig(x)
      [] k = "relu" -> RMax(x, Zero) [] k = "relu6" -> RMin(R(6), RMax(x, Zero)) [] k = "negative_relu" -> Neg(RMax(x, Zero))
      [] k \in {"leaky_relu", "prelu"} -> IF NegA(x) THEN Mul(p[1], x) ELSE x
      [] k = "hard_sigmoid" -> RMax(Zero, RMin(One, DivI(Add(x, One), 2)))
      [] k = "gelu" -> Gelu(x) [] k \in {"swish", "silu"} -> Mul(x, Sig(x))
      [] k = "tank_shrink" -> Sub(x, Tanh(x)) [] k = "mish" -> Mul(x, Tanh(Softplus(x))) [] k = "lisht" -> Mul(x, Tanh(x))
      [] k = "clip" -> RMax(p[1], RMin(p[2], x)) [] k = "clip_below" -> RMax(p[1], x)
      [] k = "addc" -> Add(x, p[1]) [] k = "subc" -> Sub(x, p[1]) [] k = "csub" -> Sub(p[1], x) [] k = "mulc" -> Mul(x, p[1]) [] k = "divc" -> Div(x, p[1]) [] k = "cdiv" -> Div(p[1], x)
      [] k = "pow" -> Power(x, p[1])
Both(d) == <<d, d>>
Ord(a, b) == IF Lt(b, a) THEN <<b, a>> ELSE <<a, b>>
Kink(x, c, below, above) == IF Lt(x, c) THEN Both(below) ELSE IF Lt(c, x) THEN Both(above) ELSE Ord(below, above)
D(k, p, x) ==
    CASE k = "negative" -> Both(Neg1) [] k = "square" -> Both(MulI(x, 2)) [] k = "inverse" -> Both(Neg(Div(One, Sq(x))))
      [] k \in {"abs", "fabs"} -> Kink(x, Zero, Neg1, One)
      [] k = "acos" -> Both(Neg(Div(One, Sqrt(Sub(One, Sq(x)))))) [] k = "asin" -> Both(Div(One, Sqrt(Sub(One, Sq(x))))) [] k = "atan" -> Both(Div(One, Add(One, Sq(x))))
      [] k = "acosh" -> Both(Div(One, Sqrt(Sub(Sq(x), One)))) [] k = "asinh" -> Both(Div(One, Sqrt(Add(One, Sq(x))))) [] k = "atanh" -> Both(Div(One, Sub(One, Sq(x))))
      [] k = "cos" -> Both(Neg(Sin(x))) [] k = "sin" -> Both(Cos(x)) [] k = "tan" -> Both(Div(One, Sq(Cos(x))))
      [] k = "cosh" -> Both(Sinh(x)) [] k = "sinh" -> Both(Cosh(x)) [] k = "tanh" -> Both(Sech2(x))
      [] k = "cbrt" -> Both(Div(One, MulI(Sq(Cbrt(x)), 3))) [] k = "sqrt" -> Both(Div(One, MulI(Sqrt(x), 2)))
      [] k \in {"ceil", "floor", "trunc", "round", "lround", "llround", "rint", "lrint", "llrint", "nearbyint"} -> Both(One)
      [] k = "erf" -> Both(Mul(TwoBySqrtPi, Exp(Neg(Sq(x))))) [] k = "erfc" -> Both(Neg(Mul(TwoBySqrtPi, Exp(Neg(Sq(x))))))
      [] k \in {"exp", "exponential", "expm1"} -> Both(Exp(x)) [] k = "exp2" -> Both(Mul(LN2c, Exp(Mul(LN2c, x))))
      [] k = "log" -> Both(Div(One, x)) [] k = "log10" -> Both(Div(One, Mul(LN10c, x))) [] k = "log2" -> Both(Div(One, Mul(LN2c, x))) [] k = "log1p" -> Both(Div(One, Add(One, x)))
      [] k = "sign" -> Both(Zero)
      [] k = "heaviside" -> Both(DStep(p[1], x)) [] k \in {"soft_sign", "unit_step", "binary_step"} -> Both(DStep(R(20), x))
      [] k = "gaussian" -> Both(Neg(MulI(Mul(x, Exp(Neg(Sq(x)))), 2)))
      [] k = "selu" -> Kink(x, Zero, Mul(Mul(Lambda, Alpha), Exp(RMin(x, Zero))), Lambda)
      [] k = "elu" -> Kink(x, Zero, Mul(p[1], Exp(RMin(x, Zero))), One)
      [] k = "softplus" -> Both(Sig(x)) [] k = "softsign" -> Both(Div(One, Sq(Add(One, RAbs(x))))) [] k = "sigmoid" -> Both(Mul(Sig(x), Sig(Neg(x))))
      [] k = "relu" -> Kink(x, Zero, Zero, One) [] k = "negative_relu" -> Kink(x, Zero, Zero, Neg1)
      [] k = "relu6" -> IF Lt(x, One) THEN Kink(x, Zero, Zero, One) ELSE Kink(x, R(6), One, Zero)
      [] k \in {"leaky_relu", "prelu"} -> Kink(x, Zero, p[1], One)
      [] k = "hard_sigmoid" -> IF NegA(x) THEN Kink(x, Neg1, Zero, Half) ELSE Kink(x, One, Half, Zero)
      [] k = "gelu" -> Both(DGelu(x)) [] k \in {"swish", "silu"} -> Both(Add(Sig(x), Mul(x, Mul(Sig(x), Sig(Neg(x))))))
      [] k = "tank_shrink" -> Both(Sub(One, Sech2(x))) [] k = "lisht" -> Both(Add(Tanh(x), Mul(x, Sech2(x))))
      [] k = "mish" -> Both(Add(Tanh(Softplus(x)), Mul(x, Mul(Sech2(Softplus(x)), Sig(x)))))
      [] k = "clip" -> IF Le(x, p[1]) THEN Kink(x, p[1], Zero, One) ELSE Kink(x, p[2], One, Zero)
      [] k = "clip_below" -> Kink(x, p[1], Zero, One)
      [] k \in {"addc", "subc"} -> Both(One) [] k = "csub" -> Both(Neg1) [] k = "mulc" -> Both(p[1]) [] k = "divc" -> Both(Div(One, p[1])) [] k = "cdiv" -> Both(Neg(Div(p[1], Sq(x))))
      [] k = "pow" -> Both(IF p[1] = Zero THEN Zero ELSE Mul(p[1], Power(x, Sub(p[1], One))))
\* functions of two elements: the value and the pairs of one sided derivatives for either argument
Binary == {"divide", "times", "maximum", "minimum", "atan2", "hypot", "equal", "add", "sub", "mul", "div"}
F2(k, p, x, y) ==
    CASE k = "maximum" -> RMax(x, y) [] k = "minimum" -> RMin(x, y) [] k = "atan2" -> Atan2(x, y) [] k = "hypot" -> Sqrt(Add(Sq(x), Sq(y)))
      [] k = "equal" -> IF Le(RAbs(Sub(x, y)), p[1]) THEN One ELSE Zero
      [] k = "add" -> Add(x, y) [] k = "sub" -> Sub(x, y) [] k \in {"mul", "times"} -> Mul(x, y) [] k \in {"div", "divide"} -> Div(x, y)
D2(k, p, x, y) ==
    CASE k = "maximum" -> <<Kink(x, y, Zero, One), Kink(y, x, Zero, One)>> [] k = "minimum" -> <<Kink(x, y, One, Zero), Kink(y, x, One, Zero)>>
      [] k = "atan2" -> LET c == Add(Sq(x), Sq(y)) IN <<Both(Div(y, c)), Both(Neg(Div(x, c)))>>
      [] k = "hypot" -> LET c == Sqrt(Add(Sq(x), Sq(y))) IN <<Both(Div(x, c)), Both(Div(y, c))>>
      [] k = "equal" -> <<Both(Zero), Both(Zero)>>
      [] k = "add" -> <<Both(One), Both(One)>> [] k = "sub" -> <<Both(One), Both(Neg1)>> [] k \in {"mul", "times"} -> <<Both(y), Both(x)>>
      [] k \in {"div", "divide"} -> <<Both(Div(One, y)), Both(Neg(Div(x, Sq(y))))>>
\* softmax of a row and its adjoint
Softmax(r) == LET m == r[CHOOSE i \in DOMAIN r : \A j \in DOMAIN r : Le(r[j], r[i])]
                  e == TLCEval([i \in DOMAIN r |-> Exp(Sub(r[i], m))]) s == TLCEval(SumR(e)) IN TLCEval([i \in DOMAIN r |-> Div(e[i], s)])
SoftmaxAdj(r, g) == LET y == Softmax(r) d == TLCEval(SumR([i \in DOMAIN r |-> Mul(y[i], g[i])])) IN [i \in DOMAIN r |-> Mul(y[i], Sub(g[i], d))]
===============================================================================
