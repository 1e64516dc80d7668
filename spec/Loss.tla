--------------------------------- MODULE Loss ---------------------------------
(* Losses: every one is a scale times the sum of a term over the elements, except the cross entropy with softmax.          *)
(* T(k, g, p) is the term for a ground truth g and a prediction p; TP and TG the pairs of its one sided derivatives.       *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE Real
LOCAL INSTANCE Math
Terms == {"mse", "mae", "squared_loss", "abs_loss", "msle", "cross_entropy", "bce", "hinge", "mse_f", "mae_f", "hinge_f", "bce_f"}
Base(k) == CASE k = "mse_f" -> "mse" [] k = "mae_f" -> "mae" [] k = "hinge_f" -> "hinge" [] k = "bce_f" -> "bce" [] OTHER -> k
Mean(k) == Base(k) \in {"mse", "mae", "bce", "hinge"}
Lp(x) == Log1p(RMax(x, Zero))
T(k, g, p) ==
    CASE Base(k) \in {"mse", "squared_loss"} -> Sq(Sub(g, p)) [] Base(k) \in {"mae", "abs_loss"} -> RAbs(Sub(g, p))
      [] k = "msle" -> Sq(Sub(Lp(g), Lp(p)))
      [] k = "cross_entropy" -> Neg(Mul(g, Ln(p)))
      [] Base(k) = "bce" -> Neg(Add(Mul(g, Ln(p)), Mul(Sub(One, g), Ln(Sub(One, p)))))
      [] Base(k) = "hinge" -> RMax(Zero, Sub(One, Mul(g, p)))
DLp(x) == Kink(x, Zero, Zero, Div(One, Add(One, RMax(x, Zero))))
Times(c, d) == Ord(Mul(c, d[1]), Mul(c, d[2]))
TP(k, g, p) ==
    CASE Base(k) \in {"mse", "squared_loss"} -> Both(MulI(Sub(p, g), 2)) [] Base(k) \in {"mae", "abs_loss"} -> Kink(p, g, Neg1, One)
      [] k = "msle" -> Times(MulI(Sub(Lp(p), Lp(g)), 2), DLp(p))
      [] k = "cross_entropy" -> Both(Neg(Div(g, p)))
      [] Base(k) = "bce" -> Both(Sub(Div(Sub(One, g), Sub(One, p)), Div(g, p)))
      [] Base(k) = "hinge" -> LET m == Mul(g, p) IN IF Lt(m, One) THEN Both(Neg(g)) ELSE IF Lt(One, m) THEN Both(Zero) ELSE Ord(Zero, Neg(g))
TG(k, g, p) ==
    CASE Base(k) \in {"mse", "squared_loss"} -> Both(MulI(Sub(g, p), 2)) [] Base(k) \in {"mae", "abs_loss"} -> Kink(g, p, Neg1, One)
      [] k = "msle" -> Times(MulI(Sub(Lp(g), Lp(p)), 2), DLp(g))
      [] k = "cross_entropy" -> Both(Neg(Ln(p)))
      [] Base(k) = "bce" -> Both(Sub(Ln(Sub(One, p)), Ln(p)))
      [] Base(k) = "hinge" -> LET m == Mul(g, p) IN IF Lt(m, One) THEN Both(Neg(p)) ELSE IF Lt(One, m) THEN Both(Zero) ELSE Ord(Zero, Neg(p))
Scale(k, n) == IF Mean(k) THEN DivI(One, n) ELSE One
LossVal(k, g, p) == Mul(Scale(k, Len(g)), SumR([i \in DOMAIN g |-> T(k, g[i], p[i])]))
LossAdjP(k, g, p, in) == [i \in DOMAIN g |-> Times(Mul(Scale(k, Len(g)), in), TP(k, g[i], p[i]))]
LossAdjG(k, g, p, in) == [i \in DOMAIN g |-> Times(Mul(Scale(k, Len(g)), in), TG(k, g[i], p[i]))]
\* cross entropy of the softmax of rows of n predictions with the smoothed one-hot ground truth, averaged over the rows
Row(q, n, r) == SubSeq(q, (r - 1) * n + 1, r * n)
Smooth(ls, g) == [i \in DOMAIN g |-> IF g[i][1] > 0 THEN Sub(One, ls) ELSE DivI(ls, Len(g) - 1)]
XentRow(ls, g, p) == LET v == Smooth(ls, g) m == p[CHOOSE i \in DOMAIN p : \A j \in DOMAIN p : Le(p[j], p[i])]
                         z == Add(m, Ln(SumR([i \in DOMAIN p |-> Exp(Sub(p[i], m))])))
                     IN SumR([i \in DOMAIN p |-> Mul(v[i], Sub(z, p[i]))])
Xent(ls, g, p, n) == LET rows == Len(g) \div n IN DivI(SumR([r \in 1..rows |-> XentRow(ls, Row(g, n, r), Row(p, n, r))]), rows)
XentAdj(ls, g, p, n, in) == LET rows == Len(g) \div n IN
    [i \in DOMAIN g |-> LET r == ((i - 1) \div n) + 1 j == ((i - 1) % n) + 1 v == Smooth(ls, Row(g, n, r)) s == Softmax(Row(p, n, r))
                        IN Both(Mul(DivI(in, rows), Sub(s[j], v[j])))]
===============================================================================
