--------------------------------- MODULE Optim ---------------------------------
(* The update rules of the optimizers, element by element, over the reals of Real.tla.  An optimizer is [k, p, lr, it]:      *)
(* its kind, hyper-parameters, current learning rate (scaled by the batch size) and number of steps taken.  The moments of   *)
(* an element are a pair.  Rule gives <<change of the element, new first moment, new second moment>>.                      *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE Real
Kinds == {"sgd", "adagrad", "rmsprop", "adadelta", "adam", "gd"}
\* parameters: sgd rate momentum decay nesterov; adagrad rate decay; rmsprop rate rho decay; adadelta rho; adam rate beta1 beta2; gd rate momentum
Eps == Norm(1, -8)
Decay(o) == CASE o.k = "sgd" -> RMax(Zero, o.p[3]) [] o.k = "adagrad" -> RMax(Zero, o.p[2]) [] o.k = "rmsprop" -> RMax(Zero, o.p[3]) [] OTHER -> Zero
Made(k, p, bs) == [k |-> k, p |-> p, it |-> 0, lr |-> IF k = "adadelta" THEN Rat(1, bs) ELSE DivI(p[1], bs)]
\* the learning rate in force in the next step
Rate(o) == IF Decay(o) = Zero THEN o.lr ELSE Div(o.lr, Add(One, MulI(Decay(o), o.it)))
Stepped(o) == [o EXCEPT !.lr = Rate(o), !.it = @ + 1]
Mean(rho, m, x) == Add(Mul(rho, m), Mul(Sub(One, rho), x))                 \* exponential moving average
RECURSIVE PowI(_, _)
PowI(x, n) == IF n = 0 THEN One ELSE Mul(x, PowI(x, n - 1))
NoMoment == <<Zero, Zero>>
Rule(o, m, g) ==
    LET lr == Rate(o) IN
    CASE o.k \in {"sgd", "gd"} ->
            LET mom == IF o.k = "sgd" THEN RMax(Zero, o.p[2]) ELSE o.p[2]
                v == Sub(Mul(mom, m[1]), Mul(lr, g))
            IN <<IF o.k = "sgd" /\ o.p[4] # Zero THEN Sub(Mul(mom, v), Mul(lr, g)) ELSE v, v, Zero>>
      [] o.k = "adagrad" -> LET a == Add(m[1], Sq(g)) IN <<Neg(Div(Mul(lr, g), Add(Eps, Sqrt(a)))), a, Zero>>
      [] o.k = "rmsprop" -> LET a == IF o.it = 0 THEN Sq(g) ELSE Mean(o.p[2], m[1], Sq(g)) IN <<Neg(Div(Mul(lr, g), Add(Eps, Sqrt(a)))), a, Zero>>
      [] o.k = "adadelta" -> LET a == Mean(o.p[1], m[1], Sq(g)) u == Mul(Mul(g, lr), Sqrt(Div(Add(m[2], Eps), Add(a, Eps)))) IN <<Neg(u), a, Mean(o.p[1], m[2], Sq(u))>>
      [] o.k = "adam" ->
            LET a == Mean(o.p[2], m[1], g) b == Mean(o.p[3], m[2], Sq(g))
                l == Div(Mul(lr, Sqrt(Sub(One, PowI(o.p[3], o.it + 1)))), Sub(One, PowI(o.p[2], o.it + 1)))
            IN <<IF o.it > 1 THEN Neg(Div(Mul(l, a), Add(Eps, Sqrt(b)))) ELSE Neg(Mul(lr, g)), a, b>>   \* the first two steps are plain gradient steps
===============================================================================
