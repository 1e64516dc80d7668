-------------------------------- MODULE OptimMC --------------------------------
(* One element driven by every sequence of gradients from a small set: the recurrences of Optim against closed forms of    *)
(* the whole history, and their known invariants.                                                                          *)
EXTENDS Integers, Sequences, Real, Optim, TLC
CONSTANTS Depth, Mutant
VARIABLES o, m, hist, ups
vars == <<o, m, hist, ups>>
G == {R(-2), Zero, Norm(5, -1), One}
Half1 == Norm(5, -1)
P9 == Norm(9, -1)
Tenth == Norm(1, -1)
Configs == { Made("sgd", <<Tenth, Zero, Zero, Zero>>, 1), Made("sgd", <<One, P9, Half1, Zero>>, 4), Made("sgd", <<Tenth, Half1, Zero, One>>, 2), Made("gd", <<Tenth, P9>>, 2),
             Made("adagrad", <<Tenth, Half1>>, 2), Made("rmsprop", <<Tenth, P9, Zero>>, 1), Made("adadelta", <<P9>>, 1), Made("adam", <<Tenth, P9, Norm(99, -2)>>, 3) }
RuleM(q, n, g) == LET r == Rule(q, n, g) IN IF Mutant = "forget" /\ q.it = 2 THEN <<r[1], Zero, Zero>> ELSE IF Mutant = "rate" /\ q.it = 1 THEN <<MulI(r[1], 2), r[2], r[3]>> ELSE r
Init == o \in Configs /\ m = NoMoment /\ hist = <<>> /\ ups = <<>>
Next == Len(hist) < Depth /\ \E g \in G : LET r == TLCEval(RuleM(o, m, g)) IN m' = <<r[2], r[3]>> /\ hist' = Append(hist, g) /\ ups' = Append(ups, r[1]) /\ o' = Stepped(o)
Spec == Init /\ [][Next]_vars
N == Len(hist)
Close(a, b) == Near(a, b, Norm(1, -7), 5)
\* learning rate of step s (counted from zero): the product of the decays so far
RECURSIVE Dec(_, _)
Dec(d, s) == IF s = 0 THEN One ELSE Div(Dec(d, s - 1), Add(One, MulI(d, s)))
Batch == CASE o.k = "sgd" -> (IF o.p[2] = Zero THEN 1 ELSE IF o.p[2] = P9 THEN 4 ELSE 2) [] o.k \in {"gd", "adagrad"} -> 2 [] o.k = "adam" -> 3 [] OTHER -> 1
LrAt(s) == IF o.k = "adadelta" THEN Rat(1, Batch) ELSE Mul(DivI(o.p[1], Batch), Dec(Decay(o), s))
Weighted(rho, f(_)) == SumR([s \in 1..N |-> Mul(Mul(PowI(rho, N - s), Sub(One, rho)), f(s))])
Sq1(s) == Sq(hist[s])
Id1(s) == hist[s]
Up1(s) == Sq(ups[s])
Velocity(n, mom) == Neg(SumR([s \in 1..n |-> Mul(PowI(mom, n - s), Mul(LrAt(s - 1), hist[s]))]))
Moments == N > 0 =>
    CASE o.k \in {"sgd", "gd"} -> Close(m[1], Velocity(N, o.p[2]))
      [] o.k = "adagrad" -> Close(m[1], SumR([s \in 1..N |-> Sq1(s)]))
      [] o.k = "rmsprop" -> Close(m[1], Add(Weighted(o.p[2], Sq1), Mul(PowI(o.p[2], N), Sq1(1))))
      [] o.k = "adadelta" -> Close(m[1], Weighted(o.p[1], Sq1)) /\ Close(m[2], Weighted(o.p[1], Up1))
      [] o.k = "adam" -> Close(m[1], Weighted(o.p[2], Id1)) /\ Close(m[2], Weighted(o.p[3], Sq1))
Updates == N > 0 =>
    LET g == hist[N] u == ups[N] lr == LrAt(N - 1) IN
    CASE o.k = "gd" \/ (o.k = "sgd" /\ o.p[4] = Zero) -> Close(u, Velocity(N, o.p[2]))
      [] o.k = "sgd" -> Close(u, Add(Neg(Mul(lr, g)), Mul(o.p[2], Velocity(N, o.p[2]))))
      [] o.k = "adagrad" -> g # Zero => Close(Mul(u, Sqrt(SumR([s \in 1..N |-> Sq1(s)]))), Neg(Mul(lr, g)))
      [] o.k = "rmsprop" -> Le(Sq(u), Mul(Div(Sq(lr), Sub(One, o.p[2])), Norm(1001, -3)))       \* steps are bounded by rate / sqrt(1 - rho)
      [] o.k = "adadelta" -> Sgn(u) = -Sgn(g)
      [] o.k = "adam" -> N <= 2 => Close(u, Neg(Mul(lr, g)))
\* for constant gradients the adaptive rules are known exactly
Constant == (N > 0 /\ hist[1] # Zero /\ \A s \in 1..N : hist[s] = hist[1]) =>
    LET g == hist[1] lr == LrAt(N - 1) IN
    CASE o.k = "rmsprop" -> Close(ups[N], Neg(Mul(lr, R(Sgn(g)))))
      [] o.k = "adam" -> N > 2 => Close(ups[N], Neg(Mul(lr, R(Sgn(g)))))
      [] o.k = "adagrad" -> Close(Mul(ups[N], Sqrt(R(N))), Neg(Mul(lr, R(Sgn(g)))))
      [] OTHER -> TRUE
RateOk == N > 0 => Close(o.lr, LrAt(N - 1))
===============================================================================
