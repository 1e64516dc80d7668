------------------------------- MODULE MathTrace -------------------------------
(* recorded evaluations and backpropagations of real functions against Math, Loss and Cplx.                               *)
(* An event carries inputs a, outputs y, incoming gradients g and gradients b of the inputs, all lists of tensors [s, d]. *)
EXTENDS Real, Math, Loss, Cplx, Replay
Fin(t) == \A i \in DOMAIN t.d : t.d[i][1] < 2000000000
Eps == Dec(3, -6)
\* lo - tol <= v <= hi + tol, tol absolute plus relative 2e-5
Rel(b) == Mul(RAbs(b), Dec(2, -5))
In(v, d, tol) == Le(Sub(Sub(d[1], tol), Rel(d[1])), v) /\ Le(v, Add(Add(d[2], tol), Rel(d[2])))
MaxAbs(ts) == LET all == UNION { { RAbs(ts[i].d[j]) : j \in DOMAIN ts[i].d } : i \in DOMAIN ts } IN IF all = {} THEN Zero ELSE CHOOSE x \in all : \A y \in all : Le(y, x)
Wide(e) == MulI(Mul(Mul(Dec(1, -6), Add(One, MaxAbs(e.g))), Sq(Add(One, MaxAbs(e.a)))), 1 + Len(e.a[1].d))
Plain(t) == [s |-> t.s, d |-> [i \in DOMAIN t.d |-> Both(t.d[i])]]
PlainS(q) == [i \in DOMAIN q |-> Plain(q[i])]
El(x, g) == Mul(Mul(Eps, Add(One, RAbs(x))), Add(One, RAbs(g)))
Rows(t, f(_)) == LET n == t.s[Len(t.s)] IN [i \in DOMAIN t.d |-> f(((i - 1) \div n) + 1)[((i - 1) % n) + 1]]
RowOf(t, r) == Row(t.d, t.s[Len(t.s)], r)
\* concatenation of the positive and the negated negative parts along the last axis
CRelu(t) == LET n == t.s[Len(t.s)] IN [s |-> [t.s EXCEPT ![Len(t.s)] = 2 * n],
    d |-> [i \in 1..2 * Len(t.d) |-> LET r == (i - 1) \div (2 * n) c == (i - 1) % (2 * n) x == t.d[r * n + (c % n) + 1] IN Both(RMax(Zero, IF c < n THEN x ELSE Neg(x)))]]
CReluAdj(t, g, i) == LET n == t.s[Len(t.s)] r == (i - 1) \div n c == (i - 1) % n u == g.d[r * 2 * n + c + 1] v == Neg(g.d[r * 2 * n + n + c + 1]) x == t.d[i]
    IN IF x[1] > 0 THEN Both(u) ELSE IF x[1] < 0 THEN Both(v) ELSE <<SumR(<<RMin(u, Zero), RMin(v, Zero)>>), SumR(<<RMax(u, Zero), RMax(v, Zero)>>)>>
\* expected outputs and gradients: lists of tensors of pairs; tolerance of element i of input or output tensor
Expect(e) ==
    CASE e.k \in Unary -> <<[s |-> e.a[1].s, d |-> [i \in DOMAIN e.a[1].d |-> Both(F(e.k, e.p, e.a[1].d[i]))]]>>
      [] e.k \in Binary -> <<[s |-> e.a[1].s, d |-> [i \in DOMAIN e.a[1].d |-> Both(F2(e.k, e.p, e.a[1].d[i], e.a[2].d[i]))]]>>
      [] e.k = "softmax" -> <<Plain([s |-> e.a[1].s, d |-> Rows(e.a[1], LAMBDA r : Softmax(RowOf(e.a[1], r)))])>>
      [] e.k = "crelu" -> <<CRelu(e.a[1])>>
      [] e.k \in Terms -> <<[s |-> <<1>>, d |-> <<Both(LossVal(e.k, e.a[1].d, e.a[2].d))>>]>>
      [] e.k \in {"xent", "xent_f"} -> <<[s |-> <<1>>, d |-> <<Both(Xent(e.p[1], e.a[1].d, e.a[2].d, e.a[1].s[Len(e.a[1].s)]))>>]>>
      [] e.k \in Complex -> PlainS(CVal(e.k, e.a))
Grads(e) ==
    CASE e.k \in Unary -> <<[s |-> e.a[1].s, d |-> [i \in DOMAIN e.a[1].d |-> Times(e.g[1].d[i], D(e.k, e.p, e.a[1].d[i]))]]>>
      [] e.k \in Binary -> [j \in 1..2 |-> [s |-> e.a[1].s, d |-> [i \in DOMAIN e.a[1].d |-> Times(e.g[1].d[i], D2(e.k, e.p, e.a[1].d[i], e.a[2].d[i])[j])]]]
      [] e.k = "softmax" -> <<Plain([s |-> e.a[1].s, d |-> Rows(e.a[1], LAMBDA r : SoftmaxAdj(RowOf(e.a[1], r), Row(e.g[1].d, e.a[1].s[Len(e.a[1].s)], r)))])>>
      [] e.k = "crelu" -> <<[s |-> e.a[1].s, d |-> [i \in DOMAIN e.a[1].d |-> CReluAdj(e.a[1], e.g[1], i)]]>>
      [] e.k \in Terms -> <<[s |-> e.a[1].s, d |-> LossAdjG(e.k, e.a[1].d, e.a[2].d, e.g[1].d[1])], [s |-> e.a[2].s, d |-> LossAdjP(e.k, e.a[1].d, e.a[2].d, e.g[1].d[1])]>>
      [] e.k \in {"xent", "xent_f"} -> <<[s |-> <<>>, d |-> <<>>], [s |-> e.a[2].s, d |-> XentAdj(e.p[1], e.a[1].d, e.a[2].d, e.a[1].s[Len(e.a[1].s)], e.g[1].d[1])]>>
      [] e.k \in Complex -> PlainS(CAdj(e.k, e.a, e.g))
Tol(e, i) == IF e.k \in Unary \cup Binary THEN El(IF e.k \in Binary THEN RMax(RAbs(e.a[1].d[i]), RAbs(e.a[2].d[i])) ELSE e.a[1].d[i], e.g[1].d[i])
             ELSE IF e.k = "softmax" THEN Mul(Eps, Add(One, MaxAbs(e.g))) ELSE IF e.k = "crelu" THEN Eps ELSE Wide(e)
Same(e, got, want, f) == got.s = want.s /\ \A i \in DOMAIN want.d : In(got.d[i], <<Mul(want.d[i][1], f), Mul(want.d[i][2], f)>>, Mul(Tol(e, i), RMax(f, One)))
Tie(e) == \* the two gradients of maximum and minimum share the incoming gradient
    e.k \in {"maximum", "minimum"} => \A i \in DOMAIN e.g[1].d : In(Add(e.b[1].d[i], e.b[2].d[i]), Both(e.g[1].d[i]), El(Zero, e.g[1].d[i]))
NoGrad(t, e) == t.s = <<>> /\ e.k \in {"creal", "cimag", "cpos"}
GradOk(e, w, f) == \A j \in DOMAIN w : w[j].s = <<>> \/ Same(e, e.b[j], w[j], f) \/ (NoGrad(e.b[j], e) /\ \A i \in DOMAIN w[j].d : w[j].d[i] = Both(Zero))
Batch(e) == R(Len(e.a[1].d) \div e.a[1].s[Len(e.a[1].s)])
MStart == 0
MWhy(w, e) ==
    LET y == Expect(e)
        val == IF Len(e.y) # Len(y) \/ \E j \in DOMAIN y : ~Fin(e.y[j]) \/ ~Same(e, e.y[j], y[j], One) THEN {"value"} ELSE {}
        d == Grads(e)
        grd == IF \E j \in DOMAIN e.b : ~Fin(e.b[j]) THEN {"gradient"}
               ELSE IF GradOk(e, d, One) /\ Tie(e) THEN {}
               ELSE IF e.k \in {"xent", "xent_f"} /\ GradOk(e, d, Batch(e)) THEN {"gradient-batch"} ELSE {"gradient"}
    IN val \cup grd
MTake(w, e) == w + 1
MTell(w, e, why) == e.k \o " " \o ToString(e.p) \o " args " \o ToString(e.a) \o " in " \o ToString(e.g) \o
    (IF "value" \in why THEN " expected " \o ToString(Expect(e)) \o " got " \o ToString(e.y) ELSE " expected " \o ToString(Grads(e)) \o " got " \o ToString(e.b))
===============================================================================
