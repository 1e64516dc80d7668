---------------------------------- MODULE Fit ----------------------------------
(* Training loops of compiled models, over the integers.  A model is linear, y = x * W (+ b), its loss on a batch the sum of *)
(* y * g over the elements, so that the gradients and the updates of plain SGD (momentum 0 or 1) are integers.             *)
(* A call of a training function is a sequence of runs, one per batch, each with the phase it is run in and whether an      *)
(* update follows.  The calls are given by Plan; Run carries it out.                                                       *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
\* batches 0..n-1 of a call: [l, ph, up]
Train == 1
Predict == 0
Batches(n, bs) == n \div bs
Training(n, bs, q) == ((4 - q) * Batches(n, bs)) \div 4              \* a validation part of q quarters of the batches
Epoch(n, bs, q) == [l \in 1..Batches(n, bs) |-> [l |-> l - 1, ph |-> IF l <= Training(n, bs, q) THEN Train ELSE Predict, up |-> l <= Training(n, bs, q)]]
Plan(c) == CASE c.op = "fit" -> [k \in 1..c.ep * Batches(c.n, c.bs) |-> Epoch(c.n, c.bs, c.q)[((k - 1) % Batches(c.n, c.bs)) + 1]]
             [] c.op = "evaluate" -> [k \in 1..Batches(c.n, c.bs) |-> [l |-> k - 1, ph |-> Predict, up |-> FALSE]]
             [] c.op \in {"predict", "predict_model"} -> <<[l |-> 0, ph |-> Predict, up |-> FALSE]>>
             [] c.op = "train" -> <<[l |-> 0, ph |-> Train, up |-> TRUE]>>
             [] c.op = "step" -> <<[l |-> 0, ph |-> c.ph, up |-> TRUE]>>           \* by hand, in the phase in force
             [] c.op = "forward" -> <<[l |-> 0, ph |-> c.ph, up |-> FALSE]>>
Size(c) == IF c.op \in {"fit", "evaluate"} THEN c.bs ELSE c.n
PhaseAfter(c) == IF c.op \in {"step", "forward"} THEN c.ph ELSE Train
\* --- linear algebra on flat sequences
Sum(f, n) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE f[i] + S(i - 1) IN S(n)
Rows(x, l, bs, k) == SubSeq(x, l * bs * k + 1, (l + 1) * bs * k)
\* m: [k, m, w, b (0: none)], val: the variables
Output(m, val, x, bs) == TLCEval([e \in 1..bs * m.m |-> LET r == (e - 1) \div m.m c == ((e - 1) % m.m) + 1 IN
    Sum([i \in 1..m.k |-> x[r * m.k + i] * val[m.w][(i - 1) * m.m + c]], m.k) + (IF m.b = 0 THEN 0 ELSE val[m.b][c])])
LossOf(y, g) == Sum([i \in DOMAIN y |-> y[i] * g[i]], Len(y))
GradW(m, x, g, bs) == TLCEval([e \in 1..m.k * m.m |-> LET i == ((e - 1) \div m.m) + 1 c == ((e - 1) % m.m) + 1 IN Sum([r \in 1..bs |-> x[(r - 1) * m.k + i] * g[(r - 1) * m.m + c]], bs)])
GradB(m, g, bs) == TLCEval([c \in 1..m.m |-> Sum([r \in 1..bs |-> g[(r - 1) * m.m + c]], bs)])
\* o: [lr, mom, nes]; a variable moves by -lr * gradient plus its momentum
Velocity(o, v, g) == TLCEval([i \in DOMAIN g |-> o.mom * v[i] - o.lr * g[i]])
Move(o, x, v, g) == TLCEval([i \in DOMAIN g |-> x[i] + (IF o.nes = 1 THEN o.mom * Velocity(o, v, g)[i] - o.lr * g[i] ELSE Velocity(o, v, g)[i])])
Grads(m, x, g, bs) == IF m.b = 0 THEN m.w :> GradW(m, x, g, bs) ELSE (m.w :> GradW(m, x, g, bs)) @@ (m.b :> GradB(m, g, bs))
\* one run of a plan: state [val, vel, xs, ys, gs, us, ls (losses)]
Update(m, o, trn, s, x, g, bs) == LET G == Grads(m, x, g, bs) T == { i \in DOMAIN G : trn[i] = 1 } IN
    [s EXCEPT !.val = [i \in DOMAIN @ |-> IF i \in T THEN Move(o, @[i], s.vel[i], G[i]) ELSE @[i]], !.vel = [i \in DOMAIN @ |-> IF i \in T THEN Velocity(o, @[i], G[i]) ELSE @[i]]]
RECURSIVE Runs(_, _, _, _, _, _)
Runs(m, o, trn, c, plan, s) == IF plan = <<>> THEN s ELSE
    LET p == Head(plan) bs == Size(c) x == TLCEval(Rows(c.x, p.l, bs, m.k)) y == Output(m, s.val, x, bs)
        g == TLCEval(IF c.op \in {"predict", "predict_model", "forward"} THEN <<>> ELSE Rows(c.g, p.l, bs, m.m))
        s1 == [s EXCEPT !.xs = Append(@, <<p.ph, x>>), !.ys = Append(@, <<p.ph, y>>), !.gs = IF g = <<>> THEN @ ELSE Append(@, <<p.ph, g>>), !.ls = IF g = <<>> THEN @ ELSE Append(@, LossOf(y, g))]
        s2 == IF p.up THEN [Update(m, o, trn, s1, x, g, bs) EXCEPT !.us = Append(@, <<Len(s1.xs), p.ph>>)] ELSE s1
    IN Runs(m, o, trn, c, Tail(plan), TLCEval(s2))
Call(m, o, trn, c, val, vel) == Runs(m, o, trn, c, Plan(c), [val |-> val, vel |-> vel, xs |-> <<>>, ys |-> <<>>, gs |-> <<>>, us |-> <<>>, ls |-> <<>>])
\* the losses a call reports, as fractions <<sum, number>>: per epoch of fit <<training>>, <<validation>>
Sums(ls, lo, hi) == <<Sum([i \in 1..hi - lo |-> ls[lo + i]], hi - lo), hi - lo>>
Reported(c, ls) == LET n == Batches(c.n, c.bs) t == Training(c.n, c.bs, c.q) IN
    IF c.op = "fit" THEN <<[e \in 1..c.ep |-> Sums(ls, (e - 1) * n, (e - 1) * n + t)], [e \in 1..c.ep |-> Sums(ls, (e - 1) * n + t, e * n)]>>
    ELSE <<<<Sums(ls, 0, Len(ls))>>, <<>>>>
===============================================================================
