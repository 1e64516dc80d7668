--------------------------------- MODULE Phase ---------------------------------
(* Operators that behave differently while learning and while predicting: dropout, batch normalization, random shifts of     *)
(* images.  Values are reals (Real.tla) in row-major order; the last dimension of a batch are its channels.                 *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
LOCAL INSTANCE Real
Learning == 1
Eps8 == Norm(1, -8)
Fin(q) == \A i \in DOMAIN q : q[i][1] < 2000000000
MaxAbs(q) == LET RECURSIVE S(_, _) S(i, m) == IF i > Len(q) THEN m ELSE S(i + 1, TLCEval(RMax(m, RAbs(q[i])))) IN S(1, Zero)
Close(a, b, tol) == Le(RAbs(Sub(a, b)), Add(tol, Mul(RAbs(a), Norm(1, -5))))
Same(a, b) == a.s = b.s /\ \A i \in DOMAIN a.d : Close(a.d[i], b.d[i], Norm(1, -9))
\* --- dropout of rate r: an element is zero, or the scaled input
Keep(r) == Div(One, Sub(One, r))
Scaled(x, y, r) == Close(Mul(x, Keep(r)), y, Norm(1, -9))
DropFits(x, y, r) == x.s = y.s /\ Fin(y.d) /\ \A i \in DOMAIN x.d : y.d[i] = Zero \/ Scaled(x.d[i], y.d[i], r)
\* where the input is not zero its output tells whether it survived
Survives(x, y, i) == x.d[i] # Zero /\ y.d[i] # Zero
Dropped(x, y, i) == x.d[i] # Zero /\ y.d[i] = Zero
Count(f, n) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE (IF f[i] THEN 1 ELSE 0) + S(i - 1) IN S(n)
\* about the given part of many elements is dropped (ten standard deviations of slack); an input that is zero tells nothing
Telling(x) == Count([i \in DOMAIN x.d |-> x.d[i] # Zero], Len(x.d))
Plausible(x, y, r) == LET n == Telling(x) k == Count([i \in DOMAIN x.d |-> Dropped(x, y, i)], Len(x.d)) IN n < 200 \/ Lt(RAbs(Sub(Rat(k, n), r)), Norm(36, -2))
\* nothing was dropped although that is next to impossible (0.9^200)
NothingDropped(x, y, r) == Le(Norm(1, -1), r) /\ Telling(x) >= 200 /\ Same(x, y)
DropGradFits(x, y, gi, go, r) == gi.s = go.s /\ Fin(go.d) /\ \A i \in DOMAIN x.d :
    IF Survives(x, y, i) THEN Scaled(gi.d[i], go.d[i], r) ELSE IF Dropped(x, y, i) THEN go.d[i] = Zero ELSE go.d[i] = Zero \/ Scaled(gi.d[i], go.d[i], r)
\* --- batch normalization: columns are channels
Channels(x) == x.s[Len(x.s)]
Rows(x) == Len(x.d) \div Channels(x)
Col(x, c) == LET n == Channels(x) IN [r \in 1..Rows(x) |-> x.d[(r - 1) * n + c]]
Avg(q) == DivI(SumR(q), Len(q))
Var(q) == LET m == TLCEval(Avg(q)) IN DivI(SumR([i \in DOMAIN q |-> Sq(Sub(q[i], m))]), Len(q))
Stats(x) == TLCEval([c \in 1..Channels(x) |-> LET q == TLCEval(Col(x, c)) IN [m |-> Avg(q), v |-> Var(q)]])
Dev(st, c) == Sqrt(Add(st[c].v, Eps8))
\* running statistics: exponential averages that start from zero
NoStats == <<>>
Running(run, st, mom) == TLCEval([c \in DOMAIN st |-> LET old == IF run = NoStats THEN [m |-> Zero, v |-> Zero] ELSE run[c] IN
    [m |-> Add(Mul(old.m, mom), Mul(st[c].m, Sub(One, mom))), v |-> Add(Mul(old.v, mom), Mul(st[c].v, Sub(One, mom)))]])
Normalised(x, st) == TLCEval(LET n == Channels(x) D == TLCEval([c \in 1..n |-> Dev(st, c)]) IN [i \in DOMAIN x.d |-> LET c == ((i - 1) % n) + 1 IN Div(Sub(x.d[i], st[c].m), D[c])])
\* statistics in force: of this batch when learning, the running ones when predicting (none before anything was learned: the input passes)
Force(x, run, ph) == IF ph = Learning THEN Stats(x) ELSE run
Hat(x, run, ph) == LET st == Force(x, run, ph) IN IF st = NoStats THEN x.d ELSE Normalised(x, st)
Affine(h, gamma, beta) == LET n == Len(gamma) IN TLCEval([i \in DOMAIN h |-> LET c == ((i - 1) % n) + 1 IN Add(Mul(h[i], gamma[c]), beta[c])])
\* gradient while learning: the derivative of the normalised value goes through the statistics of the batch as well
HatGrad(x, h, g, st) == TLCEval(LET n == Channels(x) rows == Rows(x)
    A == TLCEval([c \in 1..n |-> [m |-> Avg([r \in 1..rows |-> g[(r - 1) * n + c]]), p |-> Avg([r \in 1..rows |-> Mul(g[(r - 1) * n + c], h[(r - 1) * n + c])]), d |-> Dev(st, c)]]) IN
    [i \in DOMAIN g |-> LET c == ((i - 1) % n) + 1 IN Div(Sub(Sub(g[i], A[c].m), Mul(h[i], A[c].p)), A[c].d)])
ColSum(q, n) == TLCEval([c \in 1..n |-> SumR([r \in 1..(Len(q) \div n) |-> q[(r - 1) * n + c]])])
\* --- a random shift of every channel by at most p rows and columns, the same for all images of the batch; zeros move in
Pix(x, b, r, c, ch) == IF r < 0 \/ r >= x.s[2] \/ c < 0 \/ c >= x.s[3] THEN Zero ELSE x.d[((b * x.s[2] + r) * x.s[3] + c) * x.s[4] + ch + 1]
ShiftedBy(x, y, ch, dr, dc) == \A b \in 0..x.s[1] - 1, r \in 0..x.s[2] - 1, c \in 0..x.s[3] - 1 : Pix(y, b, r, c, ch) = Pix(x, b, r - dr, c - dc, ch)
Shifts(x, y, ch, p) == { d \in (-p..p) \X (-p..p) : ShiftedBy(x, y, ch, d[1], d[2]) }
SlideFits(x, y, p) == x.s = y.s /\ \A ch \in 0..x.s[4] - 1 : Shifts(x, y, ch, p) # {}
\* nothing moved although that is next to impossible: nine channels or more that show they stayed
NothingMoved(x, y, p) == p >= 1 /\ Same(x, y) /\ Count([c \in 1..x.s[4] |-> Shifts(x, y, c - 1, p) = {<<0, 0>>}], x.s[4]) >= 9
\* the gradient moves back by one of the shifts that explain the output
SlideGradFits(x, y, gi, go, p) == gi.s = go.s /\ \A ch \in 0..x.s[4] - 1 : \E d \in Shifts(x, y, ch, p) : ShiftedBy(gi, go, ch, -d[1], -d[2])
===============================================================================
