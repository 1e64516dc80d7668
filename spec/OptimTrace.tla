------------------------------- MODULE OptimTrace -------------------------------
(* recorded training steps against the update rules of Optim: every element of every variable, before and after.            *)
EXTENDS Optim, Real, Replay
Fin(q) == \A i \in DOMAIN q : q[i][1] < 2000000000
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
MStart == [val |-> <<>>, trn |-> <<>>, loss |-> <<>>, opt |-> <<>>, mom |-> <<>>, last |-> 0, tr |-> <<>>]
Fresh(w) == [i \in DOMAIN w.val |-> [k \in DOMAIN w.val[i].d |-> NoMoment]]
\* the gradient of the loss: what was bound to the place holders of the terms with the variable
Grad(w, e, i) ==
    LET t == w.loss[w.opt[e.i].l] idx == { k \in DOMAIN t : t[k] = i } IN
    [n \in DOMAIN w.val[i].d |-> SumR([k \in 1..Len(t) |-> IF t[k] = i THEN e.c[k].d[n] ELSE Zero])]
\* the moments belong to the optimizer in use: another one starts from zero
Moments(w, e) == IF w.last = e.i /\ DOMAIN w.mom = DOMAIN w.val THEN w.mom ELSE Fresh(w)
Want(w, e) == TLCEval(LET o == w.opt[e.i].o M == Moments(w, e) IN
    [i \in DOMAIN w.val |-> IF w.trn[i] = 0 THEN <<>> ELSE LET g == TLCEval(Grad(w, e, i)) IN [n \in DOMAIN g |-> Rule(o, M[i][n], g[n])]])
\* the recorded change: relative 5e-5; the rounding of the variable itself (float: half an ulp of its value)
Fits(u, x, v) == LET tol == Add(Norm(1, -9), Add(Mul(RAbs(x), Norm(5, -5)), Mul(RAbs(v), Norm(15, -8)))) IN Le(RAbs(Sub(u, x)), tol)
Var(e, i) == e.vs[CHOOSE k \in DOMAIN e.vs : e.vs[k].i = i]
Before(w, e) == \A k \in DOMAIN e.vs : e.vs[k].b = w.val[e.vs[k].i]
Bad(w, e, X, i) == LET v == Var(e, i) IN IF w.trn[i] = 0 THEN v.a # v.b ELSE ~Fin(v.u) \/ \E n \in DOMAIN v.u : ~Fits(v.u[n], X[i][n][1], v.a.d[n])
MWhy(w, e) ==
    IF e.op # "step" THEN {} ELSE
    IF { e.vs[k].i : k \in DOMAIN e.vs } # DOMAIN w.val \/ ~Before(w, e) THEN {"moved"} ELSE
    LET X == Want(w, e) IN { IF w.trn[i] = 0 THEN "frozen" ELSE "update" : i \in { i \in DOMAIN w.val : Bad(w, e, X, i) } }
MTake(w, e) ==
    CASE e.op = "var" -> [w EXCEPT !.val = Put(@, e.i, e.v), !.trn = Put(@, e.i, e.trn)]
      [] e.op = "loss" -> [w EXCEPT !.loss = Put(@, e.i, e.t)]
      [] e.op = "opt" -> [w EXCEPT !.opt = Put(@, e.i, [l |-> e.l, o |-> Made(e.k, e.p, e.bs)])]
      [] e.op = "step" -> LET X == Want(w, e) M == Moments(w, e) IN
            [w EXCEPT !.val = [i \in DOMAIN @ |-> Var(e, i).a], !.last = e.i, !.opt[e.i].o = Stepped(@),
                      !.mom = TLCEval([i \in DOMAIN w.val |-> IF w.trn[i] = 0 THEN M[i] ELSE [n \in DOMAIN X[i] |-> <<X[i][n][2], X[i][n][3]>>]])]
MTell(w, e, why) ==
    IF "moved" \in why THEN ToString(e.vs) ELSE
    LET X == Want(w, e) i == CHOOSE i \in DOMAIN w.val : Bad(w, e, X, i) IN
    w.opt[e.i].o.k \o " step " \o ToString(w.opt[e.i].o.it + 1) \o " parameters " \o ToString(w.opt[e.i].o.p) \o " variable " \o ToString(i) \o
    (IF w.trn[i] = 0 THEN " is frozen and changed" ELSE " gradient " \o ToString(Grad(w, e, i)) \o " expected change " \o ToString([n \in DOMAIN X[i] |-> X[i][n][1]]) \o " got " \o ToString(Var(e, i).u))
===============================================================================
