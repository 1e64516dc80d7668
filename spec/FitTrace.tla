-------------------------------- MODULE FitTrace --------------------------------
(* recorded histories of training, evaluation and prediction with compiled models against Fit                                *)
EXTENDS Fit, Real, Replay
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
MStart == [val |-> <<>>, vel |-> <<>>, trn |-> <<>>, model |-> <<>>, cm |-> <<>>, ph |-> Train]
Silent == {"predict", "predict_model", "forward"}
CallOf(w, e) == e @@ [ph |-> w.ph]
NormCall(w, e) == [op |-> e.op, n |-> e.n, x |-> e.x, g |-> e.g, ph |-> w.ph, bs |-> IF "bs" \in DOMAIN e THEN e.bs ELSE e.n, ep |-> IF e.op = "fit" THEN e.ep ELSE 1, q |-> IF e.op = "fit" THEN e.q ELSE 0]
Want(w, e) == LET c == w.cm[e.i] IN TLCEval(Call(w.model[c.model], c.o, w.trn, NormCall(w, e), w.val, w.vel))
Vals(e) == LET D == { e.vs[k].i : k \in DOMAIN e.vs } IN [i \in D |-> e.vs[CHOOSE k \in DOMAIN e.vs : e.vs[k].i = i].v]
Seconds(q) == [i \in DOMAIN q |-> q[i][2]]
Firsts(q) == [i \in DOMAIN q |-> q[i][1]]
Tol == Norm(1, -6)
\* an empty part has no average
SameErrors(want, got) == Len(want) = Len(got) /\ \A i \in DOMAIN want : want[i][2] = 0 \/ (got[i][1] < 2000000000 /\ Near(got[i], Rat(want[i][1], want[i][2]), Tol, 5))
MWhy(w, e) ==
    IF e.op \in {"var", "model", "compile", "phase"} THEN {} ELSE
    LET X == Want(w, e) R2 == Reported(NormCall(w, e), X.ls) IN
    (IF Seconds(e.xs) = Seconds(X.xs) /\ Seconds(e.gs) = Seconds(X.gs) THEN {} ELSE {"batches"}) \cup
    (IF Seconds(e.ys) = Seconds(X.ys) /\ (e.op \in Silent => (e.y = X.ys[1][2] /\ e.yn = e.n)) THEN {} ELSE {"outputs"}) \cup
    (IF Firsts(e.us) = Firsts(X.us) THEN {} ELSE {"updates"}) \cup
    (IF e.op \in Silent \/ (SameErrors(R2[1], e.e1) /\ SameErrors(R2[2], e.e2)) THEN {} ELSE {"losses"}) \cup
    (IF Vals(e) = X.val THEN {} ELSE {"variables"}) \cup
    (IF e.kept = 1 THEN {} ELSE {"data"}) \cup
    (IF (Len(e.xs) = Len(X.xs) => Firsts(e.xs) = Firsts(X.xs)) /\ (Len(e.ys) = Len(X.ys) => Firsts(e.ys) = Firsts(X.ys)) /\ (Len(e.gs) = Len(X.gs) => Firsts(e.gs) = Firsts(X.gs)) /\ (Len(e.us) = Len(X.us) => Seconds(e.us) = Seconds(X.us)) THEN {} ELSE {"phase"}) \cup
    (IF e.ph = PhaseAfter(NormCall(w, e)) THEN {} ELSE {"restored"})
MTake(w, e) ==
    CASE e.op = "var" -> [w EXCEPT !.val = Put(@, e.i, e.v), !.vel = Put(@, e.i, [k \in DOMAIN e.v |-> 0]), !.trn = Put(@, e.i, e.trn)]
      [] e.op = "model" -> [w EXCEPT !.model = Put(@, e.i, [k |-> e.k, m |-> e.m, w |-> e.w, b |-> e.b])]
      [] e.op = "compile" -> [w EXCEPT !.cm = Put(@, e.i, [model |-> e.model, o |-> [lr |-> e.lr \div e.bs, mom |-> e.mom, nes |-> e.nes]])]
      [] e.op = "phase" -> [w EXCEPT !.ph = e.v]
      [] OTHER -> LET X == Want(w, e) IN [w EXCEPT !.val = X.val, !.vel = X.vel, !.ph = PhaseAfter(NormCall(w, e))]
MTell(w, e, why) == LET X == Want(w, e) IN
    (IF "batches" \in why \/ "updates" \in why \/ "phase" \in why THEN "expected batches " \o ToString(X.xs) \o " updates " \o ToString(X.us) \o " got " \o ToString(e.xs) \o ToString(e.us) ELSE "") \o
    (IF "variables" \in why \/ "outputs" \in why THEN " expected variables " \o ToString(X.val) \o " got " \o ToString(Vals(e)) ELSE "") \o
    (IF "losses" \in why THEN " expected losses " \o ToString(Reported(NormCall(w, e), X.ls)) \o " got " \o ToString(<<e.e1, e.e2>>) ELSE "") \o " phase afterwards " \o ToString(e.ph)
===============================================================================
