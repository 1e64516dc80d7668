------------------------------ MODULE PhaseTrace ------------------------------
(* recorded runs of chains of phase dependent operators against Phase; the probes give every stage's input, output and      *)
(* gradients, so that every stage is judged by itself                                                                      *)
EXTENDS Phase, Real, Replay
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
MStart == [st |-> <<>>, ab |-> <<>>]
IsDrop(k) == k \in {"dropout", "dropout_alias", "Dropout"}
IsNorm(k) == k \in {"bn", "batch_normalization", "BatchNormalization"}
Ones(n) == [c \in 1..n |-> One]
Zeros(n) == [c \in 1..n |-> Zero]
Gamma(w, s, n) == IF s.v = 0 THEN Ones(n) ELSE w.ab[s.v].gamma
Beta(w, s, n) == IF s.v = 0 THEN Zeros(n) ELSE w.ab[s.v].beta
\* tolerances follow the size of the data and the deviation they are divided by
DevMin(x, run, ph) == LET ss == Force(x, run, ph) IN IF ss = NoStats THEN One ELSE LET RECURSIVE S(_, _) S(c, m) == IF c > Len(ss) THEN m ELSE S(c + 1, TLCEval(RMin(m, Dev(ss, c)))) IN S(1, One)
TolY(x, d, gm) == Mul(Norm(3, -6), Div(Mul(Add(One, MaxAbs(x.d)), Add(One, MaxAbs(gm))), d))
TolG(x, d, h, g) == Mul(Norm(4, -6), Div(Mul(Mul(MaxAbs(g), Add(Two, Sq(MaxAbs(h)))), Add(One, MaxAbs(x.d))), d))
AllClose(want, got, tol) == Len(want) = Len(got) /\ Fin(got) /\ \A i \in DOMAIN want : Close(want[i], got[i], tol)
NormWant(w, s, x, ph) == LET n == Channels(x) IN Affine(Hat(x, s.run, ph), Gamma(w, s, n), Beta(w, s, n))
NormFits(w, s, x, y, ph) == x.s = y.s /\ AllClose(NormWant(w, s, x, ph), y.d, TolY(x, DevMin(x, s.run, ph), Gamma(w, s, Channels(x))))
GammaG(w, s, g, n) == TLCEval([i \in DOMAIN g |-> Mul(g[i], Gamma(w, s, n)[((i - 1) % n) + 1])])
NormGradFits(w, s, x, gi, go) == LET n == Channels(x) h == Hat(x, s.run, Learning) IN
    x.s = go.s /\ AllClose(HatGrad(x, h, GammaG(w, s, gi.d, n), Stats(x)), go.d, TolG(x, DevMin(x, s.run, Learning), h, GammaG(w, s, gi.d, n)))
ParamGradFits(w, s, x, gi, gg) == s.v = 0 \/ LET n == Channels(x) h == Hat(x, s.run, Learning) t == Mul(TolG(x, DevMin(x, s.run, Learning), h, gi.d), R(Rows(x))) IN
    AllClose(ColSum([i \in DOMAIN h |-> Mul(h[i], gi.d[i])], n), gg[1].d, t) /\ AllClose(ColSum(gi.d, n), gg[2].d, t)
RECURSIVE Volume(_)
Volume(q) == IF q = <<>> THEN 1 ELSE Head(q) * Volume(Tail(q))
Whole(x) == x.s # <<>> /\ Len(x.d) = Volume(x.s)
\* the running averages belong to the operator object, which may be applied by several stages
Stage(w, i) == [w.st[i] EXCEPT !.run = w.st[w.st[i].own].run]
\* what is wrong with a stage, and whether the other phase explains it
StageWhy(w, e, i) ==
    LET s == Stage(w, i) x == e.f[i] y == e.f[i + 1] IN
    IF ~Whole(x) \/ ~Whole(y) \/ (e.back = 1 /\ (e.b[i + 1].s # y.s \/ ~Whole(e.b[i + 1]) \/ ~Whole(e.b[i]))) THEN (IF IsDrop(s.k) THEN {"dropout"} ELSE IF IsNorm(s.k) THEN {"norm"} ELSE {"slide"}) ELSE
    IF IsDrop(s.k) THEN
        (IF e.ph = Learning THEN (IF DropFits(x, y, s.p) /\ Plausible(x, y, s.p) THEN {} ELSE {"dropout"}) ELSE (IF Same(x, y) THEN {} ELSE {"dropout"})) \cup
        (IF e.ph = Learning THEN (IF NothingDropped(x, y, s.p) THEN {"otherphase"} ELSE {}) ELSE (IF Same(x, y) THEN {} ELSE {"otherphase"})) \cup
        (IF e.back = 0 THEN {} ELSE IF e.ph = Learning THEN (IF DropGradFits(x, y, e.b[i + 1], e.b[i], s.p) THEN {} ELSE {"dropgrad"})
                               ELSE IF Same(e.b[i + 1], e.b[i]) THEN {} ELSE {"dropgrad", "otherphase"})
    ELSE IF IsNorm(s.k) THEN
        IF s.v # 0 /\ Len(w.ab[s.v].gamma) # Channels(x) THEN {"layer"} ELSE
        (IF NormFits(w, s, x, y, e.ph) THEN {} ELSE {"norm"} \cup (IF s.run # NoStats /\ NormFits(w, s, x, y, 1 - e.ph) THEN {"otherphase"} ELSE {})) \cup
        (IF e.back = 0 \/ e.ph # Learning THEN {} ELSE (IF NormGradFits(w, s, x, e.b[i + 1], e.b[i]) THEN {} ELSE {"normgrad"}) \cup (IF ParamGradFits(w, s, x, e.b[i + 1], IF s.v = 0 THEN <<>> ELSE e.gs[s.v]) THEN {} ELSE {"normgrad"}))
    ELSE LET p == FloorI(s.p) IN
        (IF e.ph = Learning THEN (IF SlideFits(x, y, p) THEN {} ELSE {"slide"}) ELSE (IF Same(x, y) THEN {} ELSE {"slide", "otherphase"})) \cup
        (IF e.ph = Learning /\ NothingMoved(x, y, p) THEN {"otherphase", "slide"} ELSE {}) \cup
        (IF e.back = 0 \/ e.ph # Learning THEN {} ELSE IF SlideGradFits(x, y, e.b[i + 1], e.b[i], p) THEN {} ELSE {"slidegrad"})
N(w) == Len(w.st)
Shown(w, e) == Len(e.f) = N(w) + 1 /\ (e.back = 1 => Len(e.b) = N(w) + 1)
MWhy(w, e) ==
    IF e.op = "stage" THEN (IF e.v = 0 /\ e.k \in {"batch_normalization", "BatchNormalization"} THEN {"layer"}
                            ELSE IF e.v = 0 THEN {} ELSE IF e.gt = 1 /\ e.bt = 1 /\ Len(e.gamma.d) = e.ch /\ Len(e.beta.d) = e.ch /\ (\A c \in DOMAIN e.gamma.d : e.gamma.d[c] = One) /\ (\A c \in DOMAIN e.beta.d : e.beta.d[c] = Zero) THEN {} ELSE {"layer"})
    ELSE IF e.op # "run" THEN {}
    ELSE UNION { StageWhy(w, e, i) : i \in 1..N(w) } \cup
        (IF e.y = e.f[N(w) + 1] /\ \A i \in DOMAIN e.fc : e.fc[i] = 1 THEN {} ELSE {"once"}) \cup
        (IF e.back = 1 /\ (e.b[N(w) + 1] # e.g \/ \E i \in DOMAIN e.bc : e.bc[i] # 1) THEN {"once"} ELSE {}) \cup
        (IF e.kept = 1 /\ e.after = e.ph THEN {} ELSE {"kept"})
Learned(w, e) == IF e.ph # Learning THEN w.st ELSE
    LET RECURSIVE L(_, _) L(q, i) == IF i > Len(q) THEN q ELSE L(TLCEval(IF IsNorm(q[i].k) THEN [q EXCEPT ![q[i].own].run = Running(@, Stats(e.f[i]), q[i].p)] ELSE q), i + 1) IN L(w.st, 1)
MTake(w, e) ==
    CASE e.op = "input" -> w
      [] e.op = "stage" -> [w EXCEPT !.st = Append(@, [k |-> e.k, p |-> e.p, v |-> e.v, own |-> e.own, run |-> NoStats]), !.ab = IF e.v = 0 THEN @ ELSE Put(@, e.v, [gamma |-> e.gamma.d, beta |-> e.beta.d])]
      [] e.op = "set" -> [w EXCEPT !.ab = Put(@, e.v, [gamma |-> e.gamma.d, beta |-> e.beta.d])]
      [] e.op = "run" -> [w EXCEPT !.st = TLCEval(Learned(w, e))]
MTell(w, e, why) ==
    IF e.op # "run" \/ \A i \in 1..N(w) : StageWhy(w, e, i) = {} THEN ToString(e) ELSE
    LET i == CHOOSE i \in 1..N(w) : StageWhy(w, e, i) # {} s == Stage(w, i) IN
    s.k \o " " \o ToString(s.p) \o " phase " \o ToString(e.ph) \o " input " \o ToString(e.f[i]) \o
    (IF IsNorm(s.k) THEN " running " \o ToString(s.run) \o " expected " \o ToString(NormWant(w, s, e.f[i], e.ph)) ELSE "") \o " got " \o ToString(e.f[i + 1]) \o
    (IF e.back = 1 THEN " gradient in " \o ToString(e.b[i + 1]) \o " out " \o ToString(e.b[i]) \o
       (IF IsNorm(s.k) THEN " expected " \o ToString(LET n == Channels(e.f[i]) IN HatGrad(e.f[i], Hat(e.f[i], s.run, Learning), GammaG(w, s, e.b[i + 1].d, n), Stats(e.f[i]))) ELSE "") ELSE "")
===============================================================================
