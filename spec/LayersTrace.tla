---------------------------- MODULE LayersTrace ----------------------------
EXTENDS Layers, Replay
Rec(x) == T(x.s, x.d)
Brief(t) == IF Len(t.d) <= 40 THEN ToString(t) ELSE ToString(t.s) \o " " \o ToString(SubSeq(t.d, 1, 40)) \o " ..."
\* a kernel starts inside the bounds of its distribution, a bias at zero
Inited(w, k) == IF k = 1 THEN w.z = 0 /\ w.m * w.m * (w.s[1] + w.s[2]) <= 6010000 ELSE w.z = 1
WeightReasons(g, e) ==
    LET ws == WeightsAt(g, e) IN
    IF Len(ws) # Len(e.ws) THEN {"weights"}
    ELSE { "weights" : k \in { k \in 1..Len(ws) : e.ws[k].s # ws[k].s \/ e.ws[k].p # ws[k].p \/ ~Inited(e.ws[k], k) } }
ValueReasons(g, e, vals) ==
    (IF Rec(e) # vals[e.i] THEN {"value"} ELSE {}) \cup { "purity" : i \in { i \in 1..Len(e.vs) : Rec(e.vs[i]) # g.env[e.vs[i].i] } }
GradReasons(g, e, vals) ==
    IF ~AllSmooth(g.nodes, vals, e.i) THEN {}
    ELSE LET adj == Adjoints(g.nodes, vals, e.i) R == Reach(g.nodes, e.i) IN
         { "gradient" : i \in { i \in 1..Len(e.g) : LET v == e.g[i].i IN
               v \in R /\ RegSmooth(g.nodes[v], g.env[v]) /\ Rec(e.g[i]) # VarGrad(g.nodes[v], g.env[v], adj[v]) } }
MStart == EmptyG
MWhy(g, e) ==
    CASE e.op = "layer" -> WeightReasons(g, e)
      [] e.op = "run"   -> ValueReasons(g, e, Eval(g.nodes, g.env, e.i))
      [] e.op = "step"  -> LET vals == Eval(g.nodes, g.env, e.i) IN ValueReasons(g, e, vals) \cup GradReasons(g, e, vals)
      [] e.op = "predict" -> LET h == Predicted(g, e) IN ValueReasons(h, e, Eval(h.nodes, h.env, e.i)) \cup (IF e.after # 1 THEN {"phase"} ELSE {})
      [] e.op = "shape" -> IF e.s # ShapeNow(g, e.i) THEN {"shape"} ELSE {}
      [] OTHER -> {}
MTake(g, e) == IF e.op \in {"run", "step"} THEN g ELSE LStep(g, e)
MTell(g, e, why) ==
    IF "weights" \in why THEN e.k \o " expected " \o ToString(WeightsAt(g, e)) \o " got " \o ToString(e.ws)
    ELSE LET h == IF e.op = "predict" THEN Predicted(g, e) ELSE g vals == Eval(h.nodes, h.env, e.i) IN
         "node " \o ToString(e.i) \o " " \o h.nodes[e.i].op \o " " \o
         (IF "value" \in why THEN "expected " \o Brief(vals[e.i]) \o " got " \o Brief(Rec(e))
          ELSE IF "shape" \in why THEN "expected " \o ToString(vals[e.i].s) \o " got " \o ToString(e.s)
          ELSE IF "gradient" \in why THEN LET adj == Adjoints(h.nodes, vals, e.i) IN "gradients expected "
                   \o ToString([v \in VarsOf(h) \cap Reach(h.nodes, e.i) |-> VarGrad(h.nodes[v], h.env[v], adj[v])]) \o " got " \o ToString(e.g)
          ELSE "")
=============================================================================
