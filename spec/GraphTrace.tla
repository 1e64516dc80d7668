----------------------------- MODULE GraphTrace -----------------------------
(* Conformance of recorded programs over expression graphs with the machine of Graph.tla.                              *)
EXTENDS Models, Drawing, Json, IOUtils
Progs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES pid, l, st
vars == <<pid, l, st>>
Ev == Progs[pid].ev
Rec(x) == T(x.s, x.d)
RECURSIVE Show(_)
Show(S) == IF S = {} THEN "" ELSE LET x == CHOOSE x \in S : TRUE IN x \o " " \o Show(S \ {x})
Brief(t) == IF Len(t.d) <= 40 THEN ToString(t) ELSE ToString(t.s) \o " " \o ToString(SubSeq(t.d, 1, 40)) \o " ..."

\* leaves and earlier results, as recorded after a run
LeafReasons(g, e) ==
    { "purity" : i \in { i \in 1..Len(e.vs) : Rec(e.vs[i]) # g.env[e.vs[i].i] } }
OldReasons(g, e) ==
    IF Len(e.old) # Len(g.past) THEN {"old"} ELSE { "old" : i \in { i \in 1..Len(e.old) : Rec(e.old[i]) # g.past[i] } }
CountReasons(g, e, R) == { "count" : i \in { i \in 1..Len(e.fc) : e.fc[i].n # (IF e.fc[i].i \in R THEN 1 ELSE 0) } }
GradReasons(g, e, vals, R) ==
    IF ~AllSmooth(g.nodes, vals, e.i) THEN {}
    ELSE LET adj == Adjoints(g.nodes, vals, e.i) IN
         { "gradient" : i \in { i \in 1..Len(e.g) : LET v == e.g[i].i IN
               v \in R /\ RegSmooth(g.nodes[v], g.env[v]) /\ Rec(e.g[i]) # VarGrad(g.nodes[v], g.env[v], adj[v]) } }
         \cup { "received" : i \in { i \in 1..Len(e.bg) : e.bg[i].i \in R /\ Rec(e.bg[i]) # adj[e.bg[i].i] } }
\* a training step: every variable follows its own gradient, exactly once; frozen variables and bound tensors stay
VarReason(g, e, v, after, vals, adj, R, smooth) ==
    LET node == g.nodes[v] IN
    IF node.p[3] = 0 THEN (IF after # g.env[v] THEN {"frozen"} ELSE {})
    ELSE IF v \in R /\ (~smooth \/ ~RegSmooth(node, g.env[v])) THEN {}
    ELSE IF after # Trained(g, g.opt[e.o], v, IF v \in R THEN VarGrad(node, g.env[v], adj[v]) ELSE Like(g.env[v], 0)) THEN {"trained"} ELSE {}
TrainReasons(g, e) ==
    LET R == Reach(g.nodes, e.i) vals == Eval(g.nodes, g.env, e.i) smooth == AllSmooth(g.nodes, vals, e.i) adj == Adjoints(g.nodes, vals, e.i) IN
    (IF Rec(e) # vals[e.i] THEN {"value"} ELSE {}) \cup OldReasons(g, e)
    \cup UNION { LET v == e.vs[k].i IN IF g.nodes[v].k = "var" THEN VarReason(g, e, v, Rec(e.vs[k]), vals, adj, R, smooth) ELSE IF Rec(e.vs[k]) # g.env[v] THEN {"purity"} ELSE {} : k \in 1..Len(e.vs) }
Reasons(g, e) ==
    CASE e.op \in {"run", "step"} ->
           LET R == Reach(g.nodes, e.i) vals == Eval(g.nodes, g.env, e.i) IN
           (IF Rec(e) # vals[e.i] THEN {"value"} ELSE {}) \cup LeafReasons(g, e) \cup OldReasons(g, e) \cup CountReasons(g, e, R)
           \cup (IF e.op = "step" THEN GradReasons(g, e, vals, R) ELSE {})
      [] e.op = "train" -> TrainReasons(g, e)
      [] e.op = "graph" -> DrawWhy(g.nodes, Eval(g.nodes, g.env, e.i), e)
      [] e.op = "shape" -> IF e.s # Eval(g.nodes, g.env, e.i)[e.i].s THEN {"shape"} ELSE {}
      [] OTHER -> {}
Detail(g, e, why) ==
    LET vals == Eval(g.nodes, g.env, e.i) IN
    CASE "value" \in why -> "expected " \o Brief(vals[e.i]) \o " got " \o Brief(Rec(e))
      [] "shape" \in why -> "expected " \o ToString(vals[e.i].s) \o " got " \o ToString(e.s)
      [] "gradient" \in why -> LET adj == Adjoints(g.nodes, vals, e.i)
                                   i == CHOOSE i \in 1..Len(e.g) : LET v == e.g[i].i IN v \in Reach(g.nodes, e.i) /\ Rec(e.g[i]) # VarGrad(g.nodes[v], g.env[v], adj[v])
                               IN "gradient of node " \o ToString(e.g[i].i) \o " expected " \o Brief(VarGrad(g.nodes[e.g[i].i], g.env[e.g[i].i], adj[e.g[i].i])) \o " got " \o Brief(Rec(e.g[i]))
      [] "trained" \in why \/ "frozen" \in why -> LET adj == Adjoints(g.nodes, vals, e.i) IN "before " \o ToString([v \in VarsOf(g) |-> g.env[v].d]) \o " after " \o ToString([k \in 1..Len(e.vs) |-> <<e.vs[k].i, e.vs[k].d>>])
                     \o " gradients " \o ToString([v \in VarsOf(g) \cap Reach(g.nodes, e.i) |-> VarGrad(g.nodes[v], g.env[v], adj[v]).d])
      [] why \cap {"graph-nodes", "graph-edges", "graph-label"} # {} -> ToString([n |-> e.nodes, e |-> e.edges, ids |-> e.ids, other |-> e.other])
      [] OTHER -> ""
Report(g, e, why) == PrintT("REJECT " \o ToString(Progs[pid].id) \o " " \o ToString(l) \o " " \o e.op \o " : " \o Show(why) \o ": node " \o ToString(e.i) \o " "
                            \o g.nodes[e.i].op \o " " \o Detail(g, e, why))
Init == pid \in 1..Len(Progs) /\ l = 1 /\ st = EmptyG
Consume ==
    /\ l <= Len(Ev)
    /\ LET e == Ev[l] why == Reasons(st, e) IN
       IF why = {} THEN l' = l + 1 /\ st' = MStep(st, e) /\ (l = Len(Ev) => PrintT("OK " \o ToString(Progs[pid].id)))
       ELSE Report(st, e, why) /\ l' = Len(Ev) + 2 /\ st' = st
    /\ UNCHANGED pid
Spec == Init /\ [][Consume]_vars
=============================================================================
