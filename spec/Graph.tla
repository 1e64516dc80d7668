-------------------------------- MODULE Graph --------------------------------
(* Expression graphs in a session.  A graph is the sequence of its nodes in the order of construction (so the arguments *)
(* of a node precede it).  The environment gives the leaves (variables, place holders, constants) their tensors.        *)
(* Running a node evaluates the graph afresh in the environment of the moment; nothing else may influence the result.   *)
EXTENDS GraphOps, FiniteSets
None == T(<<>>, <<>>)
Leaf(n) == n.k # "node"
ArgsOf(nodes, j) == IF Leaf(nodes[j]) THEN {} ELSE { nodes[j].a[k] : k \in 1..Len(nodes[j].a) }
Reach(nodes, root) == FoldLeft(LAMBDA S, j : IF j \in S THEN S \cup ArgsOf(nodes, j) ELSE S, {root}, [i \in 1..root |-> root + 1 - i])
ArgVals(nodes, vals, j) == [k \in 1..Len(nodes[j].a) |-> vals[nodes[j].a[k]]]
\* values of all nodes the root depends on
Eval(nodes, env, root) ==
    LET R == Reach(nodes, root) IN
    FoldLeft(LAMBDA vals, j : Append(vals, IF j \notin R THEN None
                                           ELSE IF Leaf(nodes[j]) THEN env[j]
                                           ELSE Apply(nodes[j].op, ArgVals(nodes, vals, j), nodes[j].p)),
             <<>>, Iota(root))
AllSmooth(nodes, vals, root) == \A j \in Reach(nodes, root) : Leaf(nodes[j]) \/ Smooth(nodes[j].op, ArgVals(nodes, vals, j), nodes[j].p)
\* reverse accumulation: the adjoint of every node, for the seed <1, root>
AddTo(adj, i, t) == [adj EXCEPT ![i] = IF @ = None THEN t ELSE ZipSame(@, t, LAMBDA a, b : a + b)]
Adjoints(nodes, vals, root) ==
    FoldLeft(LAMBDA adj, j :
                IF adj[j] = None \/ Leaf(nodes[j]) THEN adj
                ELSE LET xs == ArgVals(nodes, vals, j) IN
                     FoldLeft(LAMBDA ad, k : AddTo(ad, nodes[j].a[k], Vjp(nodes[j].op, xs, nodes[j].p, adj[j], k)), adj, Iota(Len(nodes[j].a))),
             [i \in 1..root |-> IF i = root THEN Like(vals[root], 1) ELSE None],
             [i \in 1..root |-> root + 1 - i])
\* what a variable accumulates: its adjoint plus the derivative of its own regularization, once; nothing if it is frozen
VarGrad(node, val, adj) ==
    IF node.p[3] = 0 THEN Like(val, 0)
    ELSE T(val.s, [k \in 1..Len(val.d) |-> adj.d[k] + node.p[1] * (IF val.d[k] >= 0 THEN 1 ELSE -1) + 2 * node.p[2] * val.d[k]])
RegSmooth(node, val) == node.p[1] = 0 \/ node.p[3] = 0 \/ \A k \in 1..Len(val.d) : val.d[k] # 0

\* optimizers: each variable follows its gradient with a momentum; variables the loss does not reach have gradient zero
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Momentum(g, v) == IF v \in DOMAIN g.mom THEN g.mom[v] ELSE Like(g.env[v], 0)
VarsOf(g) == { v \in 1..Len(g.nodes) : g.nodes[v].k = "var" }
Trained(g, o, v, grad) == ZipSame(g.env[v], ZipSame(Momentum(g, v), grad, LAMBDA m, x : o.mom * m - o.lr * x), LAMBDA a, b : a + b)
Moved(g, vals) == [v \in VarsOf(g) |-> IF g.nodes[v].p[3] = 0 THEN Momentum(g, v) ELSE ZipSame(vals[v], g.env[v], LAMBDA a, b : a - b)]    \* a frozen variable keeps its momentum
\* the machine: construction, assignment to variables, binding of place holders, runs and training steps
EmptyG == [nodes |-> <<>>, env |-> <<>>, past |-> <<>>, opt |-> <<>>, mom |-> <<>>, models |-> <<>>]
AddNode(g, n, t) == [g EXCEPT !.nodes = Append(@, n), !.env = Append(@, t)]
GStep(g, e) ==
    CASE e.op \in {"var", "con"} -> AddNode(g, [k |-> e.op, op |-> e.op, a |-> <<>>, p |-> e.p], T(e.s, e.d))
      [] e.op = "ph"   -> AddNode(g, [k |-> "ph", op |-> "ph", a |-> <<>>, p |-> <<>>], None)
      [] e.op = "node" -> AddNode(g, [k |-> "node", op |-> e.k, a |-> e.a, p |-> e.p], None)
      [] e.op = "vfreeze" -> [g EXCEPT !.nodes[e.i].p[3] = e.v]
      [] e.op = "set"  -> [g EXCEPT !.env[e.i].d = e.d]
      [] e.op = "bind" -> [g EXCEPT !.env[e.i] = T(e.s, e.d)]
      [] e.op \in {"run", "step"} -> [g EXCEPT !.past = Append(@, Eval(g.nodes, g.env, e.i)[e.i])]
      [] e.op = "opt" -> [g EXCEPT !.opt = Put(@, e.o, [i |-> e.i, lr |-> e.lr, mom |-> e.mom])]
      [] e.op = "train" -> \* the recorded values of the variables (which the machine determines where the loss is differentiable)
            LET at == [v \in { e.vs[k].i : k \in 1..Len(e.vs) } |-> LET k == CHOOSE k \in 1..Len(e.vs) : e.vs[k].i = v IN T(e.vs[k].s, e.vs[k].d)] IN
            [g EXCEPT !.past = Append(@, Eval(g.nodes, g.env, e.i)[e.i]), !.env = [v \in 1..Len(@) |-> IF v \in VarsOf(g) THEN at[v] ELSE @[v]], !.mom = Moved(g, at)]
      [] OTHER -> g
=============================================================================
