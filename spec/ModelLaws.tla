----------------------------- MODULE ModelLaws -----------------------------
(* What it means to apply a model: the applied expression has the value of the model's own output with its input bound to   *)
(* the value of the argument; its gradients are those of the model's output, those of the argument continuing with the     *)
(* gradient of the input; freezing a model is freezing its variables in every expression.                                  *)
EXTENDS Models, TLC
CONSTANT Mutant     \* "none", or what must break the laws: "own" (a copy of the variables), "hole" (the hole kept)
S == <<2, 2>>
Pat(i) == T(S, [k \in 1..4 |-> ((k * 5 + i * 7) % 13) - 6 + (IF (k + i) % 2 = 0 THEN 0 ELSE 2)])
Var(g, i) == GStep(g, [op |-> "var", p |-> <<0, 0, 1>>, s |-> S, d |-> Pat(i).d])
\* nodes 1..3: variables of the model, 4: a variable of the argument, 5: the argument; 6: the model's input
Base(i) == FoldLeft(LAMBDA g, j : Var(g, i + j), EmptyG, Iota(4))
WithArg(g) == AddNode(g, [k |-> "node", op |-> "muls", a |-> <<4>>, p |-> <<2>>], None)
WithModel(g, k) == MStep(g, [op |-> "model", m |-> 1, k |-> k, vs |-> <<1, 2, 3>>])
Hole == 6
VARIABLES k, i
Init == k \in 1..18 /\ i \in 1..40
Next == UNCHANGED <<k, i>>
Spec == Init /\ [][Next]_<<k, i>>
G0 == [WithModel(WithArg(Base(i)), k) EXCEPT !.env[Hole] = Pat(i + 5)]     \* some earlier binding
Root == Len(G0.nodes)
G1 == CASE Mutant = "own" -> LET h == Var(G0, i + 9) IN Instantiate(h, k, <<Len(h.nodes), 2, 3>>, 5)
        [] Mutant = "hole" -> Instantiate(G0, k, <<1, 2, 3>>, Hole)
        [] OTHER -> MStep(G0, [op |-> "apply", m |-> 1, j |-> 5])
Applied == Len(G1.nodes)
ArgValue == Eval(G0.nodes, G0.env, 5)[5]
EnvOwn == [G0.env EXCEPT ![Hole] = ArgValue]
Vals1 == Eval(G1.nodes, G1.env, Applied)
Vals0 == Eval(G0.nodes, EnvOwn, Root)
SubstitutionOfValues == Vals1[Applied] = Vals0[Root]
NoHole == Hole \notin Reach(G1.nodes, Applied)
A1 == Adjoints(G1.nodes, Vals1, Applied)
A0 == Adjoints(G0.nodes, Vals0, Root)
ChainOfGradients ==
    /\ \A v \in 1..3 : v \in Reach(G0.nodes, Root) => A1[v] = A0[v]
    /\ A1[5] = A0[Hole] /\ A1[4] = Map(A0[Hole], LAMBDA x : 2 * x)
FreezingIsShared ==
    LET h == MStep(G1, [op |-> "freeze", m |-> 1, v |-> 0]) IN
    /\ \A v \in 1..4 : (h.nodes[v].p[3] = 0) = (v <= 3)
    /\ MStep(h, [op |-> "freeze", m |-> 1, v |-> 1]) = G1
=============================================================================
