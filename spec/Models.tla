------------------------------- MODULE Models -------------------------------
(* Models: an expression with a hole (its input).  A template is a sequence of nodes whose arguments are 0 (the hole),     *)
(* j > 0 (the j-th node of the template) or -j (the j-th variable of the model).  The output of a model, a prediction and  *)
(* the application of a model to another expression are all the template with the hole filled; the variables are shared.   *)
EXTENDS Graph
N_(op, a, p) == [op |-> op, a |-> a, p |-> p]
Template(k) ==
    CASE k = 1  -> <<N_("plus", <<0, -1>>, <<>>)>>
      [] k = 2  -> <<N_("mm", <<0, -1>>, <<>>), N_("plus", <<1, -2>>, <<>>)>>
      [] k = 3  -> <<N_("mm", <<0, -1>>, <<>>), N_("plus", <<1, -2>>, <<>>), N_("relu", <<2>>, <<>>)>>
      [] k = 4  -> <<N_("mm", <<0, -1>>, <<>>), N_("plus", <<1, -2>>, <<>>), N_("relu", <<2>>, <<>>), N_("mm", <<3, -3>>, <<>>)>>
      [] k = 5  -> <<N_("square", <<0>>, <<>>), N_("minus", <<1, 0>>, <<>>)>>
      [] k = 6  -> <<N_("emul", <<0, -1>>, <<>>), N_("abs", <<1>>, <<>>), N_("minus", <<2, 1>>, <<>>)>>
      [] k = 7  -> <<N_("emul", <<0, -1>>, <<>>), N_("adds", <<1>>, <<2>>)>>
      [] k = 8  -> <<N_("square", <<0>>, <<>>), N_("rsum", <<1>>, <<0>>)>>
      [] k = 9  -> <<N_("flatten", <<0>>, <<>>), N_("muls", <<1>>, <<3>>)>>
      [] k = 10 -> <<N_("maximum", <<0, -1>>, <<>>), N_("minus", <<-1, 1>>, <<>>)>>
      [] k = 11 -> <<N_("concat", <<0, -1>>, <<0>>)>>
      [] k = 12 -> <<N_("ssub", <<0>>, <<2>>)>>
      [] k = 13 -> <<N_("neg", <<0>>, <<>>), N_("vrmul", <<1>>, <<3>>)>>
      [] k = 14 -> <<N_("mm", <<0, -3>>, <<>>), N_("relu", <<1>>, <<>>), N_("mm", <<2, -1>>, <<>>), N_("plus", <<3, -2>>, <<>>)>>
      [] k = 15 -> <<N_("emul", <<0, -1>>, <<>>), N_("plus", <<1, -1>>, <<>>)>>
      [] k = 16 -> <<N_("neg", <<0>>, <<>>), N_("plus", <<1, -1>>, <<>>), N_("square", <<2>>, <<>>), N_("minus", <<3, 0>>, <<>>)>>
      [] k = 17 -> <<N_("emul", <<0, 0>>, <<>>), N_("sumall", <<1>>, <<>>)>>
      [] k = 18 -> <<N_("transpose", <<0>>, <<>>), N_("identity", <<1>>, <<>>)>>
\* the nodes of a template appended to a graph, with the hole filled by node `hole`
Instantiate(g, k, vs, hole) ==
    LET base == Len(g.nodes) 
        ref(r) == IF r = 0 THEN hole ELSE IF r > 0 THEN base + r ELSE vs[-r]
    IN FoldLeft(LAMBDA h, n : AddNode(h, [k |-> "node", op |-> n.op, a |-> [i \in 1..Len(n.a) |-> ref(n.a[i])], p |-> n.p], None), g, Template(k))
MStep(g, e) ==
    CASE e.op = "model" -> \* its input is a place holder of its own
            LET h == AddNode(g, [k |-> "ph", op |-> "ph", a |-> <<>>, p |-> <<>>], None) IN
            [Instantiate(h, e.k, e.vs, Len(h.nodes)) EXCEPT !.models = Put(@, e.m, [k |-> e.k, vs |-> e.vs])]
      [] e.op = "apply" -> Instantiate(g, g.models[e.m].k, g.models[e.m].vs, e.j)
      [] e.op = "freeze" -> \* every variable of the model, for every expression that uses it
            LET S == { g.models[e.m].vs[i] : i \in 1..Len(g.models[e.m].vs) } IN
            [g EXCEPT !.nodes = [i \in 1..Len(@) |-> IF i \in S /\ @[i].k = "var" THEN [@[i] EXCEPT !.p = [@ EXCEPT ![3] = e.v]] ELSE @[i]]]
      [] OTHER -> GStep(g, e)
=============================================================================
