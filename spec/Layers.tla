------------------------------- MODULE Layers -------------------------------
(* Layers: functions from expressions to expressions that bring their own weights.  A layer applied to nodes adds its     *)
(* weights to the graph (kernel, then bias, as variables of the session) and then the operators it is composed of; what   *)
(* it computes, and the gradients of its weights, are those of the composition.                                           *)
EXTENDS Graph
Channels(s) == s[Len(s)]
\* p: the parameters of a layer, q = <<l1 and l2 of the kernel, l1 and l2 of the bias, is there a bias>>

Weights(k, s, p, q) ==
    LET W(sh) == [s |-> sh, p |-> <<q[1], q[2], 1>>] B(sh) == [s |-> sh, p |-> <<q[3], q[4], q[5]>>] IN
    CASE k = "Dense" -> <<W(<<Channels(s), p[1]>>), B(<<1, p[1]>>)>>
      [] k \in {"Conv2D", "Conv2Di", "Conv2DTranspose"} -> <<W(<<p[1], p[2], p[3], Channels(s)>>), B(<<1, 1, p[1]>>)>>
      [] k = "Conv1D" -> <<W(<<p[1], p[2], 1, Channels(s)>>), B(<<1, 1, p[1]>>)>>
      [] OTHER -> <<>>
\* the operators of the layer on the nodes a; the kernel is node n + 1, the bias node n + 2
Op(op, a, p) == [k |-> "node", op |-> op, a |-> a, p |-> p]
Body(k, a, n, p) ==
    CASE k = "Dense"  -> <<Op("mm", <<a[1], n + 1>>, <<>>), Op("plus", <<n + 3, n + 2>>, <<>>)>>
      [] k \in {"Conv2D", "Conv2Di"} -> <<Op("conv", <<a[1], n + 1>>, SubSeq(p, 4, 8)), Op("plus", <<n + 3, n + 2>>, <<>>)>>
      [] k = "Conv2DTranspose" -> <<Op("convt", <<a[1], n + 1>>, SubSeq(p, 2, 8)), Op("plus", <<n + 3, n + 2>>, <<>>)>>
      [] k = "Conv1D" -> <<Op("expand", a, <<2>>), Op("conv", <<n + 3, n + 1>>, <<p[3], 1, p[4], 1, p[5]>>), Op("plus", <<n + 4, n + 2>>, <<>>), Op("squeeze", <<n + 5>>, <<2>>)>>
      [] k = "Concatenate" -> <<Op("concat", a, p)>>
      [] k = "Add"      -> <<Op("plus", a, <<>>)>>
      [] k = "Subtract" -> <<Op("minus", a, <<>>)>>
      [] k = "Multiply" -> <<Op("emul", a, <<>>)>>
      [] k = "ReLU"     -> <<Op("relu", a, <<>>)>>
      [] k = "LeakyReLU" -> <<Op("leaky", a, p)>>       \* times p[1]: the slope is 1 / p[1]
      [] k = "Reshape"  -> <<Op("reshape", a, p)>>
      [] k = "Flatten"  -> <<Op("flatten", a, <<>>)>>
      [] k = "MaxPooling2D" -> <<Op("maxpool", a, p)>>
      [] k = "AveragePooling2D" -> <<Op("avgpool", a, p)>>  \* times the size of the window
      [] k = "UpSampling2D" -> <<Op("upsample", a, p)>>
      [] k \in {"Softmax", "ELU"} -> <<Op("identity", a, <<>>)>>   \* the layer minus the function of the same name, plus the argument
ShapeNow(g, i) == Eval(g.nodes, g.env, i)[i].s
Zeros(s) == T(s, Fill(Prod(s), 0))
Leaves(g, ws) == FoldLeft(LAMBDA h, w : AddNode(h, [k |-> "var", op |-> "var", a |-> <<>>, p |-> w.p], Zeros(w.s)), g, ws)
Composed(g, ns) == FoldLeft(LAMBDA h, n : AddNode(h, n, None), g, ns)
WeightsAt(g, e) == Weights(e.k, ShapeNow(g, e.a[1]), e.p, e.q)
\* an unbound input stands for a single sample of the shape it was declared with
Predicted(g, e) == [g EXCEPT !.env[e.h] = T(e.xs, e.xd)]
LStep(g, e) ==
    CASE e.op = "ph" -> AddNode(g, [k |-> "ph", op |-> "ph", a |-> <<>>, p |-> <<>>], Zeros(<<1>> \o e.s))
      [] e.op = "layer" -> Composed(Leaves(g, WeightsAt(g, e)), Body(e.k, e.a, Len(g.nodes), e.p))
      [] e.op = "predict" -> Predicted(g, e)
      [] OTHER -> GStep(g, e)
=============================================================================
