-------------------------------- MODULE DrawMC --------------------------------
(* Drawings of all small expressions: the ones the library produces (recursive, repeating shared subexpressions, possibly  *)
(* with inner nodes of composite operators) are accepted, and every drawing spoilt in one place is rejected.                *)
EXTENDS Drawing
CONSTANTS Inner, Spoil          \* the number of operators, the ways of spoiling a drawing
VARIABLES nodes, comp, spoil, at
vars == <<nodes, comp, spoil, at>>
LeafNodes == << [k |-> "var", op |-> "var", a |-> <<>>, p |-> <<0, 0, 1>>], [k |-> "ph", op |-> "ph", a |-> <<>>, p |-> <<>>] >>
NodeOver(n) == { [k |-> "node", op |-> "neg", a |-> <<i>>, p |-> <<>>] : i \in 1..n } \cup { [k |-> "node", op |-> "plus", a |-> <<i, j>>, p |-> <<>>] : i, j \in 1..n }
RECURSIVE Graphs(_)
Graphs(n) == IF n = 0 THEN {LeafNodes} ELSE { Append(g, x) : g \in Graphs(n - 1), x \in NodeOver(n + 1) }
Root == Inner + 2
Values == [i \in 1..Root |-> T(<<i>>, [k \in 1..i |-> 0])]        \* only the shapes matter: distinct ones
Name(i) == nodes[i].op
Node(i) == [n |-> 10 + i, id |-> 10 + i, name |-> Name(i), s |-> <<i>>, t |-> IF nodes[i].k = "var" THEN 1 ELSE 0, vs |-> IF nodes[i].k = "var" THEN <<i>> ELSE <<>>]
InnerNode(i) == [n |-> 30 + i, id |-> 30 + i, name |-> "inner", s |-> <<1>>, t |-> 0, vs |-> <<>>]
\* the text: an operator, its arrows, then its arguments; operators in comp are drawn with an inner node before them
RECURSIVE NodesText(_), EdgesText(_)
Cat(S) == FoldLeft(LAMBDA x, y : x \o y, <<>>, S)
NodesText(i) == <<Node(i)>> \o (IF i \in comp /\ ~Leaf(nodes[i]) THEN <<InnerNode(i)>> ELSE <<>>) \o Cat([k \in 1..Len(nodes[i].a) |-> NodesText(nodes[i].a[k])])
EdgesText(i) == (IF Leaf(nodes[i]) THEN <<>> ELSE IF i \in comp THEN <<<<30 + i, 10 + i>>>> \o [k \in 1..Len(nodes[i].a) |-> <<10 + nodes[i].a[k], 30 + i>>]
                 ELSE [k \in 1..Len(nodes[i].a) |-> <<10 + nodes[i].a[k], 10 + i>>]) \o Cat([k \in 1..Len(nodes[i].a) |-> EdgesText(nodes[i].a[k])])
Text == [i |-> Root, ids |-> [i \in 1..Root |-> [i |-> i, id |-> 10 + i, name |-> Name(i)]], nodes |-> NodesText(Root), edges |-> EdgesText(Root), other |-> 0]
Without(q, x) == SelectSeq(q, LAMBDA y : y # x)
Spoilt ==
    LET e == Text x == e.edges[1 + (at % Len(e.edges))] v == e.nodes[1 + (at % Len(e.nodes))] IN
    CASE spoil = "none" -> e
      [] spoil = "edge-lost" -> [e EXCEPT !.edges = Without(@, x)]
      [] spoil = "edge-turned" -> [e EXCEPT !.edges = [k \in 1..Len(@) |-> IF @[k] = x THEN <<x[2], x[1]>> ELSE @[k]]]
      [] spoil = "node-lost" -> [e EXCEPT !.nodes = Without(@, v)]
      [] spoil = "node-more" -> [e EXCEPT !.nodes = Append(@, [InnerNode(1) EXCEPT !.n = 99, !.id = 99])]
      [] spoil = "shape" -> [e EXCEPT !.nodes = [k \in 1..Len(@) |-> IF @[k] = v THEN [v EXCEPT !.s = <<0>>] ELSE @[k]]]
      [] spoil = "frozen" -> [e EXCEPT !.nodes = [k \in 1..Len(@) |-> IF @[k].t = 1 THEN [@[k] EXCEPT !.t = 2] ELSE @[k]]]
      [] spoil = "line" -> [e EXCEPT !.other = 1]
\* spoiling an inner node's label, or a variable that is not there, leaves a drawing that is still acceptable
Effective == spoil # "none" /\ (spoil = "shape" => Text.nodes[1 + (at % Len(Text.nodes))].n < 30) /\ (spoil = "frozen" => 1 \in Reach(nodes, Root))
Init == nodes \in Graphs(Inner) /\ comp \in SUBSET (3..Root) /\ spoil \in Spoil \cup {"none"} /\ at \in 0..4
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Faithful == spoil = "none" => DrawWhy(nodes, Values, Spoilt) = {}
Noticed == Effective => DrawWhy(nodes, Values, Spoilt) # {}
=============================================================================
