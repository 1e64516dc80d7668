------------------------------- MODULE Drawing -------------------------------
(* How the description of an expression (nodes, labels and arrows of a drawing) relates to the expression.                *)
EXTENDS Graph, TLC
\* the description of an expression: every node the root depends on is described once and nothing is described twice differently,
\* the leaves are exactly its variables, place holders and constants (besides unnamed constants of composite operators), and
\* the paths lead from every argument to its operator.  Composite operators may show nodes of their own.
DrawWhy(nodes, vals, e) ==
    LET R == Reach(nodes, e.i)
        Id(i) == LET k == CHOOSE k \in 1..Len(e.ids) : e.ids[k].i = i IN e.ids[k].id
        Name(i) == LET k == CHOOSE k \in 1..Len(e.ids) : e.ids[k].i = i IN e.ids[k].name
        ids == TLCEval([i \in R |-> Id(i)])
        mine == { ids[i] : i \in R }
        \* an operator may be its argument (identity); all others have nodes of their own
        own == { i \in R : ~(Len(nodes[i].a) = 1 /\ ids[nodes[i].a[1]] = ids[i]) }
        N == { e.nodes[k].n : k \in 1..Len(e.nodes) }
        E == { e.edges[k] : k \in 1..Len(e.edges) }
        In(n) == { x[1] : x \in { x \in E : x[2] = n } }
        Out(n) == { x[2] : x \in { x \in E : x[1] = n } }
        at == [i \in R |-> CHOOSE k \in 1..Len(e.nodes) : e.nodes[k].n = ids[i]]
        \* the nodes of mine which an inner node depends on, directly or through nodes the program does not name
        Direct(n) == LET grow(S) == S \cup UNION { In(m) : m \in S \ mine }
                         all == FoldLeft(LAMBDA S, k : grow(S), In(n), Iota(Cardinality(N))) IN TLCEval(all \cap mine)
    IN  (IF e.other # 0 \/ Cardinality(mine) # Cardinality(own) \/ ~(mine \subseteq N) \/ \E x \in E : x[1] \notin N \/ x[2] \notin N THEN {"graph-nodes"}
         ELSE (IF \E a, b \in 1..Len(e.nodes) : e.nodes[a].n = e.nodes[b].n /\ e.nodes[a] # e.nodes[b] THEN {"graph-label"} ELSE {})
              \cup (IF \E i \in own : LET x == e.nodes[at[i]] v == nodes[i] IN
                          \/ x.id # ids[i] \/ x.name # Name(i) \/ x.s # vals[i].s
                          \/ x.t # (IF v.k # "var" THEN 0 ELSE IF v.p[3] = 1 THEN 1 ELSE 2) \/ (v.k = "var" /\ x.vs # vals[i].s) THEN {"graph-label"} ELSE {})
              \cup (IF \E k \in 1..Len(e.nodes) : e.nodes[k].n \notin mine /\ e.nodes[k].t # 0 THEN {"graph-nodes"} ELSE {})
              \cup (IF \E i \in own : Direct(ids[i]) # { ids[j] : j \in ArgsOf(nodes, i) } THEN {"graph-edges"} ELSE {})
              \cup (IF \E n \in N : (Out(n) = {}) # (n = ids[e.i]) THEN {"graph-edges"} ELSE {}))
=============================================================================
