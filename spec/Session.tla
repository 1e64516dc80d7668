------------------------------- MODULE Session -------------------------------
(* How a session evaluates an expression graph: occurrences of a subexpression are copies of one operator; a copy        *)
(* evaluates its arguments unless the session's cache, keyed by the operator's identity and cleared before every run,    *)
(* already holds its result; the backward pass uses the inputs the operator has recorded.  Checked here, for every graph *)
(* of N nodes and every sequence of rebindings, runs and training steps up to Depth: the result is the denotation of the *)
(* expression in the current bindings, every operator is evaluated exactly once per run, and the backward pass sees the  *)
(* inputs of that run at each of its occurrences.  With ClearCache = FALSE or SharedState = FALSE (each copy recording   *)
(* its own inputs) the property fails, which TLC confirms: the two mechanisms are necessary.                             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Depth, ClearCache, SharedState
\* node 1 and 2 are leaves; node k > 2 has one or two arguments among the earlier nodes
ArgSeqs(k) == { <<a>> : a \in 1..(k - 1) } \cup { <<a, b>> : a \in 1..(k - 1), b \in 1..(k - 1) }
Leaf(k) == k <= 2
VARIABLES dag, ver, cache, inp, cnt, last, used, steps, built
vars == <<dag, ver, cache, inp, cnt, last, used, steps, built>>
Nil == <<>>
RECURSIVE Denote(_)
Denote(n) == IF Leaf(n) THEN <<n, ver[n]>> ELSE <<n>> \o [k \in 1..Len(dag[n]) |-> Denote(dag[n][k])]
Copy(n, path) == IF SharedState THEN <<n>> ELSE <<n>> \o path
\* forward of the occurrence of n at path; s = [c: cache, i: recorded inputs, k: counts]; returns [v: value, s: s]
RECURSIVE Fwd(_, _, _)
Fwd(n, path, s) ==
    IF Leaf(n) THEN [v |-> <<n, ver[n]>>, s |-> s]
    ELSE IF s.c[n] # Nil THEN [v |-> s.c[n], s |-> s]
    ELSE LET r1 == Fwd(dag[n][1], path \o <<1>>, s)
             r2 == IF Len(dag[n]) = 1 THEN r1 ELSE Fwd(dag[n][2], path \o <<2>>, r1.s)
             ins == IF Len(dag[n]) = 1 THEN <<r1.v>> ELSE <<r1.v, r2.v>>
             out == <<n>> \o ins
         IN [v |-> out, s |-> [c |-> [r2.s.c EXCEPT ![n] = out],
                               i |-> [x \in (DOMAIN r2.s.i) \cup {Copy(n, path)} |-> IF x = Copy(n, path) THEN ins ELSE r2.s.i[x]],
                               k |-> [r2.s.k EXCEPT ![n] = @ + 1]]]
\* backward of the occurrence at path: the inputs each occurrence works with
RECURSIVE Bwd(_, _, _)
Bwd(n, path, s) ==
    IF Leaf(n) THEN {}
    ELSE {<<n, IF Copy(n, path) \in DOMAIN s.i THEN s.i[Copy(n, path)] ELSE Nil>>}
         \cup UNION { Bwd(dag[n][k], path \o <<k>>, s) : k \in 1..Len(dag[n]) }
Empty == [n \in 1..N |-> Nil]
Init == /\ dag = [k \in 1..N |-> Nil] /\ built = 2
        /\ ver = [n \in 1..N |-> 0] /\ cache = Empty /\ inp = [x \in {} |-> Nil] /\ cnt = [n \in 1..N |-> 0]
        /\ last = Nil /\ used = {} /\ steps = 0
Build == /\ built < N /\ built' = built + 1
         /\ \E a \in ArgSeqs(built + 1) : dag' = [dag EXCEPT ![built + 1] = a]
         /\ UNCHANGED <<ver, cache, inp, cnt, last, used, steps>>
Rebind == /\ built = N /\ steps < Depth /\ steps' = steps + 1
          /\ \E l \in 1..2 : ver' = [ver EXCEPT ![l] = @ + 1]
          /\ last' = Nil /\ used' = {} /\ UNCHANGED <<dag, cache, inp, cnt, built>>
Run == /\ built = N /\ steps < Depth /\ steps' = steps + 1
       /\ \E root \in 3..N : LET s0 == [c |-> IF ClearCache THEN Empty ELSE cache, i |-> inp, k |-> [n \in 1..N |-> 0]]
                                 r == Fwd(root, <<root>>, s0) IN
            /\ cache' = r.s.c /\ inp' = r.s.i /\ cnt' = r.s.k
            /\ last' = <<root, r.v>> /\ used' = Bwd(root, <<root>>, r.s)
       /\ UNCHANGED <<dag, ver, built>>
Next == Build \/ Rebind \/ Run
Spec == Init /\ [][Next]_vars
RECURSIVE Below(_)
Below(n) == IF Leaf(n) THEN {} ELSE {n} \cup UNION { Below(dag[n][k]) : k \in 1..Len(dag[n]) }
ValueIsDenotation == last # Nil => last[2] = Denote(last[1])
EvaluatedOnce == last # Nil => \A n \in 3..N : cnt[n] = IF n \in Below(last[1]) THEN 1 ELSE 0
BackwardSeesThisRun == \A u \in used : u[2] = [k \in 1..Len(dag[u[1]]) |-> Denote(dag[u[1]][k])]
=============================================================================
