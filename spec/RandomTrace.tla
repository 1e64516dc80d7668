----------------------------- MODULE RandomTrace -----------------------------
(* recorded draws: each tensor is a plausible sample, and the generator is a deterministic machine that only seeding restarts *)
EXTENDS Random, Replay
MStart == [seed |-> -1, calls |-> <<>>, memo |-> <<>>, seen |-> {}]
Call(e) == [k |-> e.k, v |-> e.v, s |-> e.s, p |-> e.p]
Past(w, e) == { i \in DOMAIN w.memo : w.memo[i].seed = w.seed /\ w.memo[i].calls = Append(w.calls, Call(e)) }
MWhy(w, e) ==
    IF e.op = "seed" THEN {} ELSE
    (IF e.rs # e.s \/ Len(e.d) # FoldLeft(LAMBDA a, b : a * b, 1, e.s) THEN {"shape"} ELSE Faults(e.k, e.s, e.p, e.d))
    \cup (IF e.k \in Continuous /\ e.top > 4 THEN {"atom"} ELSE {})   \* no value of a continuous distribution has a positive probability
    \cup (IF e.kept = 0 THEN {"operand"} ELSE {}) \cup (IF e.gz = 0 THEN {"gradient"} ELSE {})
    \cup { "reproducible" : i \in { i \in Past(w, e) : w.memo[i].d # e.d } }
    \cup (IF e.k \in Continuous /\ Len(e.d) >= 8 /\ \E i \in DOMAIN w.memo : w.memo[i].d = e.d /\ (w.memo[i].seed # w.seed \/ Len(w.memo[i].calls) # Len(w.calls) + 1) THEN {"repeated"} ELSE {})
MTake(w, e) ==
    IF e.op = "seed" THEN [w EXCEPT !.seed = e.v, !.calls = <<>>]
    ELSE [w EXCEPT !.calls = Append(@, Call(e)), !.memo = IF w.seed = -1 \/ Past(w, e) # {} THEN @ ELSE Append(@, [seed |-> w.seed, calls |-> Append(w.calls, Call(e)), d |-> e.d])]
MTell(w, e, why) == e.k \o " " \o ToString(<<e.v, e.s, e.p>>) \o " seed " \o ToString(w.seed) \o " got " \o ToString(e.rs) \o " " \o ToString(SubSeq(e.d, 1, IF Len(e.d) > 12 THEN 12 ELSE Len(e.d)))
=============================================================================
