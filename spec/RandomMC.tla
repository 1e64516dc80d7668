------------------------------ MODULE RandomMC ------------------------------
(* The generator: a deterministic machine with a state that every draw advances and only seeding sets.  Over all histories   *)
(* of seeding and drawing: the same draws after the same seed give the same values, and a stream does not repeat itself.     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Depth, Mutant     \* "none", "ignored" (seeding has no effect), "stuck" (a draw does not advance), "reset" (a draw reseeds)
Seeds == {1, 4}
M == 31
Step(x) == (x * 3) % M      \* of full period on 1..30
RECURSIVE Advance(_, _)
Advance(x, n) == IF n = 0 THEN x ELSE Advance(Step(x), n - 1)
Start(s) == Advance(1, 7 * s)
VARIABLES gen, seed, calls, memo, bad, n
vars == <<gen, seed, calls, memo, bad, n>>
Init == gen \in {1, 2} /\ seed = 0 /\ calls = <<>> /\ memo = {} /\ bad = {} /\ n = 0
Seed(s) == n < Depth /\ gen' = (IF Mutant = "ignored" THEN gen ELSE Start(s)) /\ seed' = s /\ calls' = <<>> /\ n' = n + 1 /\ UNCHANGED <<memo, bad>>
Draw(k) ==      \* k numbers
    LET out == [i \in 1..k |-> Advance(gen, i)] h == <<seed, Append(calls, k)>> IN
    /\ n < Depth /\ n' = n + 1
    /\ gen' = (CASE Mutant = "stuck" -> gen [] Mutant = "reset" /\ seed # 0 -> Start(seed) [] OTHER -> Advance(gen, k))
    /\ calls' = Append(calls, k) /\ UNCHANGED seed
    /\ bad' = bad \cup (IF seed # 0 /\ \E m \in memo : m.h = h /\ m.out # out THEN {"reproducible"} ELSE {})
                  \cup (IF k >= 2 /\ \E m \in memo : m.h # h /\ m.h[1] = seed /\ m.out = out THEN {"repeated"} ELSE {})
    /\ memo' = IF seed = 0 THEN memo ELSE memo \cup {[h |-> h, out |-> out]}
Next == (\E s \in Seeds : Seed(s)) \/ (\E k \in 1..2 : Draw(k))
Spec == Init /\ [][Next]_vars
Faithful == bad = {}
=============================================================================
