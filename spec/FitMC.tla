--------------------------------- MODULE FitMC ---------------------------------
(* Histories of calls on one compiled model with one input and one output, over small data sets.  Beside the variables, a   *)
(* second copy follows only the training calls, and a third trains with other validation samples: both must stay equal.    *)
EXTENDS Fit, Integers, Sequences, FiniteSets
CONSTANTS Steps, Samples, Mutant
VARIABLES o, val, vel, val2, vel2, val3, vel3, ph, ph2, seen, fed, n
vars == <<o, val, vel, val2, vel2, val3, vel3, ph, ph2, seen, fed, n>>
M == [k |-> 1, m |-> 1, w |-> 1, b |-> 2]
Trn == <<1, 1>>
Data(k) == [i \in 1..k |-> i]
Truth(k) == [i \in 1..k |-> IF i % 2 = 0 THEN 1 ELSE -2]
Calls == { [op |-> "fit", n |-> s, bs |-> b, ep |-> e, q |-> q, x |-> Data(s), g |-> Truth(s), ph |-> 1] : s \in Samples, b \in 1..3, e \in 1..2, q \in 0..4 }
   \cup { [op |-> "evaluate", n |-> s, bs |-> b, x |-> Data(s), g |-> Truth(s), ph |-> 1] : s \in Samples, b \in 1..3 }
   \cup { [op |-> f, n |-> s, bs |-> s, x |-> Data(s), g |-> Truth(s), ph |-> 1] : s \in Samples, f \in {"predict", "train", "step", "forward"} }
O == { [lr |-> 1, mom |-> m, nes |-> x] : m \in 0..1, x \in 0..1 }
Quiet == {"evaluate", "predict", "forward"}
\* the machine under test; the mutants break it
MPlan(c) == IF Mutant = "split" /\ c.op = "fit" THEN [k \in DOMAIN Plan(c) |-> [Plan(c)[k] EXCEPT !.up = (Plan(c)[k].l <= Training(c.n, c.bs, c.q))]]
            ELSE IF Mutant = "learn" /\ c.op = "evaluate" THEN [k \in DOMAIN Plan(c) |-> [Plan(c)[k] EXCEPT !.up = TRUE]]
            ELSE IF Mutant = "stuck" /\ c.op = "fit" THEN [k \in DOMAIN Plan(c) |-> [Plan(c)[k] EXCEPT !.l = 0]] ELSE Plan(c)
Fresh(a, b) == [val |-> a, vel |-> b, xs |-> <<>>, ys |-> <<>>, gs |-> <<>>, us |-> <<>>, ls |-> <<>>]
Do(c, a, b) == Runs(M, o, Trn, c, MPlan(c), Fresh(a, b))
\* the same call with other samples in the validation part
Other(c) == IF c.op # "fit" THEN c ELSE LET t == Training(c.n, c.bs, c.q) * c.bs IN [c EXCEPT !.x = [i \in DOMAIN @ |-> IF i > t THEN 7 ELSE @[i]], !.g = [i \in DOMAIN @ |-> IF i > t THEN -5 ELSE @[i]]]
Init == val = <<<<1>>, <<0>>>> /\ vel = <<<<0>>, <<0>>>> /\ val2 = val /\ vel2 = vel /\ val3 = val /\ vel3 = vel /\ ph = 1 /\ ph2 = 1 /\ seen = <<>> /\ fed = <<>> /\ n = 0 /\ o \in O
Next == /\ n < Steps /\ n' = n + 1 /\ UNCHANGED o
        /\ \E c \in Calls : LET X == Do([c EXCEPT !.ph = ph], val, vel) Y == Do([c EXCEPT !.ph = ph2], val2, vel2) Z == Do(Other([c EXCEPT !.ph = ph]), val3, vel3) IN
            /\ val' = X.val /\ vel' = X.vel /\ val3' = Z.val /\ vel3' = Z.vel
            /\ IF c.op \in Quiet THEN UNCHANGED <<val2, vel2, ph2>> ELSE val2' = Y.val /\ vel2' = Y.vel /\ ph2' = PhaseAfter([c EXCEPT !.ph = ph2])
            /\ ph' = IF Mutant = "phase" /\ c.op = "evaluate" THEN 0 ELSE PhaseAfter([c EXCEPT !.ph = ph])
            /\ seen' = c /\ fed' = [x |-> [i \in DOMAIN X.xs |-> X.xs[i][2]], us |-> X.us, p |-> [i \in DOMAIN X.xs |-> X.xs[i][1]]]
Spec == Init /\ [][Next]_vars
Interleaving == val = val2 /\ ph = ph2
Isolation == val = val3 /\ vel = vel3
Ready == ph = 1
\* fit: every sample of the full batches once per epoch, in order; as many updates as training batches, in the learning phase
Visits == seen # <<>> /\ seen.op = "fit" =>
    LET b == seen.n \div seen.bs flat == [i \in 1..seen.ep * b * seen.bs |-> fed.x[((i - 1) \div seen.bs) + 1][((i - 1) % seen.bs) + 1]] IN
    /\ Len(fed.x) = seen.ep * b /\ \A i \in DOMAIN flat : flat[i] = ((i - 1) % (b * seen.bs)) + 1
    /\ Len(fed.us) = seen.ep * Training(seen.n, seen.bs, seen.q) /\ \A i \in DOMAIN fed.us : fed.us[i][2] = 1
    /\ (seen.q = 0 => Len(fed.us) = Len(fed.x)) /\ (seen.q = 4 => fed.us = <<>>)
    /\ \A i \in DOMAIN fed.p : fed.p[i] = (IF \E j \in DOMAIN fed.us : fed.us[j][1] = i THEN 1 ELSE 0)
===============================================================================
