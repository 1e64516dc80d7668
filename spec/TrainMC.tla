-------------------------------- MODULE TrainMC --------------------------------
(* How gradients travel through a history of runs and training steps: running in the learning phase clears the gradients    *)
(* and the mark "regularized" of the variables it reaches, backpropagation adds one contribution per use and the            *)
(* regularization once, the optimizer applies and clears.  Every interleaving of the pieces of steps with other runs:       *)
(* each completed step changes each trainable variable of its loss by exactly its own gradient.                             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Depth, Clear, MarkOnce, SkipFrozen
Vars == 1..3
Losses == 1..2
Uses(l) == IF l = 1 THEN <<1, 2, 1>> ELSE <<2, 3>>              \* in the order in which contributions arrive
Reg(v) == IF v = 1 THEN 5 ELSE 0
Frozen == {3}
Reached(l) == { Uses(l)[k] : k \in 1..Len(Uses(l)) }
VARIABLES data, grad, mark, stage, want, n
vars == <<data, grad, mark, stage, want, n>>
Zero == [v \in Vars |-> 0]
Init == data = Zero /\ grad = Zero /\ mark = [v \in Vars |-> FALSE] /\ stage = <<0, 0>> /\ want = Zero /\ n = 0
\* a run of a loss in a phase; during a step only runs that happen between its forward run and its update
Forward(l, ph) ==
    /\ IF ph = 1 /\ Clear THEN grad' = [v \in Vars |-> IF v \in Reached(l) THEN 0 ELSE grad[v]] /\ mark' = [v \in Vars |-> IF v \in Reached(l) THEN FALSE ELSE mark[v]]
                 ELSE UNCHANGED <<grad, mark>>
Run(l, ph) == n < Depth /\ n' = n + 1 /\ Forward(l, ph) /\ UNCHANGED <<data, stage, want>>
Begin(l) == n < Depth /\ n' = n + 1 /\ stage[1] = 0 /\ Forward(l, 1) /\ stage' = <<l, 0>> /\ UNCHANGED <<data, want>>
\* one contribution arrives
Arrive == stage[1] # 0 /\ stage[2] < Len(Uses(stage[1])) /\
    LET v == Uses(stage[1])[stage[2] + 1] IN
    /\ IF v \in Frozen /\ SkipFrozen THEN UNCHANGED <<grad, mark>>
       ELSE grad' = [grad EXCEPT ![v] = @ + 1 + (IF MarkOnce /\ mark[v] THEN 0 ELSE Reg(v))] /\ mark' = [mark EXCEPT ![v] = TRUE]
    /\ stage' = <<stage[1], stage[2] + 1>> /\ UNCHANGED <<data, want, n>>
Count(l, v) == Cardinality({ k \in 1..Len(Uses(l)) : Uses(l)[k] = v })
Update == stage[1] # 0 /\ stage[2] = Len(Uses(stage[1])) /\
    /\ data' = [v \in Vars |-> IF v \in Frozen /\ SkipFrozen THEN data[v] ELSE data[v] - grad[v]]
    /\ grad' = IF Clear THEN [v \in Vars |-> IF v \in Frozen THEN grad[v] ELSE 0] ELSE grad
    /\ want' = [v \in Vars |-> IF v \in Frozen \/ v \notin Reached(stage[1]) THEN want[v] ELSE want[v] - Count(stage[1], v) - Reg(v)]
    /\ stage' = <<0, 0>> /\ UNCHANGED <<mark, n>>
\* runs between the forward run and the first contribution of a step
Next == (\E l \in Losses, ph \in 0..1 : stage[2] = 0 /\ Run(l, ph)) \/ (\E l \in Losses : Begin(l)) \/ Arrive \/ Update
Spec == Init /\ [][Next]_vars
OwnGradientOnce == stage = <<0, 0>> => data = want
===============================================================================
