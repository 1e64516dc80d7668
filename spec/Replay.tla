-------------------------------- MODULE Replay --------------------------------
(* Checks recorded programs against a machine: Start is its initial state, Why(st, e) the reasons why the recorded event  *)
(* e is not one the machine can take in state st (the empty set when it is), Take(st, e) the state after it.              *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
CONSTANTS Start, Why(_, _), Take(_, _), Tell(_, _, _)
VARIABLES pid, l, st
vars == <<pid, l, st>>
Progs == ndJsonDeserialize(IOEnv.TRACE)
Ev == Progs[pid].ev
RECURSIVE Words(_)
Words(S) == IF S = {} THEN "" ELSE LET x == CHOOSE x \in S : TRUE IN x \o " " \o Words(S \ {x})
Init == pid \in 1..Len(Progs) /\ l = 1 /\ st = Start
Consume ==
    /\ l <= Len(Ev)
    /\ LET e == Ev[l] why == Why(st, e) IN
       IF why = {} THEN l' = l + 1 /\ st' = Take(st, e) /\ (l = Len(Ev) => PrintT("OK " \o ToString(Progs[pid].id)))
       ELSE /\ PrintT("REJECT " \o ToString(Progs[pid].id) \o " " \o ToString(l) \o " " \o e.op \o " : " \o Words(why) \o ": " \o Tell(st, e, why))
            /\ l' = Len(Ev) + 2 /\ st' = st
    /\ UNCHANGED pid
Spec == Init /\ [][Consume]_vars
=============================================================================
