-------------------------------- MODULE SaveMC --------------------------------
(* Saving and restoring variables: a session writes the identities of its variables and their values, in whatever order   *)
(* it enumerates them; a session that restores the file enumerates its own variables in another order.  Checked: after a  *)
(* restore each variable in the file has the value it had when the file was written, the others keep theirs.  Matching by  *)
(* position instead of identity (ById = FALSE) is rejected.                                                                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Vars, Values, Files, Depth, ById
VARIABLES val, file, hist, steps, ok
vars == <<val, file, hist, steps, ok>>
Orders(S) == { q \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : a # b => q[a] # q[b] }
Init == val = [v \in Vars |-> 0] /\ file = [f \in Files |-> <<>>] /\ hist = [f \in Files |-> <<>>] /\ steps = 0 /\ ok = TRUE
Tick == steps < Depth /\ steps' = steps + 1
Set(v, x) == Tick /\ val' = [val EXCEPT ![v] = x] /\ UNCHANGED <<file, hist, ok>>
Save(f, S) == /\ Tick /\ \E q \in Orders(S) : file' = [file EXCEPT ![f] = [k \in 1..Len(q) |-> <<q[k], val[q[k]]>>]]
              /\ hist' = [hist EXCEPT ![f] = [v \in S |-> val[v]]] /\ UNCHANGED <<val, ok>>
Restore(f, S) == /\ Tick /\ DOMAIN hist[f] \subseteq S /\ (ById \/ DOMAIN hist[f] = S)
                 /\ \E q \in Orders(S) :
                      LET F == file[f]
                          At(v) == IF ById THEN { F[k][2] : k \in { k \in 1..Len(F) : F[k][1] = v } }
                                   ELSE { F[k][2] : k \in { k \in 1..Len(F) : q[k] = v } }
                      IN val' = [v \in Vars |-> IF At(v) = {} THEN val[v] ELSE CHOOSE x \in At(v) : TRUE]
                 /\ ok' = (val' = [v \in Vars |-> IF v \in DOMAIN hist[f] THEN hist[f][v] ELSE val[v]])
                 /\ UNCHANGED <<file, hist>>
Next == (\E v \in Vars, x \in Values : Set(v, x)) \/ \E f \in Files, S \in (SUBSET Vars) \ {{}} : Save(f, S) \/ Restore(f, S)
Spec == Init /\ [][Next]_vars
Lossless == ok
=============================================================================
