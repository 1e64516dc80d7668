-------------------------------- MODULE BindMC --------------------------------
(* Place holders and sessions as the library builds them: a handle refers to a cell, a copy of the handle refers to the   *)
(* same cell, a session keeps copies of the handles bound through it and empties their cells when it ends.  Checked: what *)
(* a handle evaluates to is what was last bound to its identity, and nothing once the session that bound it has ended.     *)
EXTENDS Integers, FiniteSets
CONSTANTS Handles, Sessions, Values, Depth, CopyShares, SessionResets
VARIABLES cell, data, kept, open, ident, want, steps
vars == <<cell, data, kept, open, ident, want, steps>>
Nil == 0
Cells == 1..Depth
Used == { cell[h] : h \in DOMAIN cell }
Fresh == steps + 1
Idents == { ident[h] : h \in DOMAIN ident }
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Init == cell = <<>> /\ data = [c \in Cells |-> Nil] /\ kept = [s \in Sessions |-> {}] /\ open = {} /\ ident = <<>> /\ want = [c \in Cells |-> [v |-> Nil, by |-> {}]] /\ steps = 0
Tick == steps < Depth /\ steps' = steps + 1
New(h) == Tick /\ h \notin DOMAIN cell /\ cell' = Put(cell, h, Fresh) /\ ident' = Put(ident, h, Fresh) /\ UNCHANGED <<data, kept, open, want>>
Copy(h, g) == /\ Tick /\ g \in DOMAIN cell /\ ident' = Put(ident, h, ident[g])
              /\ IF CopyShares THEN cell' = Put(cell, h, cell[g]) /\ data' = data ELSE cell' = Put(cell, h, Fresh) /\ data' = [data EXCEPT ![Fresh] = data[cell[g]]]
              /\ UNCHANGED <<kept, open, want>>
Open(s) == Tick /\ s \notin open /\ open' = open \cup {s} /\ UNCHANGED <<cell, data, kept, ident, want>>
\* a place holder is bound by one session at a time
Bind(s, h, v) == /\ Tick /\ s \in open /\ h \in DOMAIN cell /\ want[ident[h]].by \subseteq {s}
                 /\ data' = [data EXCEPT ![cell[h]] = v] /\ kept' = [kept EXCEPT ![s] = @ \cup {cell[h]}]
                 /\ want' = [want EXCEPT ![ident[h]] = [v |-> v, by |-> {s}]] /\ UNCHANGED <<cell, open, ident>>
Rebind(h, v) == /\ Tick /\ h \in DOMAIN cell /\ data' = [data EXCEPT ![cell[h]] = v] /\ want' = [want EXCEPT ![ident[h]].v = v] /\ UNCHANGED <<cell, kept, open, ident>>
Close(s) == /\ Tick /\ s \in open /\ open' = open \ {s} /\ kept' = [kept EXCEPT ![s] = {}]
            /\ data' = [c \in Cells |-> IF SessionResets /\ c \in kept[s] THEN Nil ELSE data[c]]
            /\ want' = [c \in Cells |-> IF s \in want[c].by THEN [v |-> Nil, by |-> {}] ELSE want[c]] /\ UNCHANGED <<cell, ident>>
Next == \/ \E h \in Handles : New(h) \/ (\E g \in Handles : Copy(h, g)) \/ (\E v \in Values : Rebind(h, v)) \/ \E s \in Sessions, v \in Values : Bind(s, h, v)
        \/ \E s \in Sessions : Open(s) \/ Close(s)
Spec == Init /\ [][Next]_vars
LastBound == \A h \in DOMAIN cell : data[cell[h]] = want[ident[h]].v
=============================================================================
