------------------------------ MODULE TensorMC ------------------------------
(* Exhaustive exploration of the tensor machine for a few handles and tensors of two elements, with the purity and  *)
(* sharing guarantees stated as properties of its steps.                                                            *)
EXTENDS TensorMachine, FiniteSets
CONSTANTS Handles, Depth
VARIABLES st, n, last
vars == <<st, n, last>>
E(op, o, a, p, r) == [op |-> op, o |-> o, a |-> a, p |-> p, r |-> r]
Live == DOMAIN st.reg
Shp == {<<2>>, <<1, 2>>}
\* modest elements keep the state space finite
Tame(s) == \A b \in 1..Len(s.heap) : \A k \in 1..Len(s.heap[b]) : AbsI(s.heap[b][k]) <= 4
Events ==
    { E("new", o, <<>>, s, <<1, 2>>) : o \in Handles, s \in Shp }
    \cup { E(op, o, <<a>>, <<>>, <<>>) : op \in {"copy", "deep", "neg", "squeeze"}, o \in Handles, a \in Live }
    \cup { E("assign", o, <<a>>, <<>>, <<>>) : o \in Live, a \in Live }
    \cup { E("reshape", o, <<a>>, s, <<>>) : o \in Handles, a \in Live, s \in Shp }
    \cup { E("reshapein", -1, <<a>>, s, <<>>) : a \in Live, s \in Shp }
    \cup { E("add", o, <<a, b>>, <<>>, <<>>) : o \in Handles, a \in Live, b \in Live }
    \cup { E("iadd", -1, <<a, b>>, <<>>, <<>>) : a \in Live, b \in Live }
    \cup { E("poke", -1, <<a>>, <<0, 3>>, <<>>) : a \in Live }
    \cup { E("drop", -1, <<a>>, <<>>, <<>>) : a \in Live }
Legal(e) == CASE e.op \in {"iadd"} -> st.reg[e.a[1]].s = st.reg[e.a[2]].s [] OTHER -> TRUE
\* forget unreferenced buffers and number the others in the order of the handles
Canon(s) ==
    LET ord == SetToSortSeq(DOMAIN s.reg, <)
        bufs == FoldLeft(LAMBDA acc, i : IF \E k \in 1..Len(acc) : acc[k] = s.reg[i].b THEN acc ELSE Append(acc, s.reg[i].b), <<>>, ord)
        pos(b) == CHOOSE k \in 1..Len(bufs) : bufs[k] = b
    IN [reg |-> [i \in DOMAIN s.reg |-> [b |-> pos(s.reg[i].b), s |-> s.reg[i].s]], heap |-> [k \in 1..Len(bufs) |-> s.heap[bufs[k]]]]
Init == st = EmptyState /\ n = 0 /\ last = E("none", -1, <<>>, <<>>, <<>>)
Next == \E e \in Events :
            /\ n < Depth /\ Legal(e)
            /\ LET ns == Step(st, e) IN Tame(ns) /\ st' = Canon(ns)
            /\ n' = n + 1 /\ last' = e
Spec == Init /\ [][Next]_vars
View == <<st, n>>
TypeOK == Good(st) /\ Cardinality(Live) <= Cardinality(Handles)
PureOp(e) == e.op \in Makers \cup Pure1 \cup Pure2 \cup Shared \cup {"drop"}
\* T01: an operation that returns a tensor changes no other live tensor; an in-place one only those that share with it
Purity == [][ \A i \in Live :
                (PureOp(last') /\ i # last'.o /\ i \in DOMAIN st'.reg) => Val(st, i) = Val(st, i)' ]_vars
Confined == [][ \A i \in Live :
                (last'.op \in (InPlace \cup Resizing) /\ i \notin Sharing(st, last'.a[1])) => Val(st, i) = Val(st, i)' ]_vars
\* T06: handles share after a copy, and never with the result of anything else
SharesAfterCopy == [][ last'.op \in Shared => \A i \in DOMAIN st'.reg : (i \in Live /\ i # last'.o) =>
                          ((st'.reg[i].b = st'.reg[last'.o].b) <=> (st.reg[i].b = st.reg[last'.a[1]].b)) ]_vars
FreshIsAlone == [][ last'.op \in (Pure1 \cup Pure2 \cup Makers) =>
                          \A i \in DOMAIN st'.reg : i # last'.o => st'.reg[i].b # st'.reg[last'.o].b ]_vars
SharersAgree == \A i \in Live, j \in Live : st.reg[i].b = st.reg[j].b => Val(st, i).d = Val(st, j).d
=============================================================================
