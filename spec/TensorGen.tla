----------------------------- MODULE TensorGen -----------------------------
(* Draws behaviours of the tensor machine and prints them as programs for the driver (run with -simulate). *)
EXTENDS TensorMC, TLCExt
VARIABLE hist
IntList(s) == ToString(Len(s)) \o FoldLeft(LAMBDA acc, x : acc \o " " \o ToString(x), "", s)
Plain(s) == FoldLeft(LAMBDA acc, x : acc \o " " \o ToString(x), "", s)
Token(e) ==
    e.op \o (IF e.o >= 0 THEN " " \o ToString(e.o) ELSE "") \o Plain(e.a)
         \o (CASE e.op = "new" -> " " \o IntList(e.p) \o " " \o IntList(e.r)
               [] e.op \in {"reshape", "reshapein"} -> " " \o IntList(e.p)
               [] OTHER -> Plain(e.p))
GInit == Init /\ hist = ""
Ops == {"new", "copy", "deep", "neg", "squeeze", "assign", "reshape", "reshapein", "add", "iadd", "poke", "drop"}
\* the kind of operation is drawn first, so that operations with few instances are as frequent as the others
GNext ==
    /\ n < Depth
    /\ \E op \in {RandomElement(Ops)} :
         LET es == { e \in Events : e.op = op /\ Legal(e) } IN
         /\ es # {}
         /\ \E e \in {RandomElement(es)} :
              LET ns == Step(st, e) IN
              /\ Tame(ns)
              /\ st' = Canon(ns) /\ n' = n + 1 /\ last' = e
              /\ hist' = hist \o (IF hist = "" THEN "" ELSE " ; ") \o Token(e)
              /\ (n' = Depth => PrintT("PROG " \o hist'))
\* an unlucky draw is repeated
Redraw == n < Depth /\ UNCHANGED <<vars, hist>>
GSpec == GInit /\ [][GNext \/ Redraw]_<<vars, hist>>
=============================================================================
