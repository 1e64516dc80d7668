---------------------------- MODULE TensorTrace ----------------------------
(* Conformance: every recorded program of tensor operations must be a behaviour of TensorMachine.  A record lists, for  *)
(* every operation, its arguments, what it returned, and the shape and elements of all live tensors afterwards.         *)
EXTENDS TensorMachine, Json, IOUtils
Progs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES pid, l, st
vars == <<pid, l, st>>
Ev == Progs[pid].ev

\* exp(-k), in units of 1/10000
ExpTab == <<10000, 3679, 1353, 498, 183, 67, 25, 9, 3, 1>>
ExpM(k) == IF k > 9 THEN 0 ELSE ExpTab[k + 1]
Near(a, b, tol) == AbsI(a - b) <= tol
Sane(r) == \A k \in 1..Len(r) : AbsI(r[k]) < 1000000000
\* results that need not be integers: r is given in units of 1/1000 (softmax: 1/1000000)
RedShape(x, p) == IF p[2] = 1 THEN [x.s EXCEPT ![Axis(x, p[1])] = 1] ELSE DropAt(x.s, Axis(x, p[1]))
GroupOf(x, ax, k) == LET q == Axis(x, ax) s == [x.s EXCEPT ![q] = 1] IN Slice(x, q, Unravel(k - 1, s))
SoftmaxOK(x, r) ==
    LET w == x.s[Len(x.s)] IN
    \A row \in 0..((Len(x.d) \div w) - 1) :
        LET v == SubSeq(x.d, row * w + 1, (row + 1) * w)
            q == SubSeq(r, row * w + 1, (row + 1) * w)
            m == MaxS(v) qm == MaxS(q)
        IN /\ \A k \in 1..w : q[k] >= 0
           /\ Near(SumSeq(q), 1000000, 20 + 3 * w)
           /\ \A k \in 1..w : Near(q[k] * 100, (qm \div 100) * ExpM(m - v[k]), 20000)
\* the forward walks, then the reverse ones
Walked(x, nf, nr) == LET n == Len(x.d) IN [k \in 1..((nf + nr) * n) |-> IF k <= nf * n THEN x.d[((k - 1) % n) + 1] ELSE x.d[n - ((k - 1) % n)]]
QueryOK(e, x, y) ==
    /\ Sane(e.r)
    /\ CASE e.op = "sum"  -> e.r = <<SumSeq(x.d)>>
         [] e.op \in {"max", "amax"} -> e.r = <<MaxS(x.d)>>
         [] e.op \in {"min", "amin"} -> e.r = <<MinS(x.d)>>
         [] e.op \in {"mean", "rmean"} -> Len(e.r) = 1 /\ Near(e.r[1] * Len(x.d), 1000 * SumSeq(x.d), 2 * Len(x.d))
                                          /\ (e.op = "rmean" => e.rs = <<1>>)
         [] e.op = "meanax" -> /\ e.rs = RedShape(x, e.p) /\ Len(e.r) = Prod(e.rs)
                               /\ \A k \in 1..Len(e.r) : LET g == GroupOf(x, e.p[1], k) IN Near(e.r[k] * Len(g), 1000 * SumSeq(g), 2 * Len(g))
         [] e.op = "varax" ->  /\ e.rs = RedShape(x, e.p) /\ Len(e.r) = Prod(e.rs)
                               /\ \A k \in 1..Len(e.r) : LET g == GroupOf(x, e.p[1], k) IN
                                    /\ AbsI(e.r[k]) < 1000000
                                    /\ Near(e.r[k] * Len(g) * Len(g), 1000 * Disp(g), 2 * Len(g) * Len(g))
         [] e.op = "stdax" ->  /\ e.rs = RedShape(x, e.p) /\ Len(e.r) = Prod(e.rs)
                               /\ \A k \in 1..Len(e.r) : LET g == GroupOf(x, e.p[1], k) n2 == Len(g) * Len(g) s == e.r[k] \div 10 IN
                                    /\ e.r[k] >= 0 /\ e.r[k] < 50000
                                    /\ MaxI(s - 2, 0) * MaxI(s - 2, 0) * n2 <= 10000 * Disp(g)
                                    /\ (s + 2) * (s + 2) * n2 >= 10000 * Disp(g)
         [] e.op = "var" -> Len(e.r) = 1 /\ LET n2 == Len(x.d) * Len(x.d) IN Near(e.r[1] * n2, 1000 * Disp(x.d), 2 * n2)
         [] e.op = "std" -> Len(e.r) = 1 /\ LET n2 == Len(x.d) * Len(x.d) s == e.r[1] \div 10 IN
                                    /\ e.r[1] >= 0
                                    /\ MaxI(s - 2, 0) * MaxI(s - 2, 0) * n2 <= 10000 * Disp(x.d)
                                    /\ (s + 2) * (s + 2) * n2 >= 10000 * Disp(x.d)
         [] e.op = "walk" -> e.r = Walked(x, 7, 6) /\ e.rs = x.s \o <<Len(x.s), Len(x.s), Len(x.d), 0>>
         [] e.op = "bshape" -> e.rs = BroadcastShape(x.s, y.s)
         [] e.op = "softmax" -> e.rs = x.s /\ Len(e.r) = Len(x.d) /\ SoftmaxOK(x, e.r)

Logged(e, i) == LET k == CHOOSE k \in 1..Len(e.h) : e.h[k].i = i IN T(e.h[k].s, e.h[k].d)
LoggedSet(e) == { e.h[k].i : k \in 1..Len(e.h) }
Target(e) == IF e.op \in Resizing THEN IntoTarget(e.op, e.a, e.o) ELSE IF e.op \in InPlace THEN e.a[1] ELSE e.o
\* why event e with expected next state ns is not what was recorded
Wrong(e, ns) == { i \in DOMAIN ns.reg : i \notin LoggedSet(e) \/ Logged(e, i) # Val(ns, i) }
Reasons(e, ns) ==
    LET w == Wrong(e, ns)
        inplace == e.op \in (InPlace \cup Resizing)
    IN  (IF Target(e) \in w THEN {"value"} ELSE {})
        \cup (IF \E i \in w : i # Target(e) /\ ~inplace THEN {"purity"} ELSE {})
        \cup (IF inplace /\ Target(e) \notin w /\ \E i \in w : i # Target(e) THEN {"alias"} ELSE {})
        \cup (IF inplace /\ Len(e.a) > 1 /\ \E k \in 1..Len(e.a) : e.a[k] \in w /\ e.a[k] \notin Sharing(st, Target(e)) THEN {"purity"} ELSE {})
        \cup (IF e.op \in Queries THEN IF QueryOK(e, Val(st, e.a[1]), Val(st, e.a[Len(e.a)])) THEN {} ELSE {"value"} ELSE {})
RECURSIVE Show(_)
Show(S) == IF S = {} THEN "" ELSE LET x == CHOOSE x \in S : TRUE IN x \o " " \o Show(S \ {x})
Report(e, ns, why) ==
    LET w == Wrong(e, ns) i == IF w = {} THEN -1 ELSE CHOOSE i \in w : TRUE IN
    PrintT("REJECT " \o ToString(Progs[pid].id) \o " " \o ToString(l) \o " " \o e.op \o " : " \o Show(why) \o ": handle " \o ToString(i)
           \o (IF i = -1 THEN " got " \o ToString(e.r)
               ELSE " expected " \o ToString(Val(ns, i)) \o (IF i \in LoggedSet(e) THEN " got " \o ToString(Logged(e, i)) ELSE " got nothing")))

Init == pid \in 1..Len(Progs) /\ l = 1 /\ st = EmptyState
Consume ==
    /\ l <= Len(Ev)
    /\ LET e == Ev[l] ns == Step(st, e) why == Reasons(e, ns) IN
       IF why = {} THEN l' = l + 1 /\ st' = ns /\ (l = Len(Ev) => PrintT("OK " \o ToString(Progs[pid].id)))
       ELSE Report(e, ns, why) /\ l' = Len(Ev) + 2 /\ st' = st
    /\ UNCHANGED pid
Next == Consume
Spec == Init /\ [][Next]_vars
WellTyped == Good(st)
=============================================================================
