------------------------------- MODULE ViewTrace -------------------------------
(* What recorded uses of the views, iterators and ranges may show.                                                         *)
EXTENDS View, Replay
B(x) == IF x THEN 1 ELSE 0
AtWhy(s, e) == LET p == e.off + Cell(e.s, e.i) m == IF e.op = "put" THEN SetCells(s.mem, <<p>>, <<e.v>>) ELSE s.mem IN
    (IF e.p # p THEN {"cell"} ELSE {}) \cup (IF e.op = "at" /\ e.r # s.mem[p + 1] THEN {"value"} ELSE {}) \cup (IF e.m # m \/ e.bad # 0 THEN {"memory"} ELSE {})
Shift(q, o) == [k \in 1..Len(q) |-> q[k] + o]
MatWhy(e) == LET row == Shift(RowOf(e.R, e.C, e.i), e.off) col == Shift(ColOf(e.R, e.C, e.k), e.off) IN
    (IF e.row # row THEN {"row"} ELSE {}) \cup (IF e.col # col \/ e.colr # col \/ e.cols # Back(col) THEN {"column"} ELSE {})
    \cup (IF e.d # e.R THEN {"distance"} ELSE {}) \cup (IF e.n # e.R * e.C \/ e.r # e.R \/ e.c # e.C \/ e.sh # <<e.R, e.C>> \/ e.b # e.off \/ e.dd # e.off THEN {"size"} ELSE {})
ColSet(s, e) == LET c == Shift(IF e.how = 2 THEN RowOf(e.R, e.C, e.k) ELSE ColOf(e.R, e.C, e.k), e.off) IN
    SetCells(s.mem, c, [q \in 1..Len(c) |-> IF e.how = 1 THEN e.x + q - 1 ELSE e.x])
RECURSIVE IterBad(_, _, _, _)
\* n: the steps the iterator has taken so far
IterBad(e, n, k, bad) == IF k > Len(e.w) THEN bad ELSE
    LET w == e.w[k]
        n2 == CASE w.w \in {"inc", "pinc"} -> n + 1 [] w.w \in {"dec", "pdec"} -> n - 1 [] w.w = "add" -> n + w.d [] w.w = "sub" -> n - w.d [] OTHER -> n
        v == CASE w.w \in {"inc", "dec", "add", "sub"} -> Walk(e.p0, e.st, n2) [] w.w \in {"pinc", "pdec", "copy"} -> Walk(e.p0, e.st, n)
               [] w.w \in {"plus", "rplus", "idx"} -> Walk(e.p0, e.st, n + w.d) [] w.w = "minus" -> Walk(e.p0, e.st, n - w.d) [] w.w = "dist" -> n
               [] OTHER -> B(w.d = 0) + 2 * B(w.d # 0) + (IF e.st > 0 THEN 4 * B(0 < w.d) + 8 * B(0 <= w.d) + 16 * B(0 > w.d) + 32 * B(0 >= w.d) ELSE 0) IN
    IterBad(e, n2, k + 1, bad \cup (IF w.v # v THEN {w.w} ELSE {}) \cup (IF w.p # Walk(e.p0, e.st, n2) THEN {"position"} ELSE {}))
RangeWhy(e) == (IF e.v # RangeOf(e) THEN {"numbers"} ELSE {})
    \cup (IF e.hop # RangeAt(e, e.jump) \/ e.w # <<RangeAt(e, e.jump), RangeAt(e, e.jump), RangeAt(e, 0), RangeAt(e, 1), 1>> THEN {"jump"} ELSE {})
\* a range with a progress bar visits the elements whatever the terminal; what it shows grows from nothing to the whole
TqSeq(e) == IF e.kind = 0 THEN [k \in 1..e.b |-> k - 1] ELSE [k \in 1..(e.b - e.a) |-> IF e.kind < 3 THEN e.a + k - 1 ELSE 3 * (e.a + k - 1) + 1]
Grows(q) == \A k \in 1..(Len(q) - 1) : q[k] <= q[k + 1]
TqWhy(e) == (IF Len(e.all) # e.passes \/ \E p \in 1..Len(e.all) : e.all[p].v # TqSeq(e) THEN {"elements"} ELSE {})
    \cup UNION { LET t == e.all[p].t n == Len(TqSeq(e)) IN (IF e.all[p].odd # 0 THEN {"text"} ELSE {})
        \cup (IF ~Grows(t) \/ (\E k \in 1..Len(t) : t[k] \notin 0..1000) \/ (t # <<>> /\ t[Len(t)] # 1000) \/ (e.every = 1 /\ Len(t) < n) THEN {"percentage"} ELSE {})
        \cup (IF ~Grows(e.all[p].c) THEN {"bar"} ELSE {}) : p \in 1..Len(e.all) }
EnumWhy(e) == (IF e.ix # [k \in 1..Len(e.x) |-> k - 1] THEN {"index"} ELSE {}) \cup (IF e.v # e.x THEN {"element"} ELSE {})
RevWhy(e) == (IF e.v # Back(e.x) THEN {"element"} ELSE {}) \cup (IF e.after # (IF e.kind = 3 THEN [k \in 1..Len(e.x) |-> 100 + Len(e.x) - k] ELSE e.x) THEN {"memory"} ELSE {})
\* the storage vectors: a function from names to sequences
VecOps == {"vec.new", "vec.list", "vec.copy", "vec.move", "vec.assign", "vec.massign", "vec.set", "vec.size", "vec.clear"}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
VecTake(f, e) ==
    CASE e.op \in {"vec.new", "vec.size"} -> Put(f, e.k, [q \in 1..e.s |-> e.v])
      [] e.op = "vec.list" -> Put(f, e.k, IF e.s = 0 THEN <<>> ELSE IF e.s = 1 THEN <<5>> ELSE <<1, 2, e.v, 4>>)
      [] e.op \in {"vec.copy", "vec.assign"} -> Put(f, e.k, f[e.s])
      [] e.op \in {"vec.move", "vec.massign"} -> IF e.k = e.s THEN f ELSE Put(Put(f, e.s, <<>>), e.k, f[e.s])
      [] e.op = "vec.set" -> Put(f, e.k, [f[e.k] EXCEPT ![e.s + 1] = e.v])
      [] OTHER -> Put(f, e.k, <<>>)
Shown(f, all) == { all[k].k : k \in 1..Len(all) } = DOMAIN f /\ \A k \in 1..Len(all) : all[k].d = f[all[k].k] /\ all[k].e = B(f[all[k].k] = <<>>)
MStart == [mem |-> <<>>, vec |-> [x \in {} |-> <<>>]]
MWhy(s, e) ==
    CASE e.op = "mem" -> {} [] e.op \in {"at", "put"} -> AtWhy(s, e) [] e.op = "mat" -> MatWhy(e)
      [] e.op = "colset" -> IF e.m # ColSet(s, e) \/ e.bad # 0 THEN {"memory"} ELSE {}
      [] e.op = "iter" -> IterBad(e, 0, 1, {}) [] e.op = "range" -> RangeWhy(e) [] e.op = "tq" -> TqWhy(e) [] e.op = "enum" -> EnumWhy(e) [] e.op = "rev" -> RevWhy(e)
      [] OTHER -> IF Shown(VecTake(s.vec, e), e.all) THEN {} ELSE {"vector"}
MTake(s, e) ==
    CASE e.op = "mem" -> [s EXCEPT !.mem = [k \in 1..e.n |-> k - 1]] [] e.op = "put" -> [s EXCEPT !.mem = e.m] [] e.op = "colset" -> [s EXCEPT !.mem = e.m]
      [] e.op \in VecOps -> [s EXCEPT !.vec = VecTake(@, e)] [] OTHER -> s
MTell(s, e, why) == IF e.op \in {"at", "put"} THEN "view kind " \o ToString(e.kind) \o " of shape " \o ToString(e.s) \o " at " \o ToString(e.i) \o " gave cell " \o ToString(e.p - e.off) ELSE ""
=============================================================================
