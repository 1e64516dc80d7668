------------------------------ MODULE UtilTrace ------------------------------
(* What recorded calls of the utilities may show: the caching allocator (Alloc), parallel loops, LZW round trips, the     *)
(* reader of IDX files.                                                                                                    *)
EXTENDS Alloc, Replay
\* --- parallel loops: c counts the calls per index of a window that begins off indices before the range; the last entry is outside the window
ParWhy(e) == LET w == e.n + 6 IN
    IF Len(e.c) # w + 1 THEN {"record"} ELSE
    (IF \E k \in 1..w : k > e.off /\ k <= e.off + e.n /\ e.c[k] = 0 THEN {"missed"} ELSE {})
    \cup (IF \E k \in 1..w : k > e.off /\ k <= e.off + e.n /\ e.c[k] > 1 THEN {"repeated"} ELSE {})
    \cup (IF \E k \in 1..(w + 1) : ~(k > e.off /\ k <= e.off + e.n) /\ e.c[k] > 0 THEN {"outside"} ELSE {})
\* --- loops over several ranges: element k of the ranges is 2k+1, 3k+2, 5k, and the last range starts as zeros
EachWhy(e) ==
    LET A(k) == 2 * (k - 1) + 1  B(k) == 3 * (k - 1) + 2  C(k) == 5 * (k - 1)
        D(k) == CASE e.ar = 1 -> 0 [] e.ar = 2 -> A(k) [] e.ar = 3 -> 1000 * A(k) + B(k) [] OTHER -> 100000 * A(k) + 1000 * B(k) + C(k) IN
    (IF \E k \in 1..e.n : e.c[k] = 0 THEN {"missed"} ELSE {})
    \cup (IF \E k \in 1..e.n : e.c[k] > 1 THEN {"repeated"} ELSE {})
    \cup (IF \E k \in 1..e.n : e.a[k] # (IF e.ar = 1 THEN -A(k) ELSE A(k)) \/ e.d[k] # D(k) THEN {"paired"} ELSE {})
\* --- LZW
LzwWhy(e) == (IF e.r # 0 THEN {"status"} ELSE {}) \cup (IF e.m # e.n THEN {"length"} ELSE {}) \cup (IF e.diff # -1 THEN {"bytes"} ELSE {})
             \cup (IF e.in # e.out THEN {"bytes"} ELSE {})
\* --- IDX files
PartWhy(p) ==
    (IF p.si # <<p.n, 28, 28>> \/ p.sl # <<p.n, 10>> THEN {"shape"} ELSE {})
    \cup (IF p.diff # -1 \/ p.img # p.file THEN {"pixel"} ELSE {})
    \cup (IF Len(p.lf) # p.n THEN {"label"}
          ELSE IF p.n > 5000 THEN (IF p.oh # p.lf THEN {"label"} ELSE {}) \* a large file: the place of the one in each row
          ELSE IF Len(p.lab) # 10 * p.n \/ \E k \in 1..Len(p.lab) : p.lab[k] # (IF p.lf[((k - 1) \div 10) + 1] = ((k - 1) % 10) THEN 1 ELSE 0) THEN {"label"} ELSE {})
MStart == AStart
MWhy(s, e) == CASE e.op = "par" -> ParWhy(e) [] e.op = "each" -> EachWhy(e) [] e.op = "lzw" -> LzwWhy(e)
                [] e.op = "idx" -> UNION { PartWhy(e.parts[k]) : k \in 1..Len(e.parts) }
                [] OTHER -> AWhy(s, e)
MTake(s, e) == IF e.op \in {"alloc", "dealloc", "gc", "destroy"} THEN ATake(s, e) ELSE s
MTell(s, e, why) ==
    CASE e.op = "alloc" -> "block " \o ToString(e.i) \o " of " \o ToString(e.n) \o " bytes, live " \o ToString(DOMAIN s.live) \o " reserve " \o ToString(Cardinality(s.reserve)) \o " blocks"
      [] e.op = "par" -> ToString(e.n) \o " indices, " \o ToString(e.cores) \o " cores, threshold " \o ToString(e.thr)
      [] e.op = "each" -> ToString(e.n) \o " elements, " \o ToString(e.ar) \o " ranges"
      [] e.op = "lzw" -> ToString(e.n) \o " bytes in, " \o ToString(e.m) \o " out, first difference " \o ToString(e.diff)
      [] OTHER -> ""
=============================================================================
