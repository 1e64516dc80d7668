------------------------------ MODULE ImageTrace ------------------------------
(* What recorded writes, reads and resizings of images may show.                                                           *)
EXTENDS Image, Replay
Abs(x) == IF x < 0 THEN -x ELSE x
Close(x, y, t) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : Abs(x[k] - y[k]) <= t
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Values(e) == IF e.ty = "byte" THEN e.x ELSE Stretch(e.x)
\* the stored image and how far a read pixel may be from it: bytes in lossless files are exact, stretching rounds, JPEG is lossy
File(e) == LET f == Format(FileOf(e.name)) IN
    [im |-> Stored(f, e.s, Values(e)), tol |-> IF f = "jpg" THEN (IF e.flat = 1 THEN 4 ELSE 255) ELSE IF e.ty = "byte" THEN 0 ELSE 1]
Written(s, e) == Put(s, FileOf(e.name), File(e))
WriteWhy(s, e) ==
    (IF e.caught # "" THEN {"thrown"} ELSE IF e.r # 1 THEN {"failed"} ELSE {}) \cup (IF e.kept # 1 THEN {"changed"} ELSE {})
    \cup (IF { e.files[k] : k \in 1..Len(e.files) } # DOMAIN Written(s, e) THEN {"name"} ELSE {})
ReadWhy(s, e) == IF e.name \notin DOMAIN s THEN (IF e.empty = 1 THEN {} ELSE {"phantom"})
    ELSE (IF e.s # s[e.name].im.s THEN {"shape"} ELSE IF ~Close(e.d, s[e.name].im.d, s[e.name].tol) THEN {"pixel"} ELSE {})
ResizeWhy(e) ==
    (IF e.sg # <<e.ow, e.oh>> \/ e.sc # <<e.ow, e.oh, e.ch>> THEN {"shape"} ELSE
     LET N == e.ow * e.oh X(k) == (k - 1) % e.ow  Y(k) == (k - 1) \div e.ow IN
     IF Len(e.g) # N \/ Len(e.c) # N * e.ch \/ Len(e.t) # N \/ Len(e.m) # N \/ Len(e.one) # N THEN {"size"} ELSE
     (IF e.one # e.g THEN {"gray"} ELSE {})
     \cup (IF \E k \in 1..N, q \in 1..e.ch : Abs(e.c[(k - 1) * e.ch + q] - (IF q % 2 = 0 THEN 255 - e.g[k] ELSE e.g[k])) > 1 THEN {"channel"} ELSE {})
     \cup (IF \E k \in 1..N : Abs(e.t[X(k) * e.oh + Y(k) + 1] - e.g[k]) > 1 THEN {"transposed"} ELSE {})
     \cup (IF \E k \in 1..N : Abs(e.m[Y(k) * e.ow + (e.ow - 1 - X(k)) + 1] - e.g[k]) > 1 THEN {"mirrored"} ELSE {})
     \cup (IF e.kind = "flat" /\ \E k \in 1..N : Abs(e.g[k] - e.x[1]) > 1 THEN {"constant"} ELSE {})
     \cup (IF e.kind = "cols" /\ \E k \in 1..N : Abs(e.g[k] - e.g[X(k) + 1]) > 1 THEN {"line"} ELSE {})
     \cup (IF e.kind = "rows" /\ \E k \in 1..N : Abs(e.g[k] - e.g[Y(k) * e.ow + 1]) > 1 THEN {"line"} ELSE {}))
    \cup (IF e.kept # 1 THEN {"changed"} ELSE {})
MStart == [x \in {} |-> 0]
MWhy(s, e) == CASE e.op = "write" -> WriteWhy(s, e) [] e.op = "read" -> ReadWhy(s, e) [] OTHER -> ResizeWhy(e)
MTake(s, e) == IF e.op = "write" THEN Written(s, e) ELSE s
MTell(s, e, why) == IF e.op = "resize" THEN ToString(<<e.w, e.h>>) \o " to " \o ToString(<<e.ow, e.oh>>) \o " channels " \o ToString(e.ch) ELSE e.name \o " " \o ToString(e.s)
=============================================================================
