-------------------------------- MODULE Image --------------------------------
(* Image files: a tensor of shape <<width, height>> or <<width, height, channels>> written under a name and read again.     *)
(* An unknown or missing extension gets ".png" appended.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Mutant
Channels(s) == IF Len(s) = 2 THEN 1 ELSE s[3]
RECURSIVE LastDot(_, _)
LastDot(n, k) == IF k = 0 THEN 0 ELSE IF SubSeq(n, k, k) = "." THEN k ELSE LastDot(n, k - 1)
Ext(n) == LET k == LastDot(n, Len(n)) IN IF k = 0 THEN "" ELSE SubSeq(n, k, Len(n))
Known == {".png", ".bmp", ".tga", ".jpg", ".jpeg"}
FileOf(n) == IF Ext(n) \in Known \/ Mutant = "name" THEN n ELSE n \o ".png"
Format(n) == IF Ext(n) \in {".jpg", ".jpeg"} THEN "jpg" ELSE IF Ext(n) = ".bmp" THEN "bmp" ELSE "exact"
Quot(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
Back(k) == IF k = 2 THEN 0 ELSE 255 \* files without transparency show the image on magenta
\* the pixels a reader finds; v: the byte values handed to the writer
Pixels(f, ch, v) ==
    IF f = "bmp" THEN
        CASE ch = 1 -> [q \in 1..(3 * Len(v)) |-> v[((q - 1) \div 3) + 1]]
          [] ch = 3 -> IF Mutant = "bgr" THEN [q \in 1..Len(v) |-> v[q - ((q - 1) % 3) + (2 - ((q - 1) % 3))]] ELSE v
          [] OTHER -> [q \in 1..(3 * (Len(v) \div 4)) |-> LET p == (q - 1) \div 3 c == ((q - 1) % 3) + 1 d == v[4 * p + c] a == v[4 * p + 4] IN Back(c) + Quot((d - Back(c)) * a, 255)]
    ELSE IF f = "jpg" THEN
        [q \in 1..(3 * (Len(v) \div ch)) |-> LET p == (q - 1) \div 3 c == ((q - 1) % 3) + 1 IN v[p * ch + (IF ch = 1 THEN 1 ELSE c)]]
    ELSE v
Stored(f, s, v) == [s |-> <<s[1], s[2], IF f = "exact" THEN Channels(s) ELSE 3>>, d |-> Pixels(f, Channels(s), v)]
Low(x) == CHOOSE m \in { x[k] : k \in 1..Len(x) } : \A k \in 1..Len(x) : x[k] >= m
High(x) == CHOOSE m \in { x[k] : k \in 1..Len(x) } : \A k \in 1..Len(x) : x[k] <= m
\* images of other numbers are stretched over the bytes, the largest just below or at 255
Stretch(x) == LET a == Low(x) b == High(x) IN [k \in 1..Len(x) |-> IF a = b THEN 0 ELSE (255 * (x[k] - a)) \div (b - a)]
=============================================================================
