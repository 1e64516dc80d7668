------------------------------ MODULE ImageLaws ------------------------------
(* A directory of image files: reading finds what was last written under that name, in the shape it was written; writing   *)
(* one image changes no other; stretching keeps the order of the pixels and uses the whole range.                           *)
EXTENDS Image, TLC
CONSTANT Depth
VARIABLES dir, last, n
Names == {"a", "a.png", "a.bmp", "b.tga"}
Shapes == {<<1, 2>>, <<2, 1, 3>>, <<1, 1, 4>>}
Size(s) == s[1] * s[2] * Channels(s)
Vals(s) == {[k \in 1..Size(s) |-> (40 * k) % 256], [k \in 1..Size(s) |-> IF k % 4 = 0 THEN 255 ELSE 17 * k], [k \in 1..Size(s) |-> 9]}
Init == dir = [x \in {} |-> 0] /\ last = [x \in {} |-> 0] /\ n = 0
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Next == n < Depth /\ n' = n + 1 /\ \E nm \in Names, s \in Shapes : \E v \in Vals(s) :
    /\ dir' = Put(dir, FileOf(nm), Stored(Format(FileOf(nm)), s, v))
    /\ last' = Put(last, nm, [s |-> s, v |-> v]) \* "a" and "a.png" are the same file
Spec == Init /\ [][Next]_<<dir, last, n>>
Extension == \A f \in DOMAIN dir : Ext(f) \in Known
Faithful == \A nm \in DOMAIN last : nm \in {"a.bmp", "b.tga"} =>
    LET w == last[nm] r == dir[nm] IN
    /\ r.s[1] = w.s[1] /\ r.s[2] = w.s[2] /\ Len(r.d) = r.s[1] * r.s[2] * r.s[3]
    /\ nm = "b.tga" => r.d = w.v /\ r.s[3] = Channels(w.s)
    /\ nm = "a.bmp" => \A p \in 0..(w.s[1] * w.s[2] - 1), c \in 1..3 :
          LET ch == Channels(w.s) IN
          (ch = 1 => r.d[3 * p + c] = w.v[p + 1]) /\ (ch = 3 => r.d[3 * p + c] = w.v[3 * p + c])
          /\ (ch = 4 /\ w.v[4 * p + 4] = 255 => r.d[3 * p + c] = w.v[4 * p + c])
Ranges == n = 0 => \A a \in -3..3, b \in -3..3, c \in -3..3 : LET x == <<a, b, c>> y == Stretch(x) IN
    /\ \A k \in 1..3 : y[k] \in 0..255
    /\ \A i \in 1..3, j \in 1..3 : x[i] < x[j] => y[i] < y[j]
    /\ Cardinality({a, b, c}) > 1 => {0, 255} \subseteq {y[k] : k \in 1..3}
=============================================================================
