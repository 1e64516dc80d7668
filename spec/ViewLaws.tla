------------------------------- MODULE ViewLaws -------------------------------
(* Laws of the addressing: every cell belongs to exactly one multi index, a view of a view is a view, rows and columns     *)
(* partition a matrix, walks add up.                                                                                       *)
EXTENDS View, TLC
CONSTANTS MaxExt, MaxDim
VARIABLE s
RECURSIVE Shapes(_)
Shapes(n) == IF n = 0 THEN {<<>>} ELSE UNION { { <<k>> \o t : k \in 1..MaxExt } : t \in Shapes(n - 1) }
RECURSIVE Idx(_)
Idx(t) == IF t = <<>> THEN {<<>>} ELSE UNION { { <<k>> \o i : k \in 0..(Head(t) - 1) } : i \in Idx(Tail(t)) }
Init == s = <<>>
Next == Len(s) < MaxDim /\ \E k \in 1..MaxExt : s' = Append(s, k)
Spec == Init /\ [][Next]_s
Bijection == LET I == Idx(s) c == [i \in I |-> Cell(s, i)] IN
    /\ \A i \in I : c[i] \in 0..(Extent(s) - 1)
    /\ Cardinality({ c[i] : i \in I }) = Extent(s) /\ Cardinality(I) = Extent(s)
\* the view obtained by fixing the first coordinate begins at Cell(s, <<k, 0, ..>>) and is addressed by the rest
Nested == s # <<>> => \A i \in Idx(s) : Cell(s, i) = Cell(s, <<Head(i)>> \o [k \in 1..(Len(s) - 1) |-> 0]) + Cell(Tail(s), Tail(i))
\* any two shapes of the same extent number the same cells in the same order
Reshaped == Len(s) = 2 => \A i \in Idx(s) : Cell(s, i) = Cell(<<Extent(s)>>, <<i[1] * s[2] + i[2]>>)
Lines == Len(s) = 2 =>
    LET R == s[1] C == s[2] S(q) == { q[k] : k \in 1..Len(q) } IN
    /\ UNION { S(RowOf(R, C, i)) : i \in 0..(R - 1) } = 0..(R * C - 1) /\ UNION { S(ColOf(R, C, k)) : k \in 0..(C - 1) } = 0..(R * C - 1)
    /\ \A i \in 0..(R - 1), k \in 0..(C - 1) : S(RowOf(R, C, i)) \cap S(ColOf(R, C, k)) = {Cell(s, <<i, k>>)}
    /\ \A k \in 0..(C - 1), q \in 1..R : ColOf(R, C, k)[q] = Walk(k, C, q - 1)
Walks == s = <<>> => \A p \in 0..5, t \in -3..3, a \in -3..3, b \in -3..3 : Walk(Walk(p, t, a), t, b) = Walk(p, t, a + b) /\ (a # b /\ t # 0 => Walk(p, t, a) # Walk(p, t, b)) /\ (a = 1 => Walk(p, t, a) = p + t)
Steps == s = <<>> => \A a \in 0..3, b \in 0..12, t \in 1..4 : LET e == [kind |-> 3, a |-> a, b |-> b, s |-> t] q == RangeOf(e) IN
    { q[k] : k \in 1..Len(q) } = { x \in a..(b - 1) : (x - a) % t = 0 } /\ \A k \in 1..Len(q) : q[k] = RangeAt(e, k - 1)
=============================================================================
