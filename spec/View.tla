--------------------------------- MODULE View ---------------------------------
(* Views of one block of memory as an array of any number of dimensions, the rows and columns of a matrix, strided         *)
(* iterators, ranges of numbers, enumeration, reversal, and the storage vectors of tensors.  Cells are numbered from 0.    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Mutant \* "none", or a deliberate mistake that the laws have to reveal
RECURSIVE Extent(_)
Extent(s) == IF s = <<>> THEN 1 ELSE Head(s) * Extent(Tail(s))
\* the cell of a multi index: the last coordinate runs fastest
RECURSIVE Cell(_, _)
Cell(s, i) == IF s = <<>> THEN 0
              ELSE IF Mutant = "stride" THEN Head(i) * (IF Len(s) > 1 THEN Head(s) ELSE 1) + Cell(Tail(s), Tail(i))
              ELSE Head(i) * Extent(Tail(s)) + Cell(Tail(s), Tail(i))
\* the cells of row i and of column k of an R by C matrix
RowOf(R, C, i) == [q \in 1..C |-> Cell(<<R, C>>, <<i, q - 1>>)]
ColOf(R, C, k) == [q \in 1..R |-> Cell(<<R, C>>, <<q - 1, k>>)]
\* a strided iterator is a cell p and a step s: n steps from it lie at
Walk(p, s, n) == IF Mutant = "walk" THEN p + n ELSE p + s * n
Back(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
\* memory: a sequence; Set(m, cells, values)
SetCells(m, c, v) == [k \in 1..Len(m) |-> IF \E q \in 1..Len(c) : c[q] = k - 1 THEN v[CHOOSE q \in 1..Len(c) : c[q] = k - 1] ELSE m[k]]
\* the numbers from a in steps of s, as long as fewer than n are taken
RECURSIVE Numbers(_, _, _)
Numbers(a, s, n) == IF n <= 0 THEN <<>> ELSE <<a>> \o Numbers(a + s, s, n - 1)
RECURSIVE Times(_, _, _)
Times(a, s, b) == IF a >= b THEN <<>> ELSE <<a>> \o Times(a * s, s, b)
RECURSIVE Pow(_, _)
Pow(s, n) == IF n = 0 THEN 1 ELSE s * Pow(s, n - 1)
CeilDiv(x, y) == (x + y - 1) \div y
RangeOf(e) == CASE e.kind = 0 -> Numbers(0, 1, e.b) [] e.kind \in {1, 4} -> Numbers(e.a, 1, e.b - e.a)
                [] e.kind = 2 -> Numbers(e.a, e.s, (e.b - e.a) \div e.s)
                [] e.kind = 3 -> Numbers(e.a, e.s, IF e.s > 0 THEN CeilDiv(e.b - e.a, e.s) ELSE CeilDiv(e.a - e.b, -e.s))
                [] OTHER -> Times(e.a, e.s, e.b)
RangeAt(e, n) == CASE e.kind = 0 -> n [] e.kind \in {1, 4} -> e.a + n [] e.kind \in {2, 3} -> e.a + n * e.s [] OTHER -> e.a * Pow(e.s, n)
=============================================================================
