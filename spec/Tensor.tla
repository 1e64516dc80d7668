------------------------------- MODULE Tensor -------------------------------
(* The algebra of dense row-major tensors over the integers.  A tensor is a record [s |-> shape, d |-> data].  *)
(* Coordinates are sequences of 0-based indices; everything else derives from Ravel / Unravel.                 *)
EXTENDS Integers, Sequences, SequencesExt

Prod(s)    == FoldLeft(LAMBDA a, b : a * b, 1, s)
SumSeq(s)  == FoldLeft(LAMBDA a, b : a + b, 0, s)
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
AbsI(a)    == IF a < 0 THEN -a ELSE a
MaxS(s)     == FoldLeft(MaxI, s[1], s)
MinS(s)     == FoldLeft(MinI, s[1], s)
Seqn(n, F(_)) == [i \in 1..n |-> F(i)]
Fill(n, v) == [i \in 1..n |-> v]
Iota(n)    == [i \in 1..n |-> i]
DropAt(s, i)     == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsertIn(s, i, v) == SubSeq(s, 1, i - 1) \o <<v>> \o SubSeq(s, i, Len(s))
\* quotient rounding towards minus infinity is TLA's \div; Quot is exact division
Quot(a, b) == IF b < 0 THEN (-a) \div (-b) ELSE a \div b
Exact(a, b) == b # 0 /\ (AbsI(a) % AbsI(b)) = 0

T(s, d)    == [s |-> s, d |-> d]
Size(t)    == Len(t.d)
WellFormed(t) == Len(t.d) = Prod(t.s)

Strides(s) == [i \in 1..Len(s) |-> Prod(SubSeq(s, i + 1, Len(s)))]
Unravel(k, s) == LET st == Strides(s) IN [i \in 1..Len(s) |-> (k \div st[i]) % s[i]]
Ravel(ix, s)  == FoldLeft(LAMBDA acc, i : acc * s[i] + ix[i], 0, Iota(Len(s)))
Get(t, ix) == t.d[Ravel(ix, t.s) + 1]
\* tensor of shape s whose element at coordinates ix is F(ix)
Gen(s, F(_)) ==
    LET st == Strides(s)
        n  == Prod(s)
        r  == Len(s)
    IN T(s, [k \in 1..n |-> F([i \in 1..r |-> ((k - 1) \div st[i]) % s[i]])])
Map(t, F(_)) == T(t.s, [k \in 1..Len(t.d) |-> F(t.d[k])])
ZipSame(a, b, F(_, _)) == T(a.s, [k \in 1..Len(a.d) |-> F(a.d[k], b.d[k])])

------------------------------------------------------------------------------
(* Broadcasting: shapes are aligned to the right, equal or one, missing leading dimensions count as one. *)
Rank(s, n) == Fill(n - Len(s), 1) \o s
CanBroadcast(s1, s2) ==
    LET n == MaxI(Len(s1), Len(s2)) IN
    LET a == Rank(s1, n) b == Rank(s2, n) IN \A i \in 1..n : a[i] = b[i] \/ a[i] = 1 \/ b[i] = 1
BroadcastShape(s1, s2) ==
    LET n == MaxI(Len(s1), Len(s2)) IN
    LET a == Rank(s1, n) b == Rank(s2, n) IN [i \in 1..n |-> IF a[i] = 1 THEN b[i] ELSE a[i]]
\* element of t that broadcasting places at coordinates ix of a tensor of higher or equal rank
BAt(t, ix) == LET off == Len(ix) - Len(t.s) IN
              Get(t, [i \in 1..Len(t.s) |-> IF t.s[i] = 1 THEN 0 ELSE ix[i + off]])
BroadcastTo(t, s) == IF t.s = s THEN t ELSE Gen(s, LAMBDA ix : BAt(t, ix))
BZip(a, b, F(_, _)) ==
    IF a.s = b.s THEN ZipSame(a, b, F)
    ELSE LET s == BroadcastShape(a.s, b.s) IN ZipSame(BroadcastTo(a, s), BroadcastTo(b, s), F)
Add(a, b) == BZip(a, b, LAMBDA x, y : x + y)
Sub(a, b) == BZip(a, b, LAMBDA x, y : x - y)
Mul(a, b) == BZip(a, b, LAMBDA x, y : x * y)
\* the transposed map of broadcasting: add up the elements that stem from one element
Unbroadcast(t, s) ==
    IF t.s = s THEN t
    ELSE LET n == Len(t.s) off == n - Len(s) IN
         LET grp(j) == SelectSeq(Iota(Len(t.d)), LAMBDA k :
                         LET ix == Unravel(k - 1, t.s) IN
                         Ravel([i \in 1..Len(s) |-> IF s[i] = 1 THEN 0 ELSE ix[i + off]], s) = j - 1)
         IN T(s, [j \in 1..Prod(s) |-> FoldLeft(LAMBDA acc, k : acc + t.d[k], 0, grp(j))])

------------------------------------------------------------------------------
(* Structure *)
Reshape(t, s) == T(s, t.d)
Squeeze(t) == IF Len(t.d) = 1 THEN T(<<1>>, t.d) ELSE T(SelectSeq(t.s, LAMBDA x : x > 1), t.d)
Axis(t, ax) == IF ax = -1 THEN Len(t.s) ELSE ax + 1         \* 1-based position of an axis argument
SqueezeAx(t, ax) == IF ax = -1 THEN Squeeze(t) ELSE T(DropAt(t.s, ax + 1), t.d)
Flip(t, ax) == LET p == Axis(t, ax) IN Gen(t.s, LAMBDA ix : Get(t, [ix EXCEPT ![p] = t.s[p] - 1 - ix[p]]))
RepeatLead(t, n) == T(<<n>> \o t.s, [k \in 1..(n * Len(t.d)) |-> t.d[((k - 1) % Len(t.d)) + 1]])
\* every slice along the axis appears n times in a row
RepeatAx(t, n, ax) == LET p == Axis(t, ax) IN
    Gen([t.s EXCEPT ![p] = t.s[p] * n], LAMBDA ix : Get(t, [ix EXCEPT ![p] = ix[p] \div n]))
AlignTo(t, s) == LET lead == SubSeq(s, 1, Len(s) - Len(t.s)) IN T(lead \o t.s, RepeatLead(t, Prod(lead)).d)
Concat2(a, b, ax) ==
    LET p == Axis(a, ax) IN
    Gen([a.s EXCEPT ![p] = a.s[p] + b.s[p]],
        LAMBDA ix : IF ix[p] < a.s[p] THEN Get(a, ix) ELSE Get(b, [ix EXCEPT ![p] = ix[p] - a.s[p]]))
Concat(a, b, ax) == IF Len(a.s) < Len(b.s) THEN Concat2(AlignTo(a, b.s), b, ax)
                    ELSE IF Len(a.s) > Len(b.s) THEN Concat2(a, AlignTo(b, a.s), ax)
                    ELSE Concat2(a, b, ax)
Repmat(t, r, c) == Gen(<<t.s[1] * r, t.s[2] * c>>, LAMBDA ix : Get(t, <<ix[1] % t.s[1], ix[2] % t.s[2]>>))
Transpose2(t) == Gen(<<t.s[2], t.s[1]>>, LAMBDA ix : Get(t, <<ix[2], ix[1]>>))
Const(s, v) == T(s, Fill(Prod(s), v))

------------------------------------------------------------------------------
(* Matrix product *)
MatMul(a, b) ==
    LET m == a.s[1] n == a.s[2] k == b.s[2] IN
    T(<<m, k>>, [x \in 1..(m * k) |->
        LET r == (x - 1) \div k c == (x - 1) % k IN
        FoldLeft(LAMBDA acc, i : acc + a.d[r * n + i] * b.d[(i - 1) * k + c + 1], 0, Iota(n))])
AsRow(t) == IF Len(t.s) = 1 THEN T(<<1, t.s[1]>>, t.d) ELSE t
AsCol(t) == IF Len(t.s) = 1 THEN T(<<t.s[1], 1>>, t.d) ELSE t
\* a vector is a row on the left; on the right, it is a column (the left operand is then a matrix or a row)
Product(a, b) == MatMul(AsRow(a), AsCol(b))
CanProduct(a, b) == LET x == AsRow(a).s y == AsCol(b).s IN Len(x) = 2 /\ Len(y) = 2 /\ x[2] = y[1]

------------------------------------------------------------------------------
(* Reductions.  Slice(t, p, ix): the elements that share all coordinates but the p-th. *)
Slice(t, p, ix) == [i \in 1..t.s[p] |-> Get(t, [ix EXCEPT ![p] = i - 1])]
Reduce(t, ax, F(_)) ==
    LET p == Axis(t, ax) IN Gen([t.s EXCEPT ![p] = 1], LAMBDA ix : F(Slice(t, p, ix)))
DropAxis(t, ax, p) == T(DropAt(t.s, p), t.d)
ReduceKd(t, ax, kd, F(_)) == LET r == Reduce(t, ax, F) IN IF kd = 1 THEN r ELSE DropAxis(r, ax, Axis(t, ax))
SumAx(t, ax, kd) == ReduceKd(t, ax, kd, SumSeq)
MaxAx(t, ax, kd) == ReduceKd(t, ax, kd, MaxS)
MinAx(t, ax, kd) == ReduceKd(t, ax, kd, MinS)
\* n * sum of squares - square of sum: n^2 times the variance
Disp(s) == Len(s) * FoldLeft(LAMBDA a, b : a + b * b, 0, s) - SumSeq(s) * SumSeq(s)
Dot(a, b) == FoldLeft(LAMBDA acc, k : acc + a.d[k] * b.d[k], 0, Iota(Len(a.d)))
=============================================================================
