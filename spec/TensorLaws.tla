----------------------------- MODULE TensorLaws -----------------------------
(* The laws that pin the tensor algebra down, checked for every tensor of small shape with small elements.   *)
(* One state per pair of tensors (shapes enumerated completely, contents from a few patterns).               *)
EXTENDS Tensor, FiniteSets, TLC
CONSTANTS MaxRank, MaxDim
Shapes == UNION { [1..r -> 1..MaxDim] : r \in 1..MaxRank }
SmallShapes == { s \in Shapes : Prod(s) <= 12 }
Pat(s, k) == T(s, [i \in 1..Prod(s) |-> CASE k = 0 -> i [] k = 1 -> ((i * 7) % 5) - 2 [] OTHER -> -i])
VARIABLES a, b, done      \* the second tensor is drawn in a step of its own, so that TLC's workers share the work
Init == \E s1 \in SmallShapes, k1 \in 0..2 : a = Pat(s1, k1) /\ b = a /\ done = FALSE
Next == ~done /\ done' = TRUE /\ a' = a /\ \E s2 \in SmallShapes : b' = Pat(s2, 1)
Spec == Init /\ [][Next]_<<a, b, done>>
axes(t) == (0..(Len(t.s) - 1)) \cup {-1}
RavelInv == \A k \in 0..(Len(a.d) - 1) : Ravel(Unravel(k, a.s), a.s) = k
BroadcastLaws ==
    CanBroadcast(a.s, b.s) =>
        /\ Add(a, b) = Add(b, a)
        /\ WellFormed(Add(a, b))
        /\ Add(Sub(a, b), b) = BroadcastTo(a, BroadcastShape(a.s, b.s))
        \* Unbroadcast is the transpose of BroadcastTo
        /\ LET s == BroadcastShape(a.s, b.s) IN
           Dot(BroadcastTo(a, s), Pat(s, 0)) = Dot(a, Unbroadcast(Pat(s, 0), a.s))
FlipLaws == \A ax \in axes(a) : Flip(Flip(a, ax), ax) = a /\ SumSeq(Flip(a, ax).d) = SumSeq(a.d)
ConcatLaws == \A ax \in axes(a) :
    LET p == Axis(a, ax) IN
    (Len(a.s) = Len(b.s) /\ \A i \in 1..Len(a.s) : i # p => a.s[i] = b.s[i]) =>
        LET c == Concat(a, b, ax) IN
        /\ WellFormed(c) /\ SumSeq(c.d) = SumSeq(a.d) + SumSeq(b.d)
        /\ Flip(c, ax) = Concat(Flip(b, ax), Flip(a, ax), ax)
        /\ (p = 1 => c.d = a.d \o b.d)
ReduceLaws == \A ax \in axes(a) : \A kd \in {0, 1} :
        /\ WellFormed(SumAx(a, ax, kd))
        /\ SumSeq(SumAx(a, ax, kd).d) = SumSeq(a.d)
        /\ MaxS(MaxAx(a, ax, kd).d) = MaxS(a.d)
        /\ MinAx(a, ax, kd) = Map(MaxAx(Map(a, LAMBDA x : -x), ax, kd), LAMBDA x : -x)
        /\ SumAx(Flip(a, ax), ax, kd) = SumAx(a, ax, kd)
        /\ \A n \in 1..2 : SumAx(RepeatAx(a, n, ax), ax, kd) = Map(SumAx(a, ax, kd), LAMBDA x : n * x)
MatLaws ==
    CanProduct(a, b) =>
        LET x == AsRow(a) y == AsCol(b) IN
        /\ Transpose2(MatMul(x, y)) = MatMul(Transpose2(y), Transpose2(x))
        \* <x y, g> = <x, g y'> = <y, x' g>: the adjoints used by backpropagation
        /\ LET g == Pat(<<x.s[1], y.s[2]>>, 0) IN
           /\ Dot(MatMul(x, y), g) = Dot(x, MatMul(g, Transpose2(y)))
           /\ Dot(MatMul(x, y), g) = Dot(y, MatMul(Transpose2(x), g))
RepmatLaws == Len(a.s) = 2 => \A r \in 1..2, c \in 1..2 :
        Repmat(a, r, c) = (LET row == IF c = 1 THEN a ELSE Concat(a, a, 1) IN IF r = 1 THEN row ELSE Concat(row, row, 0))
SqueezeLaws == WellFormed(Squeeze(a)) /\ Squeeze(Squeeze(a)) = Squeeze(a)
=============================================================================
