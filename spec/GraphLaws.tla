------------------------------ MODULE GraphLaws ------------------------------
(* Every vector-Jacobian product of GraphOps is the derivative of the value it belongs to: for integer polynomials of   *)
(* degree at most two in each argument, and for piecewise linear operators away from their kinks, the central           *)
(* difference is exact, so   2 <g, J e_j> = <g, F(x + e_j) - F(x - e_j)>   must hold for every unit vector e_j.          *)
EXTENDS GraphOps, FiniteSets, TLC
\* contents: spread out so that no unit step crosses a kink, and with mixed signs
Pat(s, k) == T(s, [i \in 1..Prod(s) |-> 5 * (((i * 7 + k * 3) % 11) - 5) + (IF i % 2 = 0 THEN 2 ELSE 3) * (IF k = 0 THEN 1 ELSE -1) + 12 * (i \div 11)])
Gp(s) == T(s, [i \in 1..Prod(s) |-> ((i * 5) % 7) - 3])
C1(op, s, p) == [op |-> op, s |-> <<s>>, p |-> p]
C2(op, s, r, p) == [op |-> op, s |-> <<s, r>>, p |-> p]
Small == {<<3>>, <<1>>, <<2, 2>>, <<2, 3>>, <<1, 3>>, <<3, 1>>, <<2, 1, 3>>, <<2, 2, 2>>}
Images == {<<1, 4, 4, 1>>, <<2, 3, 4, 1>>, <<1, 3, 3, 2>>}
Cases ==
    { C1(op, s, <<>>) : op \in {"neg", "identity", "square", "abs", "relu", "sign", "oneslike", "sumall"}, s \in Small }
    \cup { C1(op, s, <<c>>) : op \in {"adds", "subs", "ssub", "muls"}, s \in {<<3>>, <<2, 2>>}, c \in {-2, 3} }
    \cup { C1("clip", s, <<-11, 9>>) : s \in Small } \cup { C1("leaky", s, <<4>>) : s \in Small }
    \cup UNION { { C1(op, s, <<ax>>) : ax \in -1..(Len(s) - 1), op \in {"rsum", "rmax", "rmin", "argmax", "argmin", "flip"} } : s \in Small \ {<<1>>, <<3>>} }
    \cup UNION { { C1("repeat", s, <<n, ax>>) : ax \in -1..(Len(s) - 1), n \in 1..3 } : s \in Small }
    \cup { C1("flatten", s, <<>>) : s \in {<<2, 3>>, <<2, 2, 2>>} } \cup { C1("transpose", s, <<>>) : s \in {<<2, 3>>, <<2, 2>>, <<1, 3>>} }
    \cup { C1("reshape", <<2, 3>>, <<1, 3>>), C1("reshape", <<2, 3>>, <<0, 3, 2>>), C1("reshape", <<2, 2, 2>>, <<1, 2>>) }
    \cup { C1("expand", s, <<ax>>) : s \in {<<2, 3>>}, ax \in -1..2 } \cup { C1("squeeze", <<2, 1, 3>>, <<ax>>) : ax \in {-1, 1} }
    \cup { C1("broadcast", <<3>>, <<2, 2, 3>>), C1("broadcast", <<1, 3>>, <<4, 3>>) }
    \cup { C2(op, s, r, <<>>) : op \in {"plus", "minus"}, s \in Small, r \in Small }
    \cup { C2("emul", s, r, <<>>) : s \in {<<2, 3>>, <<2, 1, 3>>}, r \in {<<3>>, <<2, 3>>} }
    \cup { C2("emul", <<3>>, <<2, 3>>, <<>>), C2("emul", <<2, 2, 2>>, <<2, 2>>, <<>>) }
    \cup { C2("mm", <<m, n>>, <<n, k>>, <<>>) : m \in 1..3, n \in 1..3, k \in 1..2 }
    \cup { C2(op, s, s, <<>>) : op \in {"maximum", "minimum", "equal"}, s \in Small }
    \cup UNION { { C2("concat", s, s, <<ax>>) : ax \in -1..(Len(s) - 1) } : s \in Small } \cup { C2("concat", <<2, 1>>, <<2, 3>>, <<1>>), C2("concat", <<1, 3>>, <<2, 3>>, <<0>>) }
    \cup { C1(op, s, <<2>>) : op \in {"maxpool", "avgpool", "upsample"}, s \in Images } \cup { C1(op, <<1, 4, 4, 1>>, <<3>>) : op \in {"maxpool", "avgpool", "upsample"} }
    \cup { C1("zeropad", s, p) : s \in Images, p \in {<<1>>, <<1, 2>>, <<1, 2, 3, 1>>} } \cup { C1("crop", <<1, 4, 4, 2>>, p) : p \in {<<1>>, <<1, 1, 2, 1>>} }
    \cup { C1("im2c", s, <<2, 2, pr, pc, sr, 1, 1, d>>) : s \in Images, pr \in 0..1, pc \in 0..2, sr \in 1..2, d \in 1..2 }
    \cup { C2("conv", s, <<n, r, c, s[4]>>, <<sr, sc, d, 1, same>>) : s \in Images, n \in 1..2, r \in {1, 2}, c \in {1, 3}, sr \in 1..2, sc \in 1..2, d \in 1..2, same \in {0} }
    \cup { C2("conv", s, <<n, k, k, s[4]>>, <<1, 1, d, d, 1>>) : s \in Images, n \in 1..2, k \in {1, 3}, d \in {1} }
    \cup { C2("convt", s, <<1, k, k, s[4]>>, <<k, k, st, st, 1, 1, 0>>) : s \in Images, k \in 1..3, st \in 1..2 }
    \cup { C2("convt", s, <<2, 3, 3, s[4]>>, <<3, 3, 1, 1, 1, 1, 1>>) : s \in Images }
CONSTANT Part   \* "spatial", "plain" or "all"
Spatial == {"maxpool", "avgpool", "upsample", "zeropad", "crop", "im2c", "conv", "convt"}
VARIABLES c, k, j
Xs(cc) == [i \in 1..Len(cc.s) |-> Pat(cc.s[i], i - 1)]
Ok(cc) == Len(cc.s) = 1 \/ (cc.op \in {"plus", "minus"} => CanBroadcast(cc.s[1], cc.s[2]))
Init == c \in {cc \in Cases : Ok(cc) /\ (Part = "all" \/ (Part = "spatial") = (cc.op \in Spatial))} /\ k = 0 /\ j = 0
Next == k = 0 /\ UNCHANGED c /\ \E kk \in 1..Len(c.s) : k' = kk /\ j' \in 1..Prod(c.s[kk])
Spec == Init /\ [][Next]_<<c, k, j>>
Bump(xs, kk, jj, e) == [xs EXCEPT ![kk].d[jj] = @ + e]
Zero(op) == op \in {"sign", "oneslike", "zeroslike", "equal", "argmax", "argmin"}
Derivative ==
    k > 0 =>
      LET xs == Xs(c) up == Bump(xs, k, j, 1) dn == Bump(xs, k, j, -1) IN
      (Smooth(c.op, xs, c.p) /\ Smooth(c.op, up, c.p) /\ Smooth(c.op, dn, c.p)) =>
        LET f == Apply(c.op, xs, c.p) g == Gp(f.s) v == Vjp(c.op, xs, c.p, g, k) IN
        /\ WellFormed(f) /\ v.s = xs[k].s /\ WellFormed(v)
        /\ (~Zero(c.op) => 2 * v.d[j] = Dot(g, Apply(c.op, up, c.p)) - Dot(g, Apply(c.op, dn, c.p)))
        /\ (Zero(c.op) => v.d[j] = 0)
\* the convolution, once more, from its textbook definition
TextbookConv ==
    (k = 0 /\ c.op = "conv") =>
      LET xs == Xs(c) x == xs[1] w == xs[2] p == c.p f == Apply("conv", xs, p)
          pr == IF p[5] = 1 THEN (w.s[2] - 1) \div 2 ELSE 0 pc == IF p[5] = 1 THEN (w.s[3] - 1) \div 2 ELSE 0
          at(b, r, q, ch) == IF r < 0 \/ r >= x.s[2] \/ q < 0 \/ q >= x.s[3] THEN 0 ELSE Get(x, <<b, r, q, ch>>)
      IN f = Gen(f.s, LAMBDA ix :
            SumSeq([e \in 1..(w.s[2] * w.s[3] * w.s[4]) |->
               LET y == Unravel(e - 1, <<w.s[2], w.s[3], w.s[4]>>) IN
               at(ix[1], ix[2] * p[1] - pr + y[1] * p[3], ix[3] * p[2] - pc + y[2] * p[4], y[3]) * Get(w, <<ix[4], y[1], y[2], y[3]>>)]))
\* with unit stride the transposed convolution is the adjoint of the convolution with the same kernel
TransposedConv ==
    (k = 0 /\ c.op = "convt" /\ c.p[3] = 1 /\ c.p[7] = 0 /\ c.s[1][4] = 1) =>
      LET xs == Xs(c) f == Apply("convt", xs, c.p) w == xs[2] IN
      f = ConvAdjoint(Like(f, 0), w, <<1, 1, 1, 1, 0>>, xs[1], 1)
=============================================================================
