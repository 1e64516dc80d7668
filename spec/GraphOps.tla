------------------------------ MODULE GraphOps ------------------------------
(* The operators of an expression graph: for each, the tensor it denotes, its domain of differentiability and the       *)
(* vector-Jacobian product, all over the integers.  Structural operators are given by what they do to *positions*:      *)
(* applied to the tensor of positions 1..n they tell, for every element of the output, which input element it is        *)
(* (0: none, a zero), so that the value is a gather and the gradient is the scatter-add along the same index tensor.    *)
EXTENDS Tensor
Index(s)  == T(s, Iota(Prod(s)))
Gather(t, src)  == T(src.s, [k \in 1..Len(src.d) |-> IF src.d[k] = 0 THEN 0 ELSE t.d[src.d[k]]])
Scatter(g, src, s) ==
    T(s, FoldLeft(LAMBDA acc, k : IF src.d[k] = 0 THEN acc ELSE [acc EXCEPT ![src.d[k]] = @ + g.d[k]], Fill(Prod(s), 0), Iota(Len(src.d))))
Like(t, v) == T(t.s, Fill(Len(t.d), v))

------------------------------------------------------------------------------
(* geometry of images [batch, row, column, channel] *)
ZeroPad(t, p) == Gen(<<t.s[1], t.s[2] + p[1] + p[2], t.s[3] + p[3] + p[4], t.s[4]>>,
    LAMBDA ix : LET r == ix[2] - p[1] c == ix[3] - p[3] IN
                IF r < 0 \/ r >= t.s[2] \/ c < 0 \/ c >= t.s[3] THEN 0 ELSE Get(t, <<ix[1], r, c, ix[4]>>))
Crop(t, p) == Gen(<<t.s[1], t.s[2] - p[1] - p[2], t.s[3] - p[3] - p[4], t.s[4]>>,
    LAMBDA ix : Get(t, <<ix[1], ix[2] + p[1], ix[3] + p[3], ix[4]>>))
Pads(p) == IF Len(p) = 1 THEN <<p[1], p[1], p[1], p[1]>> ELSE IF Len(p) = 2 THEN <<p[1], p[1], p[2], p[2]>> ELSE p
UpSample(t, k) == Gen(<<t.s[1], t.s[2] * k, t.s[3] * k, t.s[4]>>, LAMBDA ix : Get(t, <<ix[1], ix[2] \div k, ix[3] \div k, ix[4]>>))
\* the zero-interleaved image of a transposed convolution
Dilated(t, rk, ck, sr, sc, same) ==
    LET ro == IF same = 1 THEN 0 ELSE rk - 1 co == IF same = 1 THEN 0 ELSE ck - 1 IN
    Gen(<<t.s[1], t.s[2] * sr + 2 * ro, t.s[3] * sc + 2 * co, t.s[4]>>,
        LAMBDA ix : LET r == ix[2] - ro c == ix[3] - co IN
            IF r < 0 \/ c < 0 \/ (r % sr) # 0 \/ (c % sc) # 0 \/ r \div sr >= t.s[2] \/ c \div sc >= t.s[3] THEN 0
            ELSE Get(t, <<ix[1], r \div sr, c \div sc, ix[4]>>))
\* the pooling windows: the elements of window (b, r, c, ch), row by row
Windows(t, k) == LET s == <<t.s[1], t.s[2] \div k, t.s[3] \div k, t.s[4]>> IN
    [ s |-> s, w |-> Gen(s, LAMBDA ix : [e \in 1..(k * k) |-> Ravel(<<ix[1], ix[2] * k + (e - 1) \div k, ix[3] * k + ((e - 1) % k), ix[4]>>, t.s) + 1]).d ]
SamePad(k, d, st) == LET total == k + (k - 1) * (d - 1) - st IN ((k % 2) + total) \div 2
\* patches seen by the kernel: [batch, out row, out column, kernel row, kernel column, channel]
PaddedPatches(t, rk, ck, pr, pc, sr, sc, dr, dc) ==
    LET ro == (t.s[2] + 2 * pr - (dr * (rk - 1) + 1)) \div sr + 1
        co == (t.s[3] + 2 * pc - (dc * (ck - 1) + 1)) \div sc + 1
    IN Gen(<<t.s[1], ro, co, rk, ck, t.s[4]>>,
           LAMBDA ix : LET r == ix[2] * sr + ix[4] * dr - pr c == ix[3] * sc + ix[5] * dc - pc IN
                IF r < 0 \/ r >= t.s[2] \/ c < 0 \/ c >= t.s[3] THEN 0 ELSE Get(t, <<ix[1], r, c, ix[6]>>))
Patches(t, rk, ck, sr, sc, dr, dc, same) ==
    PaddedPatches(t, rk, ck, IF same = 1 THEN SamePad(rk, dr, sr) ELSE 0, IF same = 1 THEN SamePad(ck, dc, sc) ELSE 0, sr, sc, dr, dc)
\* the patches as the columns of a matrix: a row for every element of the kernel, a column for every place of the kernel
Columns(t, p) ==
    LET q == PaddedPatches(t, p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8]) K == p[1] * p[2] * t.s[4] M == Len(q.d) \div K IN
    T(<<K, M>>, [e \in 1..(K * M) |-> q.d[((e - 1) % M) * K + (e - 1) \div M + 1]])
ConvPatches(s, ks, p) == Patches(Index(s), ks[2], ks[3], p[1], p[2], p[3], p[4], p[5])
AsMat(t, cols) == T(<<Len(t.d) \div cols, cols>>, t.d)
Conv(img, ker, p) ==
    LET pt == Gather(img, ConvPatches(img.s, ker.s, p))
        K  == Len(ker.d) \div ker.s[1]
    IN T(<<pt.s[1], pt.s[2], pt.s[3], ker.s[1]>>, MatMul(AsMat(pt, K), Transpose2(AsMat(ker, K))).d)
ConvAdjoint(img, ker, p, g, k) ==
    LET src == ConvPatches(img.s, ker.s, p)
        K   == Len(ker.d) \div ker.s[1]
        gm  == AsMat(g, ker.s[1])
    IN IF k = 1 THEN Scatter(T(src.s, MatMul(gm, AsMat(ker, K)).d), src, img.s)
       ELSE T(ker.s, MatMul(Transpose2(gm), AsMat(Gather(img, src), K)).d)

------------------------------------------------------------------------------
(* structural operators with one argument: F maps tensors of shape s (of anything that has a zero) *)
Structural == {"identity", "reshape", "flatten", "expand", "squeeze", "flip", "transpose", "repeat", "broadcast", "zeropad", "crop", "upsample", "interleave", "im2c", "count"}
Clamp(ax, t) == IF ax = -1 \/ ax >= Len(t.s) THEN Len(t.s) - 1 ELSE ax
Move(op, t, p) ==
    CASE op \in {"identity", "count"} -> t
      [] op = "reshape"   -> LET s == SubSeq(p, 2, Len(p)) IN T(IF p[1] = 1 THEN <<Len(t.d) \div Prod(s)>> \o s ELSE s, t.d)
      [] op = "flatten"   -> T(<<t.s[1], Len(t.d) \div t.s[1]>>, t.d)
      [] op = "expand"    -> T(InsertIn(t.s, IF p[1] = -1 THEN Len(t.s) + 1 ELSE p[1] + 1, 1), t.d)
      [] op = "squeeze"   -> SqueezeAx(t, p[1])
      [] op = "flip"      -> Flip(t, p[1])
      [] op = "transpose" -> Transpose2(t)
      [] op = "repeat"    -> RepeatAx(t, p[1], Clamp(p[2], t))
      [] op = "broadcast" -> T(p, [k \in 1..Prod(p) |-> t.d[((k - 1) % Len(t.d)) + 1]])
      [] op = "zeropad"   -> ZeroPad(t, Pads(p))
      [] op = "crop"      -> Crop(t, Pads(p))
      [] op = "upsample"  -> UpSample(t, p[1])
      [] op = "im2c"      -> Columns(t, p)
      [] op = "interleave" -> Dilated(t, p[1], p[2], p[3], p[4], p[5])

------------------------------------------------------------------------------
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
FirstMax(q) == CHOOSE i \in 1..Len(q) : q[i] = MaxS(q) /\ \A j \in 1..(i - 1) : q[j] # q[i]
FirstMin(q) == CHOOSE i \in 1..Len(q) : q[i] = MinS(q) /\ \A j \in 1..(i - 1) : q[j] # q[i]
Occurs(q, v) == Len(SelectSeq(q, LAMBDA x : x = v))
ReduceDrop(t, ax, F(_)) == LET a == Clamp(ax, t) r == Reduce(t, a, F) IN T(DropAt(r.s, a + 1), r.d)
\* the slices of t along an axis, in the order of the elements of the reduced tensor; entries are positions
SlicesOf(t, ax) == LET a == Clamp(ax, t) ixs == Index(t.s) s == [t.s EXCEPT ![a + 1] = 1] IN
    [k \in 1..Prod(s) |-> Slice(ixs, a + 1, Unravel(k - 1, s))]
TrailMul(a, b) == IF Len(a.d) >= Len(b.d) THEN T(a.s, [k \in 1..Len(a.d) |-> a.d[k] * b.d[((k - 1) % Len(b.d)) + 1]])
                  ELSE T(b.s, [k \in 1..Len(b.d) |-> b.d[k] * a.d[((k - 1) % Len(a.d)) + 1]])
\* fold a tensor back onto the first n elements it repeats
FoldOnto(g, t) == IF Len(g.d) = Len(t.d) THEN T(t.s, g.d)
    ELSE T(t.s, [j \in 1..Len(t.d) |-> FoldLeft(LAMBDA acc, m : acc + g.d[(m - 1) * Len(t.d) + j], 0, Iota(Len(g.d) \div Len(t.d)))])
CtArg(p) == [rk |-> p[1], ck |-> p[2], sr |-> p[3], sc |-> p[4], dr |-> p[5], dc |-> p[6], same |-> p[7]]
CtImage(img, q) == Dilated(img, q.rk, q.ck, q.sr, q.sc, q.same)
CtKernel(ker) == Flip(Flip(ker, 2), 1)
CtConv(q) == <<q.sr, q.sc, q.dr, q.dc, q.same>>

\* the value of an operator applied to the tensors xs
Apply(op, xs, p) ==
    LET x == xs[1] y == xs[Len(xs)] IN
    CASE op \in Structural -> Move(op, x, p)
      [] op = "neg"   -> Map(x, LAMBDA v : -v)
      [] op \in {"adds", "sadd", "vadd", "vradd"} -> Map(x, LAMBDA v : v + p[1])
      [] op \in {"subs", "vsub"} -> Map(x, LAMBDA v : v - p[1])
      [] op \in {"ssub", "vrsub"} -> Map(x, LAMBDA v : p[1] - v)
      [] op \in {"muls", "smul", "vmul", "vrmul"} -> Map(x, LAMBDA v : v * p[1])
      [] op = "square" -> Map(x, LAMBDA v : v * v)
      [] op \in {"abs", "fabs"} -> Map(x, AbsI)
      [] op = "sign"   -> Map(x, Sgn)
      [] op = "relu"   -> Map(x, LAMBDA v : MaxI(v, 0))
      [] op = "leaky"  -> Map(x, LAMBDA v : IF v > 0 THEN p[1] * v ELSE v)      \* leaky_relu(1 / p[1]) times p[1]
      [] op = "clip"   -> Map(x, LAMBDA v : MinI(MaxI(v, p[1]), p[2]))
      [] op = "oneslike"  -> Like(x, 1)
      [] op = "zeroslike" -> Like(x, 0)
      [] op = "plus"  -> Add(x, y)
      [] op = "minus" -> Sub(x, y)
      [] op = "emul"  -> TrailMul(x, y)
      [] op = "mm"    -> MatMul(x, y)
      [] op = "maximum" -> ZipSame(x, y, MaxI)
      [] op = "minimum" -> ZipSame(x, y, MinI)
      [] op = "equal"   -> ZipSame(x, y, LAMBDA a, b : IF a = b THEN 1 ELSE 0)
      [] op = "concat"  -> Concat2(x, y, p[1])
      [] op = "sumall"  -> T(<<1>>, <<SumSeq(x.d)>>)
      [] op = "meann"   -> T(<<1>>, <<SumSeq(x.d)>>)      \* mean_reduce times the number of elements
      [] op = "rsum"    -> ReduceDrop(x, p[1], SumSeq)
      [] op = "rmax"    -> ReduceDrop(x, p[1], MaxS)
      [] op = "rmin"    -> ReduceDrop(x, p[1], MinS)
      [] op = "argmax"  -> ReduceDrop(x, p[1], LAMBDA q : FirstMax(q) - 1)
      [] op = "argmin"  -> ReduceDrop(x, p[1], LAMBDA q : FirstMin(q) - 1)
      [] op = "conv"    -> Conv(x, y, p)
      [] op = "convt"   -> LET q == CtArg(p) IN Conv(CtImage(x, q), CtKernel(y), CtConv(q))
      [] op = "maxpool" -> LET w == Windows(x, p[1]) IN T(w.s, [k \in 1..Len(w.w) |-> MaxS([e \in 1..Len(w.w[k]) |-> x.d[w.w[k][e]]])])
      [] op = "avgpool" -> LET w == Windows(x, p[1]) IN   \* times the size of the window
                           T(w.s, [k \in 1..Len(w.w) |-> SumSeq([e \in 1..Len(w.w[k]) |-> x.d[w.w[k][e]]])])

\* is the operator differentiable at xs?
Smooth(op, xs, p) ==
    LET x == xs[1] y == xs[Len(xs)] IN
    CASE op \in {"abs", "fabs", "relu", "leaky"} -> \A k \in 1..Len(x.d) : x.d[k] # 0
      [] op = "clip" -> \A k \in 1..Len(x.d) : x.d[k] # p[1] /\ x.d[k] # p[2]
      [] op \in {"maximum", "minimum"} -> \A k \in 1..Len(x.d) : x.d[k] # y.d[k]
      [] op \in {"rmax", "rmin"} ->
            LET sl == SlicesOf(x, p[1]) IN \A k \in 1..Len(sl) :
                LET q == [e \in 1..Len(sl[k]) |-> x.d[sl[k][e]]] IN Occurs(q, IF op = "rmax" THEN MaxS(q) ELSE MinS(q)) = 1
      [] op = "maxpool" -> LET w == Windows(x, p[1]) IN \A k \in 1..Len(w.w) :
                LET q == [e \in 1..Len(w.w[k]) |-> x.d[w.w[k][e]]] IN Occurs(q, MaxS(q)) = 1
      [] OTHER -> TRUE

\* gradient of <g, Apply(op, xs, p)> with respect to xs[k]
Vjp(op, xs, p, g, k) ==
    LET x == xs[1] y == xs[Len(xs)] me == xs[k] IN
    CASE op \in Structural -> Scatter(g, Move(op, Index(x.s), p), x.s)
      [] op \in {"neg", "ssub", "vrsub"} -> Map(g, LAMBDA v : -v)
      [] op \in {"adds", "sadd", "vadd", "vradd", "subs", "vsub"} -> g
      [] op \in {"muls", "smul", "vmul", "vrmul"} -> Map(g, LAMBDA v : v * p[1])
      [] op = "square" -> ZipSame(x, g, LAMBDA a, b : 2 * a * b)
      [] op \in {"abs", "fabs"} -> ZipSame(x, g, LAMBDA a, b : Sgn(a) * b)
      [] op = "relu"   -> ZipSame(x, g, LAMBDA a, b : IF a > 0 THEN b ELSE 0)
      [] op = "leaky"  -> ZipSame(x, g, LAMBDA a, b : IF a > 0 THEN p[1] * b ELSE b)
      [] op = "clip"   -> ZipSame(x, g, LAMBDA a, b : IF a < p[1] \/ a > p[2] THEN 0 ELSE b)
      [] op \in {"sign", "oneslike", "zeroslike", "equal", "argmax", "argmin"} -> Like(me, 0)
      [] op = "plus"   -> Unbroadcast(g, me.s)
      [] op = "minus"  -> IF k = 1 THEN Unbroadcast(g, me.s) ELSE Map(Unbroadcast(g, me.s), LAMBDA v : -v)
      [] op = "emul"   -> FoldOnto(TrailMul(g, xs[3 - k]), me)
      [] op = "mm"     -> IF k = 1 THEN MatMul(g, Transpose2(y)) ELSE MatMul(Transpose2(x), g)
      [] op = "maximum" -> T(g.s, [j \in 1..Len(g.d) |-> IF me.d[j] > xs[3 - k].d[j] THEN g.d[j] ELSE 0])
      [] op = "minimum" -> T(g.s, [j \in 1..Len(g.d) |-> IF me.d[j] < xs[3 - k].d[j] THEN g.d[j] ELSE 0])
      [] op = "concat" -> LET src == Concat2(Index(x.s), Map(Index(y.s), LAMBDA v : v + Len(x.d)), p[1])
                              all == Scatter(g, src, <<Len(x.d) + Len(y.d)>>)
                          IN IF k = 1 THEN T(x.s, SubSeq(all.d, 1, Len(x.d))) ELSE T(y.s, SubSeq(all.d, Len(x.d) + 1, Len(all.d)))
      [] op \in {"sumall", "meann"} -> Like(x, g.d[1])
      [] op = "rsum"   -> LET sl == SlicesOf(x, p[1]) IN
                          Scatter(T(<<Len(x.d)>>, [j \in 1..Len(x.d) |-> g.d[((j - 1) \div Len(sl[1])) + 1]]),
                                  T(<<Len(x.d)>>, FoldLeft(LAMBDA a, b : a \o b, <<>>, sl)), x.s)
      [] op \in {"rmax", "rmin"} -> LET sl == SlicesOf(x, p[1]) IN
                          Scatter(g, T(g.s, [j \in 1..Len(sl) |-> LET q == [e \in 1..Len(sl[j]) |-> x.d[sl[j][e]]] IN
                                                sl[j][IF op = "rmax" THEN FirstMax(q) ELSE FirstMin(q)]]), x.s)
      [] op = "conv"    -> ConvAdjoint(x, y, p, g, k)
      [] op = "convt"   -> LET q == CtArg(p) a == ConvAdjoint(CtImage(x, q), CtKernel(y), CtConv(q), g, k) IN
                           IF k = 1 THEN Scatter(a, CtImage(Index(x.s), q), x.s) ELSE CtKernel(a)
      [] op = "maxpool" -> LET w == Windows(x, p[1]) IN
                           Scatter(g, T(w.s, [j \in 1..Len(w.w) |-> w.w[j][FirstMax([e \in 1..Len(w.w[j]) |-> x.d[w.w[j][e]]])]]), x.s)
      [] op = "avgpool" -> LET w == Windows(x, p[1]) IN
                           FoldLeft(LAMBDA acc, e : ZipSame(acc, Scatter(g, T(w.s, [j \in 1..Len(w.w) |-> w.w[j][e]]), x.s), LAMBDA a, b : a + b),
                                    Like(x, 0), Iota(p[1] * p[1]))
=============================================================================
