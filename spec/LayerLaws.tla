------------------------------ MODULE LayerLaws ------------------------------
(* What layers promise, whatever they are composed of: samples of a batch are treated independently, the bias is added to *)
(* every position, output shapes follow the usual formulas, and the layers agree with one another where they must.        *)
EXTENDS Layers, TLC
CONSTANT Mutant
Pat(s, k) == T(s, [i \in 1..Prod(s) |-> (((i * 7 + k * 5) % 13) - 6) + (IF i % 3 = 0 THEN k ELSE 0)])
Q0 == <<0, 0, 0, 0, 1>>
Body2(k, a, n, p) == LET b == Body(k, a, n, p) IN
    CASE Mutant = "bias" /\ k = "Dense" -> SubSeq(b, 1, Len(b) - 1)
      [] Mutant = "mixing" /\ k = "Dense" -> b \o <<Op("flip", <<n + 4>>, <<0>>)>>
      [] OTHER -> b
\* the result of layer k with weights ws on the inputs xs
Out(k, xs, ws, p) ==
    LET leaf == [k |-> "con", op |-> "con", a |-> <<>>, p |-> <<>>]
        g1 == FoldLeft(LAMBDA g, t : AddNode(g, leaf, t), EmptyG, xs \o ws)
        g2 == Composed(g1, Body2(k, Iota(Len(xs)), Len(xs), p))
        n == Len(g2.nodes)
    IN Eval(g2.nodes, g2.env, n)[n]
WeightVals(k, s, p) == [i \in 1..Len(Weights(k, s, p, Q0)) |-> Pat(Weights(k, s, p, Q0)[i].s, i)]
Sample(t, b) == T(<<1>> \o Tail(t.s), SubSeq(t.d, (b - 1) * Prod(Tail(t.s)) + 1, b * Prod(Tail(t.s))))
Case(k, s, p) == [k |-> k, s |-> s, p |-> p]
Cases ==
    { Case("Dense", <<b, n>>, <<u>>) : b \in 1..3, n \in 1..3, u \in 1..3 }
    \cup { Case("Conv2D", <<b, 4, 3, ch>>, <<o, kx, ky, sx, sy, d, 1, 0>>) : b \in 1..2, ch \in 1..2, o \in 1..2, kx \in {1, 2}, ky \in {1, 3}, sx \in 1..2, sy \in 1..2, d \in 1..2 }
    \cup { Case("Conv2D", <<b, 4, 3, ch>>, <<o, kx, ky, 1, 1, 1, 1, 1>>) : b \in 1..2, ch \in 1..2, o \in 1..2, kx \in {1, 3}, ky \in {1, 3} }
    \cup { Case("Conv1D", <<b, 5, ch>>, <<o, k, st, d, 0>>) : b \in 1..2, ch \in 1..2, o \in 1..2, k \in 1..3, st \in 1..2, d \in 1..2 }
    \cup { Case("Conv1D", <<b, 5, ch>>, <<2, k, 1, 1, 1>>) : b \in 1..2, ch \in 1..2, k \in {1, 3} }
    \cup { Case("Conv2DTranspose", <<b, 2, 3, ch>>, <<o, k, 2, st, 1, 1, 1, 0>>) : b \in 1..2, ch \in 1..2, o \in 1..2, k \in 1..3, st \in 1..2 }
    \cup { Case(k, <<b, 4, 6, 2>>, <<2>>) : k \in {"MaxPooling2D", "AveragePooling2D", "UpSampling2D"}, b \in 1..2 }
    \cup { Case("Flatten", <<b, 2, 3, 2>>, <<>>) : b \in 1..3 } \cup { Case("Reshape", <<b, 2, 3>>, <<1, 3, 2>>) : b \in 1..3 }
    \cup { Case(k, <<b, 3>>, <<2>>) : k \in {"ReLU", "LeakyReLU", "Softmax", "ELU"}, b \in 1..2 }
    \cup { Case("Concatenate", <<b, 2, 3>>, <<ax>>) : b \in 1..2, ax \in {-1, 1, 2} } \cup { Case(k, <<b, 2, 3>>, <<>>) : k \in {"Add", "Subtract", "Multiply"}, b \in 1..2 }
Two(k) == k \in {"Concatenate", "Add", "Subtract", "Multiply"}
VARIABLES c, go
Init == c \in Cases /\ go = FALSE
Next == ~go /\ go' = TRUE /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, go>>
Xs == IF Two(c.k) THEN <<Pat(c.s, 1), Pat(c.s, 2)>> ELSE <<Pat(c.s, 1)>>
Ws == WeightVals(c.k, c.s, c.p)
Y  == TLCEval(Out(c.k, Xs, Ws, c.p))
\* every sample by itself gives its part of the result
Independent == go =>
    /\ Y.s[1] = c.s[1] /\ WellFormed(Y)
    /\ \A b \in 1..c.s[1] : Sample(Y, b) = Out(c.k, [i \in 1..Len(Xs) |-> Sample(Xs[i], b)], Ws, c.p)
\* the bias, and nothing else, is added at every position
Biased == (go /\ Len(Ws) = 2) =>
    LET z == Out(c.k, Xs, <<Ws[1], Zeros(Ws[2].s)>>, c.p) IN
    \A i \in 1..Len(Y.d) : Y.d[i] - z.d[i] = Ws[2].d[((i - 1) % Len(Ws[2].d)) + 1]
\* extents of the results
Extent(n, k, st, d) == (n - d * (k - 1) - 1) \div st + 1
Shapes == go =>
    CASE c.k = "Dense" -> Y.s = <<c.s[1], c.p[1]>>
      [] c.k = "Conv2D" -> IF c.p[8] = 1 THEN Y.s = <<c.s[1], c.s[2], c.s[3], c.p[1]>>
                           ELSE Y.s = <<c.s[1], Extent(c.s[2], c.p[2], c.p[4], c.p[6]), Extent(c.s[3], c.p[3], c.p[5], c.p[7]), c.p[1]>>
      [] c.k = "Conv1D" -> IF c.p[5] = 1 THEN Y.s = <<c.s[1], c.s[2], c.p[1]>> ELSE Y.s = <<c.s[1], Extent(c.s[2], c.p[2], c.p[3], c.p[4]), c.p[1]>>
      [] c.k = "UpSampling2D" -> Y.s = <<c.s[1], 2 * c.s[2], 2 * c.s[3], c.s[4]>>
      [] c.k \in {"MaxPooling2D", "AveragePooling2D"} -> Y.s = <<c.s[1], c.s[2] \div 2, c.s[3] \div 2, c.s[4]>>
      [] c.k = "Flatten" -> Y.s = <<c.s[1], Prod(Tail(c.s))>>
      [] OTHER -> TRUE
\* the same result by other means
Agree == go =>
    CASE c.k = "Dense" -> \A b \in 0..(c.s[1] - 1), u \in 0..(c.p[1] - 1) :
                Get(Y, <<b, u>>) = Ws[2].d[u + 1] + SumSeq([i \in 1..c.s[2] |-> Get(Xs[1], <<b, i - 1>>) * Get(Ws[1], <<i - 1, u>>)])
      [] c.k = "Conv1D" /\ c.p[5] = 0 -> Y = Gen(Y.s, LAMBDA ix : Ws[2].d[ix[3] + 1]
                + SumSeq([e \in 1..(c.p[2] * c.s[3]) |-> LET j == (e - 1) \div c.s[3] ch == (e - 1) % c.s[3] IN
                          Get(Xs[1], <<ix[1], ix[2] * c.p[3] + j * c.p[4], ch>>) * Get(Ws[1], <<ix[3], j, 0, ch>>)]))
      [] c.k = "Conv2D" /\ c.p[2] = 1 /\ c.p[3] = 1 /\ c.p[4] = 1 /\ c.p[5] = 1 -> \* a dense layer on the channels of every pixel
                Y.d = Out("Dense", <<T(<<Prod(c.s) \div c.s[4], c.s[4]>>, Xs[1].d)>>, <<Transpose2(T(<<c.p[1], c.s[4]>>, Ws[1].d)), T(<<1, c.p[1]>>, Ws[2].d)>>, <<c.p[1]>>).d
      [] c.k = "UpSampling2D" -> Out("MaxPooling2D", <<Y>>, <<>>, <<2>>) = Xs[1] /\ Out("AveragePooling2D", <<Y>>, <<>>, <<2>>).d = [i \in 1..Len(Xs[1].d) |-> 4 * Xs[1].d[i]]
      [] c.k = "Add" -> Out("Subtract", <<Y, Xs[2]>>, <<>>, <<>>) = Xs[1]
      [] OTHER -> TRUE
=============================================================================
