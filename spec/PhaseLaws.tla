------------------------------- MODULE PhaseLaws -------------------------------
(* Laws of the phase dependent operators.                                                                                  *)
(* Norm: over batches of rows x channels from a grid, the normalised batch has mean zero and second moment v / (v + eps),    *)
(*   and HatGrad is the derivative of the inner product of the normalised batch with the incoming gradient (difference       *)
(*   quotients), not only its part at fixed statistics.                                                                     *)
(* Run: after any history of batches the running averages are the sums of the batch statistics with the weights             *)
(*   (1 - m) m^(later batches), and predictions in between leave them alone.                                               *)
(* Slide: shifting back is the transposed map of shifting, for all small images.                                            *)
EXTENDS Integers, Sequences, TLC, Real, Phase
CONSTANTS Mutant, Depth
VARIABLES mode, a, b, hist, run
vars == <<mode, a, b, hist, run>>
Dec(m, e) == Norm(m, e)
H == Dec(1, -2)
Pat(k) == <<((k * 7 + 3) % 11) - 5, ((k * 5 + 1) % 13) - 6, ((k * 3 + 2) % 7) - 3, ((k * 11 + 5) % 17) - 8, (k % 5) - 2, ((k * 13) % 9) - 4>>
X(k) == [s |-> <<3, 2>>, d |-> [i \in 1..6 |-> DivI(R(Pat(k)[i] * 2 + i), 2)]]
G(k) == [i \in 1..6 |-> R(Pat(k + 3)[7 - i])]
Dot(p, q) == SumR([i \in DOMAIN p |-> Mul(p[i], q[i])])
Quot(f(_), x) == Div(Sub(MulI(Sub(f(Add(x, H)), f(Sub(x, H))), 8), Sub(f(Add(x, MulI(H, 2))), f(Sub(x, MulI(H, 2))))), MulI(H, 12))
Spread(x) == \A c \in 1..2 : Lt(Dec(2, -1), Var(Col(x, c)))
Value(x, g) == Dot(Normalised(x, Stats(x)), g)
Grad(x, g) == IF Mutant = "constant" THEN [i \in DOMAIN g |-> Div(g[i], Dev(Stats(x), ((i - 1) % 2) + 1))] ELSE HatGrad(x, Normalised(x, Stats(x)), g, Stats(x))
NormLaw == mode = "norm" /\ Spread(X(a)) =>
    LET x == X(a) h == Normalised(x, Stats(x)) y == [s |-> x.s, d |-> h] IN
    /\ \A c \in 1..2 : Near(Avg(Col(y, c)), Zero, Dec(1, -6), 3) /\ Near(Var(Col(y, c)), One, Dec(1, -5), 4)
    /\ \A i \in 1..6 : Near(Grad(x, G(b))[i], Quot(LAMBDA t : Value([x EXCEPT !.d[i] = t], G(b)), x.d[i]), Dec(2, -3), 3)
\* histories of batches and predictions
Mom == Dec(8, -1)
Weight(k, n) == Mul(Sub(One, Mom), LET RECURSIVE P(_) P(i) == IF i = 0 THEN One ELSE Mul(Mom, P(i - 1)) IN P(n - k))
RunLaw == mode = "run" /\ hist # <<>> => \A c \in 1..2 : LET n == Len(hist) IN
    /\ Near(run[c].m, SumR([k \in 1..n |-> Mul(Weight(k, n), Stats(X(hist[k]))[c].m)]), Dec(1, -6), 5)
    /\ Near(run[c].v, SumR([k \in 1..n |-> Mul(Weight(k, n), Stats(X(hist[k]))[c].v)]), Dec(1, -6), 5)
\* images of 2 x 3 pixels and one channel; b encodes the shift
Img(k) == [s |-> <<1, 2, 3, 1>>, d |-> [i \in 1..6 |-> R(Pat(k)[i])]]
Shift(x, dr, dc) == [s |-> x.s, d |-> [i \in 1..6 |-> Pix(x, 0, ((i - 1) \div 3) - dr, ((i - 1) % 3) - dc, 0)]]
SlideLaw == mode = "slide" => LET dr == (b % 3) - 1 dc == ((b \div 3) % 3) - 1 x == Img(a) g == Img(a + 5) y == Shift(x, dr, dc) z == Shift(g, -dr, -dc) IN
    /\ SlideFits(x, y, 1) /\ <<dr, dc>> \in Shifts(x, y, 0, 1) /\ SlideGradFits(x, y, g, z, 1)
    /\ Dot(y.d, g.d) = Dot(x.d, z.d)
\* dropout: the gradient of a surviving element is scaled like the element, whatever was dropped
DropLaw == mode = "drop" => LET x == [s |-> <<6>>, d |-> [i \in 1..6 |-> R(IF Pat(a)[i] = 0 THEN 9 ELSE Pat(a)[i])]] r == Dec(25, -2)
        on(i) == (b \div (2 ^ (i - 1))) % 2 = 1
        y == [s |-> <<6>>, d |-> [i \in 1..6 |-> IF on(i) THEN Mul(x.d[i], Keep(r)) ELSE Zero]] gi == [s |-> <<6>>, d |-> G(a)]
        go == [s |-> <<6>>, d |-> [i \in 1..6 |-> IF on(i) THEN Mul(gi.d[i], Keep(r)) ELSE Zero]] IN
    /\ DropFits(x, y, r) /\ DropGradFits(x, y, gi, go, r) /\ Near(Dot(y.d, gi.d), Dot(x.d, go.d), Dec(1, -5), 5)
    /\ ~DropFits(x, [y EXCEPT !.d[1] = Add(@, Half)], r)
Init == a = -1 /\ b = -1 /\ hist = <<>> /\ run = NoStats /\ mode \in {"norm", "run", "slide", "drop"}
Next == \/ mode \in {"norm", "slide", "drop"} /\ a = -1 /\ a' \in 0..12 /\ b' \in (IF mode = "norm" THEN 0..6 ELSE IF mode = "slide" THEN 0..8 ELSE 0..63) /\ UNCHANGED <<mode, hist, run>>
        \/ mode = "run" /\ Len(hist) < Depth /\ a' = a /\ b' = b /\ mode' = mode
           /\ \E k \in 0..5 : hist' = Append(hist, k) /\ run' = Running(run, Stats(X(k)), Mom)
        \/ mode = "run" /\ Len(hist) < Depth /\ b < Len(hist) /\ b' = Len(hist) /\ UNCHANGED <<mode, a, hist>>      \* a prediction
           /\ run' = IF Mutant = "predict" /\ run # NoStats THEN Running(run, Stats(X(2)), Mom) ELSE run
Spec == Init /\ [][Next]_vars
===============================================================================
