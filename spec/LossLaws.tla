------------------------------- MODULE LossLaws -------------------------------
(* Laws of the losses and of complex arithmetic over a grid: derivatives agree with difference quotients.                  *)
EXTENDS Integers, Sequences, TLC, Real, Math, Loss, Cplx
CONSTANTS Mutant
VARIABLES k, i, j, c
H == Dec(1, -2)
Gs(f) == IF Base(f) \in {"bce"} THEN <<Zero, One, Dec(3, -1)>> ELSE IF Base(f) = "hinge" THEN <<One, Neg1>> ELSE <<Zero, One, Dec(-14, -1), Dec(25, -1)>>
Ps(f) == IF Base(f) = "bce" THEN <<Dec(2, -1), Half, Dec(9, -1)>> ELSE IF f = "cross_entropy" THEN <<Dec(3, -1), Two>> ELSE <<Dec(-7, -1), Dec(4, -1), Dec(17, -1), Dec(31, -1)>>
G(f) == Gs(f)[(i % Len(Gs(f))) + 1]
Q(f) == Ps(f)[(j % Len(Ps(f))) + 1]
Quot(f(_), x) == Div(Sub(MulI(Sub(f(Add(x, H)), f(Sub(x, H))), 8), Sub(f(Add(x, MulI(H, 2))), f(Sub(x, MulI(H, 2))))), MulI(H, 12))
Eq(a, b) == Near(a, b, Dec(2, -3), 3)
Dp(f, g, p) == IF Mutant = f THEN Both(Neg(TP(f, g, p)[1])) ELSE TP(f, g, p)
TermLaw == c = 0 => LET g == G(k) p == Q(k) IN
    /\ Dp(k, g, p)[1] = Dp(k, g, p)[2] /\ Eq(Dp(k, g, p)[1], Quot(LAMBDA x : T(k, g, x), p))
    /\ (k # "msle" \/ g # Zero) => Eq(TG(k, g, p)[1], Quot(LAMBDA x : T(k, x, p), g))
XentLaw == (k = "mse" /\ c = 0) =>
    LET g == <<One, Zero, Zero, Zero, Zero, One>> p == <<Q("mse"), G("mse"), One, Half, Neg1, Q("mse")>> ls == Dec(1, -1)
        At(x) == [n \in 1..6 |-> IF n = i + 1 THEN x ELSE p[n]]
    IN Eq(XentAdj(ls, g, p, 3, One)[i + 1][1], Quot(LAMBDA x : Xent(ls, g, At(x), 3), p[i + 1]))
\* complex operations: the adjoints are the derivatives of the inner product with the incoming gradients, for all arguments
Names == <<"cabs", "cnorm", "cconj", "cpolar", "carg", "cpos", "cneg", "cadd", "csub2", "cmul", "cadde", "eaddc", "csube", "esubc", "cmule", "emulc", "creal", "cimag">>
Arg(n) == [s |-> <<2, 2>>, d |-> TLCEval([m \in 1..4 |-> Dec(((n * 7 + m * 5 + i * 3) % 11) * 3 - 16, -1)])]
Args == [n \in 1..4 |-> Arg(n)]
Dot(y, g) == SumR([n \in DOMAIN y |-> SumR([m \in DOMAIN y[n].d |-> Mul(y[n].d[m], g[n].d[m])])])
CplxLaw == c > 0 =>
    LET y == CVal(Names[c], Args) g == [n \in DOMAIN y |-> [s |-> <<2, 2>>, d |-> [m \in 1..4 |-> Dec(((n + m * 3 + j) % 5) * 5 - 9, -1)]]]
        b == CAdj(Names[c], Args, g)
    IN \A n \in DOMAIN b : LET Put(x) == [Args EXCEPT ![n].d[j + 1] = x] IN
        Eq(b[n].d[j + 1], Quot(LAMBDA x : Dot(CVal(Names[c], Put(x)), g), Args[n].d[j + 1])) \/ ~PrintT(<<Names[c], n, i, j>>)
Init == k \in Terms /\ i \in 0..3 /\ j = -1 /\ c = -1
Next == j = -1 /\ j' \in 0..3 /\ c' \in 0..Len(Names) /\ (c' > 0 => k = "mse") /\ UNCHANGED <<k, i>>
Spec == Init /\ [][Next]_<<k, i, j, c>>
===============================================================================
