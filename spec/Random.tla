-------------------------------- MODULE Random --------------------------------
(* Random tensors: shapes, supports, distribution functions, independence of neighbours, and the generator behind them.     *)
(* Values, parameters and bounds are integers in units of 1/100000.  A statistic over N elements is accepted within seven   *)
(* standard deviations.                                                                                                    *)
EXTENDS Integers, Sequences, SequencesExt
UNIT == 100000
MaxOf(a, b) == IF a > b THEN a ELSE b
\* distribution function of the standard normal at k/2, in 1/10000
Phi(k) == IF k < -7 THEN 0 ELSE IF k > 7 THEN 10000 ELSE
    IF k < 0 THEN 10000 - <<5000, 6915, 8413, 9332, 9772, 9938, 9987, 9998>>[1 - k] ELSE <<5000, 6915, 8413, 9332, 9772, 9938, 9987, 9998>>[k + 1]
Below(d, x) == Len(SelectSeq(d, LAMBDA v : v <= x))
\* n hits in N trials of probability P/10000
Plausible(n, N, P) == LET dev == n - (N * P) \div 10000 IN dev * dev <= 64 + (49 * (((N * P) \div 10000) + 1) * (10000 - P)) \div 10000
\* neighbours are independent: pairs of neighbours that both lie below x, where P/10000 of the elements do
Pairs(d, x) == Len(SelectSeq([i \in 1..(Len(d) - 1) |-> IF d[i] <= x /\ d[i + 1] <= x THEN 1 ELSE 0], LAMBDA v : v = 1))
Independent(d, x, P) == Len(d) < 2 \/ LET q == (P * P) \div 10000 n == Pairs(d, x) m == Len(d) - 1 dev == n - (m * q) \div 10000 IN dev * dev <= 64 + (((3 * 49 * m) \div 10) * q) \div 1000
\* edges <<x, P>>: P/10000 of the elements lie at or below x
UniformEdges(lo, hi) == [k \in 1..7 |-> <<lo + (k * (hi - lo)) \div 8, 1250 * k>>]
NormalEdges(m, s) == [k \in 1..11 |-> <<m + ((k - 6) * s) \div 2, Phi(k - 6)>>]
TruncEdges(m, s, i, j) == [k \in 1..(j - i) |-> <<m + ((i + k) * s) \div 2, IF k = j - i THEN 10000 ELSE ((Phi(i + k) - Phi(i)) * 10000) \div (Phi(j) - Phi(i))>>]
Follows(d, E) == \A k \in 1..Len(E) : Plausible(Below(d, E[k][1] + (IF E[k][2] = 10000 THEN 2 ELSE 0)), Len(d), E[k][2])
Within(d, lo, hi) == \A i \in 1..Len(d) : d[i] >= lo - 1 /\ d[i] <= hi + 1
\* integer square root
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
GlorotBound(s) == 10 * Root(((600000000 \div (s[1] + s[2])) ), 0, 40000)          \* sqrt(6 / (s1 + s2)), within 10 units
Continuous == {"uniform", "uniform01", "normal", "normal01", "trunc", "glorot"}
\* Poisson: the elements with mean lam (in units)
Sub(d, p, lam) == SelectSeq([i \in 1..Len(d) |-> IF p[((i - 1) % Len(p)) + 1] = lam THEN d[i] ELSE -1], LAMBDA v : v >= 0)
Sum(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
PoissonFits(d, lam) ==    \* d: counts; mean and variance are lam; quarter units keep the integers small
    LET q == lam \div (UNIT \div 4) n == Len(d) m == 4 * Sum(d) - n * q
        v == 4 * Sum([i \in 1..n |-> (4 * d[i] - q) * (4 * d[i] - q)]) - 16 * n * q       \* 64 (sum of squares - n lam)
    IN m * m <= 1024 + 49 * 4 * n * q /\ (n < 60 \/ (v \div 64) * (v \div 64) <= 900 + (49 * n * (4 * q + 2 * q * q)) \div 16)
\* what is wrong with the tensor d drawn as k with parameters p and shape s
Faults(k, s, p, d) ==
    LET m == p[1] IN
    CASE k \in {"uniform", "uniform01"} ->
            LET lo == IF k = "uniform" THEN p[1] ELSE 0 hi == IF k = "uniform" THEN p[2] ELSE UNIT IN
            (IF Within(d, lo, hi) THEN {} ELSE {"range"}) \cup (IF Follows(d, UniformEdges(lo, hi)) THEN {} ELSE {"distribution"})
            \cup (IF Independent(d, (lo + hi) \div 2, 5000) THEN {} ELSE {"dependence"})
      [] k = "glorot" -> LET b == GlorotBound(s) IN
            (IF Within(d, -b - 20, b + 20) THEN {} ELSE {"range"}) \cup (IF Follows(d, UniformEdges(-b, b)) THEN {} ELSE {"distribution"})
            \cup (IF Independent(d, 0, 5000) THEN {} ELSE {"dependence"})
      [] k \in {"normal", "normal01"} ->
            LET mu == IF k = "normal" THEN p[1] ELSE 0 sd == IF k = "normal" THEN p[2] ELSE UNIT IN
            (IF Follows(d, NormalEdges(mu, sd)) THEN {} ELSE {"distribution"}) \cup (IF Independent(d, mu, 5000) THEN {} ELSE {"dependence"})
      [] k = "trunc" -> LET i == (2 * (p[3] - p[1])) \div p[2] j == (2 * (p[4] - p[1])) \div p[2] E == TruncEdges(p[1], p[2], i, j) IN
            (IF Within(d, p[3], p[4]) THEN {} ELSE {"range"}) \cup (IF Follows(d, E) THEN {} ELSE {"distribution"})
            \cup (IF Independent(d, E[1][1], E[1][2]) THEN {} ELSE {"dependence"})
      [] k = "poisson" ->
            IF \E i \in 1..Len(d) : d[i] < 0 \/ (d[i] % UNIT) # 0 THEN {"range"} ELSE
            LET c == [i \in 1..Len(d) |-> d[i] \div UNIT] IN
            IF \A k2 \in 1..Len(p) : PoissonFits(Sub(c, p, p[k2]), p[k2]) THEN {} ELSE {"distribution"}
=============================================================================
