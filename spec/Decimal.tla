-------------------------------- MODULE Decimal --------------------------------
(* Why text files can be lossless: a binary number of P significant bits, written with Digits significant decimal digits   *)
(* (rounded half to even) and read back as the nearest P bit number, is itself if 10^(Digits-1) > 2^P.  Checked for every  *)
(* significand and every exponent in the range; with one digit less it fails, as TLC confirms.                             *)
EXTENDS Integers
CONSTANTS P, Digits, MaxExp
VARIABLES m, e
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
\* the value m * 2^e with -MaxExp <= e <= MaxExp is the integer m * 2^(e + MaxExp) in units of 2^-MaxExp
Val(a, b) == a * Pow(2, b + MaxExp)
\* decimal numbers d * 10^(-k): nearest to a / Pow(2, MaxExp) with Digits digits; returned as <<d, k>>
RoundDiv(a, b) == LET q == a \div b r == a % b IN IF 2 * r > b \/ (2 * r = b /\ q % 2 = 1) THEN q + 1 ELSE q
RECURSIVE Scale(_, _)      \* smallest k (possibly negative) so that value * 10^k has at least Digits digits before the point
Scale(a, k) == IF (IF k >= 0 THEN a * Pow(10, k) ELSE a \div Pow(10, -k)) >= Pow(10, Digits - 1) * Pow(2, MaxExp) THEN k ELSE Scale(a, k + 1)
Write(a) == LET k == Scale(a, -3) IN <<IF k >= 0 THEN RoundDiv(a * Pow(10, k), Pow(2, MaxExp)) ELSE RoundDiv(a, Pow(2, MaxExp) * Pow(10, -k)), k>>
\* distance of the decimal <<d, k>> from the value a, in units of 2^-MaxExp * 10^-max(k,0)
Abs(x) == IF x < 0 THEN -x ELSE x
Dist(d, k, a) == IF k >= 0 THEN Abs(d * Pow(2, MaxExp) - a * Pow(10, k)) ELSE Abs(d * Pow(10, -k) * Pow(2, MaxExp) - a)
Numbers == { Val(a, b) : a \in Pow(2, P - 1)..(Pow(2, P) - 1), b \in (-MaxExp)..MaxExp }
Init == m \in Pow(2, P - 1)..(Pow(2, P) - 1) /\ e = -MaxExp
Next == e < MaxExp /\ e' = e + 1 /\ m' = m
Spec == Init /\ [][Next]_<<m, e>>
RoundTrip == LET a == Val(m, e) w == Write(a) IN \A b \in Numbers : b # a => Dist(w[1], w[2], a) < Dist(w[1], w[2], b)
=============================================================================
