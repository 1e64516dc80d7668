------------------------------- MODULE ParLoop -------------------------------
(* parallel(f, first, last, threshold): the index range is divided among the cores, each slice is run by a thread of its  *)
(* own, the caller runs the last one and joins the others.  Index arithmetic is modulo Max + 1, as that of an unsigned    *)
(* type is.  All ranges, thresholds, numbers of cores and interleavings within the bounds are explored: when the call     *)
(* returns every index has been processed once and no other.  Clamp = FALSE is the arithmetic the library had before its  *)
(* repair, which TLC rejects; so is Join = FALSE.                                                                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Max, MaxCores, Thresholds, Clamp, Join
VARIABLES first, last, thr, cores, cnt, todo, joined, pc
vars == <<first, last, thr, cores, cnt, todo, joined, pc>>
Wrap(x) == x % (Max + 1)
MinI(a, b) == IF a < b THEN a ELSE b
Ceil(n, k) == (n + k - 1) \div k
Total == last - first
\* the slices: sequence of <<from, to>> (processed from, from + 1, ... until to is reached, modulo Max + 1)
Boundary(k) == IF Clamp THEN first + MinI(Ceil(Total, cores) * k, Total) ELSE MinI(Wrap(Ceil(Total, cores) * k + first), last)
End(k) == IF Clamp THEN Boundary(k + 1) ELSE MinI(Wrap(Boundary(k) + Ceil(Total, cores)), last)
Slices == IF cores <= 1 \/ Total <= thr THEN <<<<first, last>>>>
          ELSE IF Total <= cores THEN [k \in 1..(Total + 1) |-> IF k <= Total THEN <<first + k - 1, first + k>> ELSE <<last, last>>]
          ELSE [k \in 1..cores |-> IF k < cores THEN <<Boundary(k - 1), End(k - 1)>> ELSE <<Boundary(cores - 1), last>>]
Init == first = 0 /\ last = 0 /\ thr = 0 /\ cores = 0 /\ cnt = <<>> /\ todo = <<>> /\ joined = {} /\ pc = "idle"
Call == /\ pc = "idle"
        /\ \E f \in 0..Max, t \in Thresholds, c \in 0..MaxCores : \E g \in f..Max :
              first' = f /\ last' = g /\ thr' = t /\ cores' = c
        /\ pc' = "split" /\ UNCHANGED <<cnt, todo, joined>>
Split == /\ pc = "split" /\ todo' = Slices /\ cnt' = [x \in 0..Max |-> 0] /\ pc' = "run" /\ UNCHANGED <<first, last, thr, cores, joined>>
\* worker k takes its next index
Work(k) == /\ pc \in {"run", "back"} /\ k \in DOMAIN todo
           /\ LET a == todo[k][1] b == todo[k][2] IN
              /\ a < b /\ cnt[a] < 3
              /\ cnt' = [cnt EXCEPT ![a] = @ + 1]
              /\ todo' = [todo EXCEPT ![k] = <<Wrap(a + 1), b>>]
           /\ UNCHANGED <<first, last, thr, cores, joined, pc>>
Done(k) == todo[k][1] >= todo[k][2]
Return == /\ pc = "run" /\ Done(Len(todo))
          /\ Join => \A k \in DOMAIN todo : Done(k)
          /\ pc' = "back" /\ UNCHANGED <<first, last, thr, cores, cnt, todo, joined>>
Next == Call \/ Split \/ Return \/ \E k \in 1..(Max + 1) : Work(k)
Spec == Init /\ [][Next]_vars
OnceEach == pc = "back" => \A x \in 0..Max : cnt[x] = IF first <= x /\ x < last THEN 1 ELSE 0
Outside == pc = "run" => \A x \in DOMAIN cnt : cnt[x] <= (IF first <= x /\ x < last THEN 1 ELSE 0)
=============================================================================
