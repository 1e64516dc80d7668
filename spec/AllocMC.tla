------------------------------- MODULE AllocMC -------------------------------
(* Design model of the cache over a finite system memory of M cells: an allocation takes a reserved block of the same     *)
(* size if there is one, else a free range of the system, else it empties the reserve and tries again.  Checked for every *)
(* history of at most Depth calls.  Every step is also replayed through the acceptor AWhy of Alloc.tla, so that what the   *)
(* design does is what the conformance check accepts.                                                                     *)
EXTENDS Alloc, TLC
CONSTANTS M, Sizes, Depth, MatchSize, ClearOnGc
VARIABLES sys, live, reserve, next, ok, acc, trail
vars == <<sys, live, reserve, next, ok, acc, trail>>
\* sys: set of [a, n] owned by the cache as the system sees it; live: function number -> [a, n]; reserve: set of [a, n] as the cache sees it
Range(b) == b.a..(b.a + b.n - 1)
Busy(S) == UNION { Range(b) : b \in S }
Places(S, n) == { a \in 0..(M - n) : (a..(a + n - 1)) \cap Busy(S) = {} }
P(a) == <<0, a>>
Event(b, n, fresh, rel) == [op |-> "alloc", i |-> next, n |-> n, a |-> P(b.a), fresh |-> fresh, sz |-> b.n, rel |-> rel, al |-> 0, bad |-> 0, zero |-> 1]
Seq1(S) == LET F[X \in SUBSET S] == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN <<x>> \o F[X \ {x}] IN F[S]
RelOf(S) == Seq1({ P(b.a) : b \in S })
Init == sys = {} /\ live = <<>> /\ reserve = {} /\ next = 1 /\ ok = TRUE /\ acc = AStart /\ trail = 0
Hand(b, n, fresh, rel, sys1, res1) ==
    LET e == Event(b, n, fresh, rel) IN
    /\ sys' = sys1 /\ reserve' = res1
    /\ live' = [i \in DOMAIN live \cup {next} |-> IF i = next THEN [a |-> b.a, n |-> n, sz |-> b.n] ELSE live[i]]
    /\ next' = next + 1
    /\ ok' = (AWhy(acc, e) = {}) /\ acc' = (IF AWhy(acc, e) = {} THEN ATake(acc, e) ELSE acc)
Fits(b, n) == IF MatchSize THEN b.n = n ELSE TRUE
Allocate(n) ==
    /\ trail < Depth /\ trail' = trail + 1
    /\ IF \E b \in reserve : Fits(b, n)
       THEN \E b \in reserve : Fits(b, n) /\ Hand(b, n, 0, <<>>, sys, reserve \ {b})
       ELSE IF Places(sys, n) # {}
       THEN \E a \in Places(sys, n) : Hand([a |-> a, n |-> n], n, 1, <<>>, sys \cup {[a |-> a, n |-> n]}, reserve)
       ELSE LET left == sys \ reserve IN
            /\ reserve # {} /\ Places(left, n) # {}
            /\ \E a \in Places(left, n) : Hand([a |-> a, n |-> n], n, 1, RelOf(reserve), left \cup {[a |-> a, n |-> n]}, IF ClearOnGc THEN {} ELSE reserve)
Deallocate ==
    /\ trail < Depth /\ trail' = trail + 1
    /\ \E i \in DOMAIN live :
        LET e == [op |-> "dealloc", i |-> i, rel |-> <<>>, bad |-> 0] IN
        /\ live' = [j \in DOMAIN live \ {i} |-> live[j]]
        /\ reserve' = reserve \cup {[a |-> live[i].a, n |-> live[i].sz]}
        /\ ok' = (AWhy(acc, e) = {}) /\ acc' = (IF AWhy(acc, e) = {} THEN ATake(acc, e) ELSE acc)
    /\ UNCHANGED <<sys, next>>
Gc ==
    /\ trail < Depth /\ trail' = trail + 1 /\ reserve # {}
    /\ LET e == [op |-> "gc", rel |-> RelOf(reserve), bad |-> 0] IN
       ok' = (AWhy(acc, e) = {}) /\ acc' = (IF AWhy(acc, e) = {} THEN ATake(acc, e) ELSE acc)
    /\ sys' = sys \ reserve /\ reserve' = (IF ClearOnGc THEN {} ELSE reserve)
    /\ UNCHANGED <<live, next>>
Next == (\E n \in Sizes : Allocate(n)) \/ Deallocate \/ Gc
Spec == Init /\ [][Next]_vars
Disjoint == \A i, j \in DOMAIN live : i # j => (live[i].a..(live[i].a + live[i].n - 1)) \cap (live[j].a..(live[j].a + live[j].n - 1)) = {}
Owned == \A i \in DOMAIN live : \E b \in sys : live[i].a = b.a /\ live[i].n <= b.n
Accepted == ok
=============================================================================
