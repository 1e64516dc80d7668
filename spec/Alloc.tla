--------------------------------- MODULE Alloc ---------------------------------
(* The caching allocator: blocks handed out (live), blocks returned and kept (reserve).  A block is                      *)
(*   [a |-> <<hi, lo>> (address hi * 2^24 + lo), n |-> size obtained from the system].                                    *)
EXTENDS Integers, Sequences, FiniteSets
AStart == [live |-> <<>>, reserve |-> {}]      \* live: function from the caller's numbers to [b: block, n: size asked for]
Unit == 16777216
\* do the byte ranges [a, a+n) and [b, b+m) meet (n, m < 2^24)
Meet(a, n, b, m) ==
    CASE a[1] = b[1]     -> a[2] < b[2] + m /\ b[2] < a[2] + n
      [] a[1] = b[1] + 1 -> a[2] + Unit < b[2] + m
      [] b[1] = a[1] + 1 -> b[2] + Unit < a[2] + n
      [] OTHER -> FALSE
LiveAddr(s) == { s.live[i].b.a : i \in DOMAIN s.live }
ResAddr(s) == { b.a : b \in s.reserve }
SetOf(q) == { q[k] : k \in 1..Len(q) }
Distinct(q) == Cardinality(SetOf(q)) = Len(q)
Without(s, rel) == [s EXCEPT !.reserve = { b \in @ : b.a \notin SetOf(rel) }]
BlockAt(s, a) == CHOOSE b \in s.reserve : b.a = a
\* what an allocation may answer
AllocWhy(s, e) ==
    LET r == Without(s, e.rel) IN
    (IF ~Distinct(e.rel) THEN {"released-twice"} ELSE {})
    \cup (IF SetOf(e.rel) \cap LiveAddr(s) # {} THEN {"released-live"} ELSE {})
    \cup (IF ~(SetOf(e.rel) \subseteq (ResAddr(s) \cup LiveAddr(s))) THEN {"released-unknown"} ELSE {})
    \cup (IF e.fresh = 1 THEN (IF e.sz < e.n THEN {"small"} ELSE {})
          ELSE IF e.a \in LiveAddr(s) THEN {"twice"}
          ELSE IF e.a \notin ResAddr(r) THEN {"unowned"}
          ELSE IF BlockAt(r, e.a).n < e.n THEN {"small"} ELSE {})
    \cup (IF \E i \in DOMAIN s.live : Meet(e.a, e.n, s.live[i].b.a, s.live[i].n) THEN {"overlap"} ELSE {})
    \cup (IF e.al # 0 THEN {"alignment"} ELSE {})
    \cup (IF e.bad # 0 THEN {"content"} ELSE {})
    \cup (IF e.zero # 1 THEN {"zero"} ELSE {})
AllocTake(s, e) ==
    LET r == Without(s, e.rel)
        b == IF e.fresh = 1 THEN [a |-> e.a, n |-> e.sz] ELSE BlockAt(r, e.a)
    IN [live |-> [i \in DOMAIN s.live \cup {e.i} |-> IF i = e.i THEN [b |-> b, n |-> e.n] ELSE s.live[i]], reserve |-> r.reserve \ {b}]
Returned(s, i) == [live |-> [j \in DOMAIN s.live \ {i} |-> s.live[j]], reserve |-> s.reserve \cup {s.live[i].b}]
ReleaseWhy(s, e) ==
    (IF ~Distinct(e.rel) THEN {"released-twice"} ELSE {})
    \cup (IF SetOf(e.rel) \cap LiveAddr(s) # {} THEN {"released-live"} ELSE {})
    \cup (IF ~(SetOf(e.rel) \subseteq (ResAddr(s) \cup LiveAddr(s))) THEN {"released-unknown"} ELSE {})
    \cup (IF e.bad # 0 THEN {"content"} ELSE {})
\* at the end everything the cache keeps is given back, once
DestroyWhy(s, e) ==
    (IF ~Distinct(e.rel) THEN {"released-twice"} ELSE {})
    \cup (IF ~(SetOf(e.rel) \subseteq (ResAddr(s) \cup LiveAddr(s))) THEN {"released-unknown"} ELSE {})
    \cup (IF ~(ResAddr(s) \subseteq SetOf(e.rel)) THEN {"leak"} ELSE {})
AWhy(s, e) == CASE e.op = "alloc" -> AllocWhy(s, e)
                [] e.op = "dealloc" -> ReleaseWhy(Returned(s, e.i), e)
                [] e.op = "gc" -> ReleaseWhy(s, e)
                [] e.op = "destroy" -> DestroyWhy(s, e)
ATake(s, e) == CASE e.op = "alloc" -> AllocTake(s, e)
                 [] e.op = "dealloc" -> Without(Returned(s, e.i), e.rel)
                 [] e.op = "gc" -> Without(s, e.rel)
                 [] e.op = "destroy" -> AStart
=============================================================================
