------------------------------ MODULE StoreTrace ------------------------------
(* recorded uses of sessions, files, bindings and identities against the machine of Store.tla *)
EXTENDS Store, Replay
VarsOf(e) == [i \in { e.v[k].i : k \in 1..Len(e.v) } |-> LET k == CHOOSE k \in 1..Len(e.v) : e.v[k].i = i IN [s |-> e.v[k].s, d |-> e.v[k].d]]
\* 16 bit words of x + x are not expressible here: sums are compared for integer valued bindings, recorded as integers
SumOf(w, e) == LET a == w.bnd[w.ph[e.i]] b == w.bnd[w.ph[e.o]] IN
    IF e.op = "run" THEN a ELSE [s |-> a.s, d |-> [k \in 1..Len(a.d) |-> a.d[k] + b.d[k]]]
Live(w) == { w.obj[i] : i \in DOMAIN w.obj }
CmpWhy(w, e) ==
    LET n == Len(e.h) nv == Len(e.hv)
        At(q, a, b) == q[(a - 1) * n + b]
        T(a) == w.ph[e.h[a]]
        B(x) == IF x THEN 1 ELSE 0
    IN (IF \E a, b \in 1..n : At(e.eq, a, b) # B(T(a) = T(b)) \/ At(e.ne, a, b) # B(T(a) # T(b)) THEN {"equality"} ELSE {})
       \cup (IF \E a, b \in 1..n : \/ At(e.lt, a, b) + At(e.lt, b, a) # B(T(a) # T(b))
                                   \/ At(e.gt, a, b) # At(e.lt, b, a) \/ At(e.le, a, b) # 1 - At(e.gt, a, b) \/ At(e.ge, a, b) # 1 - At(e.lt, a, b)
                                   \/ \E c \in 1..n : At(e.lt, a, b) = 1 /\ At(e.lt, b, c) = 1 /\ At(e.lt, a, c) = 0 THEN {"order"} ELSE {})
       \cup (IF \E a, b \in 1..nv : e.ev[(a - 1) * nv + b] # B(w.vt[e.hv[a]] = w.vt[e.hv[b]]) THEN {"equality"} ELSE {})
IdWhy(w, e) ==
    LET Id(i) == e.o[CHOOSE k \in 1..Len(e.o) : e.o[k].i = i].id D == DOMAIN w.obj IN
    (IF \E i, j \in D : w.obj[i] # w.obj[j] /\ w.id[w.obj[i]].k = w.id[w.obj[j]].k /\ Id(i) = Id(j) THEN {"shared-id"} ELSE {})
    \cup (IF \E i \in D : Id(i) # w.id[w.obj[i]].id THEN {"changed-id"} ELSE {})
MStart == Start0
MWhy(w, e) ==
    CASE e.op \in {"rd", "ld"} -> IF Tsr(e) # After(w, e).ts[e.i] THEN {IF e.s # After(w, e).ts[e.i].s THEN "text-shape" ELSE "text-value"} ELSE {}
      [] e.op \in {"wr", "sv"} -> IF Tsr(e) # w.ts[e.i] THEN {"text-write"} ELSE {}
      [] e.op \in {"save", "open", "close"} -> IF VarsOf(e) # w.vars THEN {"saved"} ELSE {}
      [] e.op = "restore" -> IF VarsOf(e) # VarsAfter(w, e) THEN {"restored"} ELSE {}
      [] e.op \in {"put", "varcopy"} -> IF VarsOf(e) # VarsAfter(w, e) THEN {"shared"} ELSE {}
      [] e.op = "use" -> IF Tsr(e) # w.vars[e.i] \/ VarsOf(e) # w.vars \/ \E k \in 1..Len(e.g) : e.g[k] # (IF e.i \in w.frozen THEN 0 ELSE 1) THEN {"usable"} ELSE {}
      [] e.op \in {"run", "sum"} -> IF Tsr(e) # SumOf(w, e) THEN {"bound"} ELSE {}
      [] e.op = "probe" -> IF e.r # (IF w.bnd[w.ph[e.i]] = None THEN 0 ELSE 1) THEN {"lifetime"} ELSE {}
      [] e.op = "cmp" -> CmpWhy(w, e)
      [] e.op = "obj" -> IF \E t \in Live(w) : w.id[t].k = e.k /\ w.id[t].id = e.id THEN {"shared-id"} ELSE {}
      [] e.op \in {"dup", "assign"} -> IF e.id # w.id[w.obj[e.o]].id THEN {"changed-id"} ELSE {}
      [] e.op = "ids" -> IdWhy(w, e)
      [] OTHER -> {}
MTake(w, e) == IF e.op = "var" THEN [w EXCEPT !.vars = VarsOf(e), !.tok = @ + 1, !.vt = Put(@, e.i, w.tok), !.frozen = IF e.trn = 0 THEN @ \cup {e.i} ELSE @] ELSE After(w, e)
MTell(w, e, why) ==
    CASE e.op \in {"rd", "ld"} -> "expected " \o ToString(After(w, e).ts[e.i]) \o " got " \o ToString(Tsr(e))
      [] e.op = "restore" -> "expected " \o ToString(VarsAfter(w, e)) \o " got " \o ToString(VarsOf(e))
      [] e.op \in {"run", "sum"} -> "expected " \o ToString(SumOf(w, e)) \o " got " \o ToString(Tsr(e))
      [] OTHER -> ToString(e)
=============================================================================
