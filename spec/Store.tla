--------------------------------- MODULE Store ---------------------------------
(* What lives longer than one run: tensors written to streams and files, variables saved and restored by sessions,        *)
(* bindings of place holders, identities.  Values are opaque: tensors are [s: shape, d: words of their elements].         *)
EXTENDS Integers, Sequences, FiniteSets
None == [s |-> <<>>, d |-> <<-1>>]
Empty == <<>>                                        \* the function with the empty domain
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Over(f, g) == [y \in DOMAIN f |-> IF y \in DOMAIN g THEN g[y] ELSE f[y]]
Start0 == [ts |-> Empty, strm |-> Empty, file |-> Empty,           \* tensors, streams (first in, first out), files of one tensor
          vars |-> Empty, vt |-> Empty, frozen |-> {}, ses |-> Empty, saved |-> Empty,         \* variables, variables known to the local sessions, saved files
          ph |-> Empty, bnd |-> Empty, own |-> Empty,             \* place holder handle -> identity, identity -> value, session -> identities bound by it
          obj |-> Empty, id |-> Empty, tok |-> 0]                 \* object handle -> token, token -> [k, id]
Tsr(e) == [s |-> e.s, d |-> e.d]
Known(w, n) == IF n = 0 THEN DOMAIN w.vars ELSE w.ses[n]
Queue(w, k) == IF k \in DOMAIN w.strm THEN w.strm[k] ELSE <<>>
\* the new values of the variables after an event; copies of a variable are the same variable
VarsAfter(w, e) ==
    CASE e.op = "restore" -> Over(w.vars, w.saved[e.k])
      [] e.op = "varcopy" -> Put(w.vars, e.i, w.vars[e.o])
      [] e.op = "put" -> [j \in DOMAIN w.vars |-> IF w.vt[j] = w.vt[e.i] THEN Tsr(e) ELSE w.vars[j]]
      [] OTHER -> w.vars
After(w, e) ==
    CASE e.op = "ts" -> [w EXCEPT !.ts = Put(@, e.i, Tsr(e))]
      [] e.op = "wr" -> [w EXCEPT !.strm = Put(@, e.k, Append(Queue(w, e.k), w.ts[e.i]))]
      [] e.op = "rd" -> [w EXCEPT !.ts = Put(@, e.i, Head(w.strm[e.k])), !.strm = Put(@, e.k, Tail(w.strm[e.k]))]
      [] e.op = "sv" -> [w EXCEPT !.file = Put(@, e.k, w.ts[e.i])]
      [] e.op = "ld" -> [w EXCEPT !.ts = Put(@, e.i, w.file[e.k])]
      [] e.op = "open" -> [w EXCEPT !.ses = Put(@, e.n, { e.ids[k] : k \in 1..Len(e.ids) }), !.own = Put(@, e.n, {})]
      [] e.op = "close" -> [w EXCEPT !.ses = Drop(@, e.n), !.own = Drop(@, e.n), !.bnd = [t \in DOMAIN @ |-> IF t \in w.own[e.n] THEN None ELSE @[t]]]
      [] e.op = "save" -> [w EXCEPT !.saved = Put(@, e.k, [i \in Known(w, e.n) |-> w.vars[i]])]
      [] e.op \in {"restore", "put"} -> [w EXCEPT !.vars = VarsAfter(w, e)]
      [] e.op = "varcopy" -> [w EXCEPT !.vars = VarsAfter(w, e), !.vt = Put(@, e.i, w.vt[e.o]), !.frozen = IF e.o \in w.frozen THEN @ \cup {e.i} ELSE @ \ {e.i}]
      [] e.op = "ph" -> [w EXCEPT !.tok = @ + 1, !.ph = Put(@, e.i, w.tok), !.bnd = Put(@, w.tok, None)]
      [] e.op \in {"phcopy", "phassign"} -> [w EXCEPT !.ph = Put(@, e.i, w.ph[e.o])]
      [] e.op = "bind" -> [w EXCEPT !.bnd = Put(@, w.ph[e.i], Tsr(e)), !.own = IF e.n = 0 THEN @ ELSE Put(@, e.n, @[e.n] \cup {w.ph[e.i]})]
      [] e.op = "rebind" -> [w EXCEPT !.bnd = Put(@, w.ph[e.i], Tsr(e))]
      [] e.op = "obj" -> [w EXCEPT !.tok = @ + 1, !.obj = Put(@, e.i, w.tok), !.id = Put(@, w.tok, [k |-> e.k, id |-> e.id])]
      [] e.op \in {"dup", "assign"} -> [w EXCEPT !.obj = Put(@, e.i, w.obj[e.o])]
      [] e.op = "drop" -> [w EXCEPT !.obj = Drop(@, e.i)]
      [] OTHER -> w
=============================================================================
