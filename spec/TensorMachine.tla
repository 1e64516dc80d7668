--------------------------- MODULE TensorMachine ---------------------------
(* Programs over tensors as a state machine.  A handle (the program's tensor object) has a shape of its own and    *)
(* refers to a buffer; handles that refer to the same buffer share their elements.                                 *)
(*   st = [reg |-> function from handles to [b |-> buffer, s |-> shape], heap |-> sequence of element sequences]   *)
EXTENDS Tensor, TLC

Val(st, i)         == T(st.reg[i].s, st.heap[st.reg[i].b])
Fresh(st, o, t)    == [reg |-> (o :> [b |-> Len(st.heap) + 1, s |-> t.s]) @@ st.reg, heap |-> Append(st.heap, t.d)]
Share(st, o, a, s) == [st EXCEPT !.reg = (o :> [b |-> st.reg[a].b, s |-> s]) @@ @]
Write(st, a, d)    == [st EXCEPT !.heap = [@ EXCEPT ![st.reg[a].b] = d]]
Into(st, a, t)     == [reg |-> [st.reg EXCEPT ![a].s = t.s], heap |-> [st.heap EXCEPT ![st.reg[a].b] = t.d]]
Sharing(st, a)     == { i \in DOMAIN st.reg : st.reg[i].b = st.reg[a].b }

\* operations that return a tensor of their own: x, y are the operand values, p the parameters
PureVal(op, x, y, p) ==
    CASE op = "add"  -> Add(x, y)
      [] op = "sub"  -> Sub(x, y)
      [] op \in {"adds", "sadd"} -> Map(x, LAMBDA v : v + p[1])
      [] op = "subs" -> Map(x, LAMBDA v : v - p[1])
      [] op = "ssub" -> Map(x, LAMBDA v : p[1] - v)
      [] op \in {"muls", "smul"} -> Map(x, LAMBDA v : v * p[1])
      [] op = "divs" -> Map(x, LAMBDA v : Quot(v, p[1]))
      [] op = "neg"  -> Map(x, LAMBDA v : -v)
      [] op = "abs"  -> Map(x, AbsI)
      [] op \in {"emul", "hmul"} -> IF Len(x.d) < Len(y.d) THEN Mul(y, x) ELSE Mul(x, y)
      [] op = "ediv" -> ZipSame(x, y, Quot)
      [] op = "mm"   -> Product(x, y)
      [] op = "gemm" -> LET l == IF p[1] = 1 THEN Transpose2(T(<<p[4], p[3]>>, x.d)) ELSE T(<<p[3], p[4]>>, x.d)
                            r == IF p[2] = 1 THEN Transpose2(T(<<p[5], p[4]>>, y.d)) ELSE T(<<p[4], p[5]>>, y.d)
                        IN MatMul(l, r)
      [] op = "flip" -> Flip(x, p[1])
      [] op = "repeat" -> RepeatLead(x, p[1])
      [] op = "concat" -> Concat(x, y, p[1])
      [] op = "repmat" -> Repmat(x, p[1], p[2])
      [] op = "oneslike"  -> Const(x.s, 1)
      [] op = "zeroslike" -> Const(x.s, 0)
      [] op = "astype" -> x
      [] op = "bcast" -> BroadcastTo(x, p)
      [] op \in {"deep", "fcopy"} -> x
      [] op = "rsum" -> T(<<1>>, <<SumSeq(x.d)>>)
      [] op = "sumax" -> SumAx(x, p[1], p[2])
      [] op = "maxax" -> MaxAx(x, p[1], p[2])
      [] op = "minax" -> MinAx(x, p[1], p[2])
Pure1 == {"adds", "sadd", "subs", "ssub", "muls", "smul", "divs", "neg", "abs", "flip", "repeat", "repmat", "oneslike", "zeroslike",
          "astype", "bcast", "deep", "fcopy", "rsum", "sumax", "maxax", "minax"}
Pure2 == {"add", "sub", "emul", "hmul", "ediv", "mm", "gemm", "concat"}
Shared == {"copy", "assign", "reshape", "squeeze", "squeezeax"}
InPlace == {"poke", "reset", "mapadd", "iadd", "isub", "imul", "idiv", "iadds", "isubs", "imuls", "idivs", "clip"}
Resizing == {"reshapein", "resize", "deepinto", "mminto"}      \* change the tensor they are called for, possibly its shape
Queries == {"sum", "mean", "max", "min", "amax", "amin", "rmean", "meanax", "varax", "stdax", "softmax", "var", "std", "walk", "bshape"}
Makers == {"new", "newv", "ones", "zeros", "linspace"}

WriteVal(op, x, y, p) ==
    CASE op = "poke"  -> [x.d EXCEPT ![p[1] + 1] = p[2]]
      [] op = "reset" -> Fill(Len(x.d), p[1])
      [] op \in {"mapadd", "iadds"} -> Map(x, LAMBDA v : v + p[1]).d
      [] op = "isubs" -> Map(x, LAMBDA v : v - p[1]).d
      [] op = "imuls" -> Map(x, LAMBDA v : v * p[1]).d
      [] op = "idivs" -> Map(x, LAMBDA v : Quot(v, p[1])).d
      [] op = "iadd" -> Add(x, y).d
      [] op = "isub" -> Sub(x, y).d
      [] op = "imul" -> Mul(x, y).d
      [] op = "idiv" -> ZipSame(x, y, Quot).d
      [] op = "clip" -> Map(x, LAMBDA v : MaxI(p[1], MinI(p[2], v))).d
\* what is written through a handle (for the Resizing operations, with the shape)
IntoVal(op, st, a, p, o) ==
    CASE op = "reshapein" -> T(p, Val(st, a[1]).d)
      [] op = "resize" -> IF Prod(p) = Len(Val(st, a[1]).d) THEN T(p, Val(st, a[1]).d) ELSE Const(p, 0)
      [] op = "deepinto" -> Val(st, a[1])
      [] op = "mminto" -> Product(Val(st, a[1]), Val(st, a[2]))
IntoTarget(op, a, o) == IF op \in {"deepinto", "mminto"} THEN o ELSE a[1]

\* e = [op, o, a, p, r]: operation, result handle, operand handles, parameters, given elements (for "new")
Step(st, e) ==
    LET x == Val(st, e.a[1]) y == Val(st, e.a[2]) IN
    CASE e.op = "new"   -> Fresh(st, e.o, T(e.p, e.r))
      [] e.op = "newv"  -> Fresh(st, e.o, Const(e.p, e.r[1]))
      [] e.op = "ones"  -> Fresh(st, e.o, Const(e.p, 1))
      [] e.op = "zeros" -> Fresh(st, e.o, Const(e.p, 0))
      [] e.op = "linspace" -> \* p = start, stop, number, endpoint included
            LET segs == IF e.p[4] = 1 THEN e.p[3] - 1 ELSE e.p[3] IN
            Fresh(st, e.o, T(<<e.p[3]>>, [k \in 1..e.p[3] |-> e.p[1] + Quot(e.p[2] - e.p[1], segs) * (k - 1)]))
      [] e.op \in Pure1 -> Fresh(st, e.o, PureVal(e.op, x, x, e.p))
      [] e.op \in Pure2 -> Fresh(st, e.o, PureVal(e.op, x, y, e.p))
      [] e.op \in {"copy", "assign"} -> Share(st, e.o, e.a[1], x.s)
      [] e.op = "reshape" -> Share(st, e.o, e.a[1], e.p)
      [] e.op = "squeeze" -> Share(st, e.o, e.a[1], Squeeze(x).s)
      [] e.op = "squeezeax" -> Share(st, e.o, e.a[1], SqueezeAx(x, e.p[1]).s)
      [] e.op = "clip" -> LET w == Write(st, e.a[1], WriteVal(e.op, x, x, e.p)) IN Share(w, e.o, e.a[1], x.s)
      [] e.op \in InPlace \ {"clip"} ->
            Write(st, e.a[1], WriteVal(e.op, x, IF Len(e.a) > 1 THEN y ELSE x, e.p))
      [] e.op \in Resizing -> Into(st, IntoTarget(e.op, e.a, e.o), IntoVal(e.op, st, e.a, e.p, e.o))
      [] e.op = "drop" -> [st EXCEPT !.reg = [i \in (DOMAIN @) \ {e.a[1]} |-> @[i]]]
      [] e.op \in Queries -> st
EmptyState == [reg |-> <<>>, heap |-> <<>>]
Good(st) == \A i \in DOMAIN st.reg : WellFormed(Val(st, i))
=============================================================================
