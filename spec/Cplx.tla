--------------------------------- MODULE Cplx ---------------------------------
(* Complex expressions: pairs of real tensors [s, d].  CVal gives the list of real tensors an operation evaluates to, CAdj *)
(* the adjoints for all arguments given the incoming gradients of these.  Products are matrix products, as for reals.      *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE Real
LOCAL INSTANCE Math
LOCAL INSTANCE TLC
Z1(f(_), a) == [s |-> a.s, d |-> TLCEval([i \in DOMAIN a.d |-> f(a.d[i])])]
Z2(f(_, _), a, b) == [s |-> a.s, d |-> TLCEval([i \in DOMAIN a.d |-> f(a.d[i], b.d[i])])]
TAdd(a, b) == Z2(Add, a, b)
TSub(a, b) == Z2(Sub, a, b)
TMul(a, b) == Z2(Mul, a, b)
TDiv(a, b) == Z2(Div, a, b)
TNeg(a) == Z1(Neg, a)
Tr(a) == LET m == a.s[1] n == a.s[2] IN [s |-> <<n, m>>, d |-> TLCEval([i \in 1..m*n |-> LET r == (i - 1) \div m c == (i - 1) % m IN a.d[c * n + r + 1]])]
MM(a, b) == LET m == a.s[1] n == a.s[2] k == b.s[2] IN
    [s |-> <<m, k>>, d |-> TLCEval([i \in 1..m*k |-> LET r == (i - 1) \div k c == (i - 1) % k IN SumR([j \in 1..n |-> Mul(a.d[r * n + j], b.d[(j - 1) * k + c + 1])])])]
Complex == {"cabs", "cnorm", "cconj", "cpolar", "carg", "cpos", "cneg", "cadd", "csub2", "cmul", "cadde", "eaddc", "csube", "esubc", "cmule", "emulc", "creal", "cimag"}
CVal(k, a) ==
    CASE k = "cabs" -> <<Z1(Sqrt, TAdd(Z1(Sq, a[1]), Z1(Sq, a[2])))>> [] k = "cnorm" -> <<TAdd(Z1(Sq, a[1]), Z1(Sq, a[2]))>>
      [] k = "cconj" -> <<a[1], TNeg(a[2])>> [] k = "cpos" -> <<a[1], a[2]>> [] k = "cneg" -> <<TNeg(a[1]), TNeg(a[2])>>
      [] k = "cpolar" -> <<TMul(a[1], Z1(Cos, a[2])), TMul(a[1], Z1(Sin, a[2]))>> [] k = "carg" -> <<Z2(Atan2, a[2], a[1])>>
      [] k = "cadd" -> <<TAdd(a[1], a[3]), TAdd(a[2], a[4])>> [] k = "csub2" -> <<TSub(a[1], a[3]), TSub(a[2], a[4])>>
      [] k = "cmul" -> <<TSub(MM(a[1], a[3]), MM(a[2], a[4])), TAdd(MM(a[1], a[4]), MM(a[2], a[3]))>>
      [] k \in {"cadde", "eaddc"} -> <<TAdd(a[1], a[3]), a[2]>>
      [] k = "csube" -> <<TSub(a[1], a[3]), a[2]>> [] k = "esubc" -> <<TSub(a[3], a[1]), TNeg(a[2])>>
      [] k = "cmule" -> <<MM(a[1], a[3]), MM(a[2], a[3])>> [] k = "emulc" -> <<MM(a[3], a[1]), MM(a[3], a[2])>>
      [] k = "creal" -> <<a[1]>> [] k = "cimag" -> <<a[2]>>
Zeros(a) == Z1(LAMBDA x : Zero, a)
CAdj(k, a, g) ==
    CASE k = "cabs" -> LET r == CVal(k, a)[1] IN <<TMul(g[1], TDiv(a[1], r)), TMul(g[1], TDiv(a[2], r))>>
      [] k = "cnorm" -> <<TMul(g[1], TAdd(a[1], a[1])), TMul(g[1], TAdd(a[2], a[2]))>>
      [] k = "cconj" -> <<g[1], TNeg(g[2])>> [] k = "cpos" -> <<g[1], g[2]>> [] k = "cneg" -> <<TNeg(g[1]), TNeg(g[2])>>
      [] k = "cpolar" -> LET c == Z1(Cos, a[2]) s == Z1(Sin, a[2]) IN
                         <<TAdd(TMul(g[1], c), TMul(g[2], s)), TMul(a[1], TSub(TMul(g[2], c), TMul(g[1], s)))>>
      [] k = "carg" -> LET n == TAdd(Z1(Sq, a[1]), Z1(Sq, a[2])) IN <<TNeg(TMul(g[1], TDiv(a[2], n))), TMul(g[1], TDiv(a[1], n))>>
      [] k = "cadd" -> <<g[1], g[2], g[1], g[2]>> [] k = "csub2" -> <<g[1], g[2], TNeg(g[1]), TNeg(g[2])>>
      [] k = "cmul" -> <<TAdd(MM(g[1], Tr(a[3])), MM(g[2], Tr(a[4]))), TSub(MM(g[2], Tr(a[3])), MM(g[1], Tr(a[4]))),
                         TAdd(MM(Tr(a[1]), g[1]), MM(Tr(a[2]), g[2])), TSub(MM(Tr(a[1]), g[2]), MM(Tr(a[2]), g[1]))>>
      [] k \in {"cadde", "eaddc"} -> <<g[1], g[2], g[1]>>
      [] k = "csube" -> <<g[1], g[2], TNeg(g[1])>> [] k = "esubc" -> <<TNeg(g[1]), TNeg(g[2]), g[1]>>
      [] k = "cmule" -> <<MM(g[1], Tr(a[3])), MM(g[2], Tr(a[3])), TAdd(MM(Tr(a[1]), g[1]), MM(Tr(a[2]), g[2]))>>
      [] k = "emulc" -> <<MM(Tr(a[3]), g[1]), MM(Tr(a[3]), g[2]), TAdd(MM(g[1], Tr(a[1])), MM(g[2], Tr(a[2])))>>
      [] k = "creal" -> <<g[1], Zeros(a[2])>> [] k = "cimag" -> <<Zeros(a[1]), g[1]>>
===============================================================================
