-------------------------------- MODULE Expr --------------------------------
(* The meaning of Bertini 2 expression trees.

   A pool is a sequence of nodes; each node names its operands by their position in the
   pool, so sub-expressions are shared exactly as they are between shared_ptr's.  The
   meaning of a node at an environment (variable -> Gaussian rational) is a dual number:
   its value and its partial derivatives, computed by forward-mode differentiation, i.e.
   by a method unrelated to the symbolic one of the implementation.  Transcendental nodes
   have an exact meaning at special arguments, and through the identities (macro nodes
   such as sin^2+cos^2, exp(log u), log(3^u)/log 3) at every argument.                   *)
EXTENDS GRat, TLC, FiniteSets

NoDual == <<>>
\* V: the variables with respect to which derivatives are taken
ConstV(c, V) == IF c = Undef THEN NoDual ELSE [v |-> c, d |-> [x \in V |-> C0]]
VarV(c, x, V) == IF c = Undef THEN NoDual ELSE [v |-> c, d |-> [y \in V |-> IF y = x THEN C1 ELSE C0]]

Good(D) == IF D = NoDual THEN NoDual
           ELSE IF D.v = Undef \/ \E x \in DOMAIN D.d : D.d[x] = Undef THEN NoDual ELSE D

DAdd(p, q) == IF p = NoDual \/ q = NoDual THEN NoDual
              ELSE Good([v |-> Add(p.v, q.v), d |-> [x \in DOMAIN p.d |-> Add(p.d[x], q.d[x])]])
DNeg(p) == IF p = NoDual THEN NoDual
           ELSE [v |-> Neg(p.v), d |-> [x \in DOMAIN p.d |-> Neg(p.d[x])]]
DSub(p, q) == DAdd(p, DNeg(q))
DMul(p, q) == IF p = NoDual \/ q = NoDual THEN NoDual
              ELSE Good([v |-> Mul(p.v, q.v),
                         d |-> [x \in DOMAIN p.d |-> Add(Mul(p.d[x], q.v), Mul(p.v, q.d[x]))]])
\* chain rule: value w = g(p.v), slope s = g'(p.v)
DChain(p, w, s) == IF p = NoDual \/ w = Undef \/ s = Undef THEN NoDual
                   ELSE Good([v |-> w, d |-> [x \in DOMAIN p.d |-> Mul(s, p.d[x])]])
DInv(p) == IF p = NoDual THEN NoDual
           ELSE LET i == Inv(p.v) IN DChain(p, i, Neg(Mul(i, i)))
DDiv(p, q) == DMul(p, DInv(q))
DPowI(p, n) == IF p = NoDual THEN NoDual
               ELSE IF n = 0 THEN (IF p.v = C0 THEN NoDual ELSE ConstV(C1, DOMAIN p.d))
               ELSE IF n = 1 THEN p
               ELSE DChain(p, PowI(p.v, n), Mul(Zi(n), PowI(p.v, n - 1)))
DSqrt(p) == IF p = NoDual THEN NoDual
            ELSE LET r == SqrtQ(p.v) IN DChain(p, r, Inv(Mul(Zi(2), r)))
\* g with g(c) = w, g'(c) = s at the one special argument c
DAt(p, c, w, s) == IF p = NoDual THEN NoDual ELSE IF p.v = c THEN DChain(p, w, s) ELSE NoDual

IsReal(p) == p.v[2] = 0
\* |v| <= 3/4, away from the branch points of asin, acos and atan
Tame(p) == /\ Abs(p.v[1]) * 4 <= 3 * p.v[3] /\ p.v[2] = 0
\* not on or near the branch cut of log and sqrt
OffCut(p) == p.v # C0 /\ ~(p.v[2] = 0 /\ p.v[1] < 0)
Small(p) == Abs(p.v[1]) <= 4 * p.v[3] /\ Abs(p.v[2]) <= p.v[3]
If(c, p) == IF c THEN p ELSE NoDual

\* the set of unary operations whose operand is a node
Unary == {"neg", "sqrt", "sin0", "tan0", "asin0", "atan0", "cos0", "exp0", "log1",
          "pyth", "explog", "logexp", "sqrtsq", "powhalfsq", "sinasin", "cosacos", "tanatan",
          "tancos", "expinv", "logpow", "fn"}
Binary == {"add", "sub", "mul", "div", "addeq", "subeq", "muleq", "diveq"}
\* binary, with an integer instead of the second node
IntOps == {"addi", "iadd", "subi", "isub", "muli", "imul", "divi", "idiv", "ipow", "cpow",
           "addq", "qadd", "subq", "qsub", "mulq", "qmul", "divq", "qdiv"}
Leaves == {"int", "rat", "flt", "i", "one", "two", "zero", "sinpi6", "cospi", "loge", "expe"}

\* the dual of one node, given those of the earlier ones; env : variable -> dual
NodeDual(n, acc, env) ==
    LET A == acc[n.a]
        B == acc[n.b]
        k == Zi(n.n)
        q == Q(n.n, 3)
        Const(c) == ConstV(c, DOMAIN env)
    IN CASE n.op = "var" -> (IF n.x \in DOMAIN env THEN env[n.x] ELSE NoDual)
         [] n.op = "int" -> Const(k)
         [] n.op = "rat" -> Const(n.c)
         [] n.op = "flt" -> Const(n.c)
         [] n.op = "i" -> Const(CI)
         [] n.op = "one" -> Const(C1)
         [] n.op = "two" -> Const(Zi(2))
         [] n.op = "zero" -> Const(C0)
         [] n.op = "sinpi6" -> Const(Q(1, 2))
         [] n.op = "cospi" -> Const(Zi(-1))
         [] n.op = "loge" -> Const(C1)
         [] n.op = "expe" -> Const(C1)
         [] n.op \in {"add", "addeq"} -> DAdd(A, B)
         [] n.op \in {"sub", "subeq"} -> DSub(A, B)
         [] n.op \in {"mul", "muleq"} -> DMul(A, B)
         [] n.op \in {"div", "diveq"} -> DDiv(A, B)
         [] n.op \in {"addi", "iadd"} -> DAdd(A, Const(k))
         [] n.op = "subi" -> DSub(A, Const(k))
         [] n.op = "isub" -> DSub(Const(k), A)
         [] n.op \in {"muli", "imul"} -> DMul(A, Const(k))
         [] n.op = "divi" -> DDiv(A, Const(k))
         [] n.op = "idiv" -> DDiv(Const(k), A)
         [] n.op \in {"addq", "qadd"} -> DAdd(A, Const(q))
         [] n.op = "subq" -> DSub(A, Const(q))
         [] n.op = "qsub" -> DSub(Const(q), A)
         [] n.op \in {"mulq", "qmul"} -> DMul(A, Const(q))
         [] n.op = "divq" -> DDiv(A, Const(q))
         [] n.op = "qdiv" -> DDiv(Const(q), A)
         [] n.op = "ipow" -> DPowI(A, n.n)
         [] n.op = "cpow" -> IF A = NoDual THEN NoDual ELSE If(A.v # C0, DPowI(A, n.n))   \* PowerOperator, constant exponent
         [] n.op = "sum3" -> DAdd(DAdd(IF n.s[1] THEN A ELSE DNeg(A), IF n.s[2] THEN B ELSE DNeg(B)),
                                  IF n.s[3] THEN acc[n.e] ELSE DNeg(acc[n.e]))
         [] n.op = "prod3" -> DMul(DMul(IF n.s[1] THEN A ELSE DInv(A), IF n.s[2] THEN B ELSE DInv(B)),
                                   IF n.s[3] THEN acc[n.e] ELSE DInv(acc[n.e]))
         [] n.op \in {"neg"} -> DNeg(A)
         [] n.op = "fn" -> A
         [] n.op = "sqrt" -> DSqrt(A)
         [] n.op \in {"sin0", "tan0", "asin0", "atan0"} -> DAt(A, C0, C0, C1)
         [] n.op = "cos0" -> DAt(A, C0, C1, C0)
         [] n.op = "exp0" -> DAt(A, C0, C1, C1)
         [] n.op = "log1" -> DAt(A, C1, C0, C1)
         [] A = NoDual -> NoDual
         [] n.op = "pyth" -> If(Small(A), Const(C1))
         [] n.op = "expinv" -> If(Small(A), Const(C1))
         [] n.op = "tancos" -> If(Tame(A), Const(C0))
         [] n.op = "explog" -> If(OffCut(A), A)
         [] n.op = "logexp" -> If(Small(A), A)
         [] n.op = "sqrtsq" -> If(OffCut(A), A)
         [] n.op = "powhalfsq" -> If(OffCut(A), A)
         [] n.op \in {"sinasin", "cosacos", "tanatan"} -> If(Tame(A), A)
         [] n.op = "logpow" -> If(IsReal(A) /\ Small(A), A)

RECURSIVE Duals(_, _, _)
\* the duals of all the nodes of pool at env
Duals(pool, env, acc) ==
    IF Len(acc) = Len(pool) THEN acc
    ELSE Duals(pool, env, Append(acc, NodeDual(pool[Len(acc) + 1], acc, env)))

(* Degrees.  A node is polynomial in a set of variables when it is built from them by
   +, -, *, non-negative integer powers and division by an expression free of them; then
   its (syntactic) degree is as below.  -1 marks non-polynomial.                          *)
Max2(a, b) == IF a > b THEN a ELSE b
SumDeg(p, q) == IF p < 0 \/ q < 0 THEN -1 ELSE Max2(p, q)
MulDeg(p, q) == IF p < 0 \/ q < 0 THEN -1 ELSE p + q
DivDeg(p, q) == IF p < 0 \/ q # 0 THEN -1 ELSE p
TransDeg(p) == IF p = 0 THEN 0 ELSE -1
PowDeg(p, n) == IF p < 0 THEN -1 ELSE IF n >= 0 THEN p * n ELSE IF p = 0 THEN 0 ELSE -1

NodeDeg(n, acc, S) ==
    LET A == acc[n.a]
        B == acc[n.b]
    IN CASE n.op = "var" -> IF n.x \in S THEN 1 ELSE 0
         [] n.op \in Leaves -> 0
         [] n.op \in {"add", "addeq", "sub", "subeq"} -> SumDeg(A, B)
         [] n.op \in {"mul", "muleq"} -> MulDeg(A, B)
         [] n.op \in {"div", "diveq"} -> DivDeg(A, B)
         [] n.op \in {"addi", "iadd", "subi", "isub", "muli", "imul", "divi",
                      "addq", "qadd", "subq", "qsub", "mulq", "qmul", "divq", "neg", "fn"} -> A
         [] n.op \in {"idiv", "qdiv"} -> DivDeg(0, A)
         [] n.op \in {"ipow", "cpow"} -> PowDeg(A, n.n)
         [] n.op = "sum3" -> SumDeg(SumDeg(A, B), acc[n.e])
         [] n.op = "prod3" -> LET f(p, s) == IF s THEN p ELSE DivDeg(0, p)
                              IN MulDeg(MulDeg(f(A, n.s[1]), f(B, n.s[2])), f(acc[n.e], n.s[3]))
         [] OTHER -> TransDeg(A)

RECURSIVE Degs(_, _, _)
Degs(pool, S, acc) ==
    IF Len(acc) = Len(pool) THEN acc
    ELSE Degs(pool, S, Append(acc, NodeDeg(pool[Len(acc) + 1], acc, S)))
=============================================================================
