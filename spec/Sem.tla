-------------------------------- MODULE Sem ---------------------------------
(***************************************************************************)
(* What the expressions of pymbs mean.                                     *)
(*                                                                          *)
(* A value is a record  [sh |-> <<nd, rows, cols>>, d |-> components]      *)
(* (row-major); a component is a truncated power series in time            *)
(* (Series.tla), so that der() is the shift of the series.  nd is 0 for a  *)
(* scalar, 1 for a (column or row) vector, 2 for a matrix.  The value of   *)
(* an ill-shaped combination is Ill.                                       *)
(*                                                                          *)
(* A term is the JSON dump of an expression object of the real code:       *)
(* t (constructor), s (the shape the object claims), a (arguments), ...    *)
(***************************************************************************)
EXTENDS Series, SequencesExt, TLC

Map(n, F(_)) == TLCEval([i \in 1..n |-> F(i)])

Val(sh, d)  == [sh |-> sh, d |-> d]
Ill         == [sh |-> <<-1, 0, 0>>, d |-> <<>>]
IsIll(v)    == v.sh[1] = -1
Scal(x)     == [sh |-> <<0, 1, 1>>, d |-> <<x>>]
IsScal(v)   == v.sh[1] = 0
Rows(v)     == v.sh[2]
Cols(v)     == v.sh[3]
NumEl(v)    == v.sh[2] * v.sh[3]
At(v, i, j) == v.d[(i-1) * v.sh[3] + j]        \* one-based
Zer(k)      == SInt(0, k)
Und(k)      == SDiv(SInt(1, k), SInt(0, k))
MkVal(sh, F(_,_)) ==
  LET c == sh[3] IN
  [sh |-> sh, d |-> Map(sh[2] * c, LAMBDA p: F(((p-1) \div c) + 1, ((p-1) % c) + 1))]

\* ------------------------------------------------------------ shapes
AddShape(p, q) == IF p[1] = 0 THEN q ELSE IF q[1] = 0 THEN p ELSE IF p = q THEN p ELSE <<-1, 0, 0>>
\* matrix product; row vector times column vector is a scalar
MulShape(p, q) ==
  IF p[1] = -1 \/ q[1] = -1 THEN <<-1, 0, 0>>
  ELSE IF p[1] = 0 THEN q ELSE IF q[1] = 0 THEN p
  ELSE IF p[3] # q[2] THEN <<-1, 0, 0>>
  ELSE IF p[1] = 1 /\ q[1] = 1 THEN IF p[2] = 1 /\ q[3] = 1 THEN <<0, 1, 1>> ELSE IF p[2] = 1 THEN <<1, 1, q[3]>> ELSE <<2, p[2], q[3]>>
  ELSE LET nd == IF p[1] < q[1] THEN p[1] ELSE q[1]
       IN  IF nd = 1 /\ p[2] # 1 /\ q[3] # 1 THEN <<2, p[2], q[3]>> ELSE <<nd, p[2], q[3]>>

\* ------------------------------------------------------------ operations on values
Map1(F(_), v) == IF IsIll(v) THEN Ill ELSE [sh |-> v.sh, d |-> Map(Len(v.d), LAMBDA i: F(v.d[i]))]
Zip2(F(_,_), u, v) ==   \* componentwise, scalars combine with anything
  IF IsIll(u) \/ IsIll(v) THEN Ill
  ELSE LET sh == AddShape(u.sh, v.sh) IN
       IF sh[1] = -1 THEN Ill
       ELSE [sh |-> sh, d |-> Map(sh[2] * sh[3], LAMBDA i: F(IF IsScal(u) THEN u.d[1] ELSE u.d[i], IF IsScal(v) THEN v.d[1] ELSE v.d[i]))]
VNeg(v)    == Map1(SNeg, v)
VAdd(u, v) == Zip2(SAdd, u, v)
VSub(u, v) == Zip2(SSub, u, v)

RECURSIVE Dot(_, _, _, _, _, _)
Dot(u, v, i, j, k, acc) == IF k = 0 THEN acc ELSE Dot(u, v, i, j, k-1, SAdd(acc, SMul(At(u, i, k), At(v, k, j))))
VMul(u, v) ==
  IF IsIll(u) \/ IsIll(v) THEN Ill
  ELSE IF IsScal(u) \/ IsScal(v) THEN Zip2(SMul, u, v)
  ELSE LET sh == MulShape(u.sh, v.sh) IN
       IF sh[1] = -1 THEN Ill
       ELSE LET n == u.sh[3] r == u.sh[2] c == v.sh[3] IN
            [sh |-> sh, d |-> Map(r * c, LAMBDA p:
               LET i == ((p-1) \div c) + 1  j == ((p-1) % c) + 1
               IN  Dot(u, v, i, j, n - 1, SMul(At(u, i, n), At(v, n, j))))]

VEye(n, k)       == MkVal(<<2, n, n>>, LAMBDA i, j: SInt(IF i = j THEN 1 ELSE 0, k))
VTransp(v)       == IF IsIll(v) THEN Ill ELSE MkVal(<<v.sh[1], v.sh[3], v.sh[2]>>, LAMBDA i, j: At(v, j, i))
VElem(v, i, j)   == IF IsIll(v) \/ i < 0 \/ j < 0 \/ i >= Rows(v) \/ j >= Cols(v) THEN Ill ELSE Scal(At(v, i+1, j+1))
VScalar(v)       == IF IsIll(v) \/ NumEl(v) # 1 THEN Ill ELSE Scal(v.d[1])
VSkew(v)         ==
  IF IsScal(v) /\ SZero(v.d[1]) THEN MkVal(<<2, 3, 3>>, LAMBDA i, j: v.d[1])
  ELSE IF v.sh # <<1, 3, 1>> THEN Ill
  ELSE LET z == Zer(SOrder(v.d[1])) x == v.d[1] y == v.d[2] w == v.d[3]
       IN  Val(<<2, 3, 3>>, <<z, SNeg(w), y, w, z, SNeg(x), SNeg(y), x, z>>)
VOuter(u, v) == IF u.sh[1] # 1 \/ v.sh[1] # 1 \/ u.sh[3] # 1 \/ v.sh[3] # 1 \/ u.sh[2] # v.sh[2] THEN Ill
                ELSE MkVal(<<2, u.sh[2], v.sh[2]>>, LAMBDA i, j: SMul(u.d[i], v.d[j]))

\* Gaussian elimination on the augmented matrix, rows as sequences; the pivot
\* is the component with the largest leading coefficient (to keep the error bound small).
AbsV(x) == SAbs(SAt(x, 0))
Bigger(x, y) == SPositive(SSub(AbsV(x), AbsV(y)))
RECURSIVE Pivot(_, _, _, _)
Pivot(m, c, i, best) == IF i > Len(m) THEN best ELSE Pivot(m, c, i+1, IF Bigger(m[i][c], m[best][c]) THEN i ELSE best)
RECURSIVE Gauss(_, _)
Gauss(m, c) ==
  IF c > Len(m) THEN m
  ELSE LET p  == Pivot(m, c, c+1, c)
           sw == TLCEval([m EXCEPT ![c] = m[p], ![p] = m[c]])
           w  == Len(m[1])
           pr == Map(w, LAMBDA k: IF k < c THEN sw[c][k] ELSE SDiv(sw[c][k], sw[c][c]))
           m2 == Map(Len(m), LAMBDA i: IF i = c THEN pr
                      ELSE IF SZero(sw[i][c]) THEN sw[i]
                      ELSE Map(w, LAMBDA k: IF k < c THEN sw[i][k] ELSE SSub(sw[i][k], SMul(sw[i][c], pr[k]))))
       IN  Gauss(m2, c+1)
\* A x = B for n x n A and n x k B: the solution as sequence of rows
SolveRows(A, B, n, k) ==
  LET aug == Map(n, LAMBDA i: Map(n + k, LAMBDA j: IF j <= n THEN A[(i-1)*n + j] ELSE B[(i-1)*k + (j-n)]))
      g   == Gauss(aug, 1)
  IN  Map(n, LAMBDA i: Map(k, LAMBDA j: g[i][n+j]))
VSolve(A, b) ==
  IF IsIll(A) \/ IsIll(b) THEN Ill
  ELSE IF A.sh[2] # A.sh[3] \/ b.sh[3] # 1 \/ A.sh[2] # b.sh[2] THEN Ill
  ELSE LET n == A.sh[2]
           x == SolveRows(A.d, b.d, n, 1)
       IN  [sh |-> IF IsScal(A) /\ IsScal(b) THEN <<0, 1, 1>> ELSE <<1, n, 1>>, d |-> Map(n, LAMBDA i: x[i][1])]
VInverse(A) ==
  IF IsIll(A) \/ A.sh[1] = 1 THEN Ill
  ELSE IF IsScal(A) THEN Scal(SDiv(SInt(1, SOrder(A.d[1])), A.d[1]))
  ELSE IF A.sh[2] # A.sh[3] THEN Ill
  ELSE LET n == A.sh[2]
           e == VEye(n, SOrder(A.d[1]))
           x == SolveRows(A.d, e.d, n, n)
       IN  MkVal(A.sh, LAMBDA i, j: x[i][j])

RECURSIVE VPowInt(_, _)
VPowInt(A, n) == IF n = 0 THEN VEye(A.sh[2], SOrder(A.d[1])) ELSE IF n = 1 THEN A
                 ELSE IF n % 2 = 1 THEN VMul(A, VPowInt(A, n-1)) ELSE LET B == TLCEval(VPowInt(A, n \div 2)) IN VMul(B, B)
\* e is a scalar value; for matrices the exponent must be an integer literal n
VPow(v, e) ==
  IF IsIll(v) \/ IsIll(e) \/ ~IsScal(e) THEN Ill
  ELSE IF IsScal(v) THEN Scal(SPow(v.d[1], e.d[1]))
  ELSE Ill
VMatPow(v, n) ==
  IF v.sh[1] # 2 \/ v.sh[2] # v.sh[3] THEN Ill
  ELSE IF n = 99 THEN [sh |-> v.sh, d |-> Map(Len(v.d), LAMBDA i: Und(SOrder(v.d[1])))]   \* exponent not an integer
  ELSE IF n < 0 THEN VPowInt(VInverse(v), -n) ELSE VPowInt(v, n)
VIf(c, u, v) ==
  IF IsIll(c) \/ IsIll(u) \/ IsIll(v) \/ u.sh # v.sh \/ ~IsScal(c) THEN Ill
  ELSE [sh |-> u.sh, d |-> Map(Len(u.d), LAMBDA i: SIf(c.d[1], u.d[i], v.d[i]))]
VCmp(F(_,_), u, v) == IF IsIll(u) \/ IsIll(v) \/ u.sh # v.sh THEN Ill
                      ELSE [sh |-> u.sh, d |-> Map(Len(u.d), LAMBDA i: F(u.d[i], v.d[i]))]
VAtan2(u, v) == IF IsIll(u) \/ IsIll(v) \/ ~IsScal(u) \/ ~IsScal(v) THEN Ill ELSE Zip2(SAtan2, u, v)
VDer(v)      == Map1(SD, v)

\* ------------------------------------------------------------ meaning of terms
\* m: [env |-> name -> sequence of components, each a sequence of IEEE halves
\*     (the coefficients of its power series), K |-> order,
\*     dx |-> <<>> or <<name, n, i>>]
\* If m has a field val (symbol -> value), the symbols have those values, and
\* the derivative of x is the value of "$DERx".
\* With dx = <<>>, der() is the time derivative.  With dx = <<x, n, i>> the
\* series variable is instead the i-th component of the n-th time derivative
\* of x; time derivatives of symbols are then independent constants.
Fact(n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN 1 ELSE IF n = 2 THEN 2 ELSE IF n = 3 THEN 6 ELSE 24
SymVal(m, name, sh, n) ==
  IF "val" \in DOMAIN m
  THEN LET k == IF n = 0 THEN name ELSE "$DER" \o name IN
       IF k \in DOMAIN m.val THEN m.val[k] ELSE [sh |-> sh, d |-> Map(sh[2] * sh[3], LAMBDA i: Und(m.K))]
  ELSE IF name \notin DOMAIN m.env \/ Len(m.env[name]) # sh[2] * sh[3]
  THEN [sh |-> sh, d |-> Map(sh[2] * sh[3], LAMBDA i: Und(m.K))]
  ELSE LET e == m.env[name] IN
       [sh |-> sh, d |-> Map(Len(e), LAMBDA i:
          IF m.dx = <<>> THEN SCut(SCoefs(e[i]), m.K)
          ELSE LET c0 == SMul(SInt(Fact(n), m.K), SLitX(e[i][n+1], m.K)) IN
               IF m.dx = <<name, n, i>> THEN SAdd(c0, SCoefs([k \in 1..(m.K+1) |-> IF k = 2 THEN <<1072693248, 0>> ELSE <<0, 0>>])) ELSE c0)]
RECURSIVE DerDepth(_)
DerDepth(t) == IF t.t = "der" THEN LET q == DerDepth(t.a[1]) IN IF q < 0 THEN -1 ELSE q + 1 ELSE IF t.t = "sym" THEN 0 ELSE -1
RECURSIVE DerCore(_)
DerCore(t) == IF t.t = "der" THEN DerCore(t.a[1]) ELSE t

\* integer value of a literal exponent between -8 and 8, else 99
ExpInt(t) == IF t.t = "zero" THEN 0 ELSE IF t.t \notin {"int", "real"} THEN 99 ELSE
             IF \E n \in -30..30: SCmp(SLitX(t.v, 0), SInt(n, 0)) = "eq" THEN CHOOSE n \in -30..30: SCmp(SLitX(t.v, 0), SInt(n, 0)) = "eq" ELSE 99

\* number of arguments of a constructor; -1: one or more
Arity(c) ==
  CASE c \in {"sym", "int", "real", "bool", "zero", "eye", "unknown"} -> 0
    [] c \in {"neg", "sin", "cos", "tan", "asin", "acos", "atan", "abs", "sign", "elem", "scalar", "transp", "skew", "inv", "der"} -> 1
    [] c \in {"pow", "atan2", "outer", "solve", "less", "greater", "equal", "jac"} -> 2
    [] c = "if" -> 3
    [] OTHER -> -1
WellFormed(t) == LET n == IF "a" \in DOMAIN t THEN Len(t.a) ELSE 0
                     k == Arity(t.t)
                 IN  IF k = -1 THEN n > 0 ELSE IF t.t = "elem" THEN n >= 1 ELSE n = k

RECURSIVE Eval(_, _)
\* value of one node from the values of its arguments
Apply(t, a, m) ==
  LET k == m.K IN
  CASE t.t = "sym"    -> SymVal(m, t.n, t.s, 0)
    [] t.t = "int"    -> Scal(SLitX(t.v, k))
    [] t.t = "real"   -> Scal(SLit(t.v, k))
    [] t.t = "bool"   -> Scal(SLitX(t.v, k))
    [] t.t = "zero"   -> [sh |-> t.s, d |-> Map(t.s[2] * t.s[3], LAMBDA i: Zer(k))]
    [] t.t = "eye"    -> MkVal(t.s, LAMBDA i, j: SInt(IF i = j THEN 1 ELSE 0, k))
    [] t.t = "mat"    -> IF \E i \in 1..Len(a): ~IsScal(a[i]) \/ Len(a) # t.s[2] * t.s[3] THEN Ill
                         ELSE [sh |-> t.s, d |-> Map(Len(a), LAMBDA i: a[i].d[1])]
    [] t.t = "neg"    -> VNeg(a[1])
    [] t.t = "add"    -> FoldLeft(VAdd, a[1], Tail(a))
    [] t.t = "mul"    -> FoldLeft(VMul, a[1], Tail(a))
    [] t.t = "pow"    -> IF IsScal(a[1]) THEN VPow(a[1], a[2]) ELSE VMatPow(a[1], ExpInt(t.a[2]))
    [] t.t = "sin"    -> Map1(SSin, a[1])
    [] t.t = "cos"    -> Map1(SCos, a[1])
    [] t.t = "tan"    -> Map1(STan, a[1])
    [] t.t = "asin"   -> Map1(SAsin, a[1])
    [] t.t = "acos"   -> Map1(SAcos, a[1])
    [] t.t = "atan"   -> Map1(SAtan, a[1])
    [] t.t = "atan2"  -> VAtan2(a[1], a[2])
    [] t.t = "abs"    -> Map1(SAbs, a[1])
    [] t.t = "sign"   -> Map1(SSign, a[1])
    [] t.t = "elem"   -> VElem(a[1], t.i, t.j)
    [] t.t = "scalar" -> VScalar(a[1])
    [] t.t = "transp" -> VTransp(a[1])
    [] t.t = "skew"   -> VSkew(a[1])
    [] t.t = "outer"  -> VOuter(a[1], a[2])
    [] t.t = "solve"  -> VSolve(a[1], a[2])
    [] t.t = "inv"    -> VInverse(a[1])
    [] t.t = "if"     -> VIf(a[1], a[2], a[3])
    [] t.t = "less"   -> VCmp(SLess, a[1], a[2])
    [] t.t = "greater"-> VCmp(LAMBDA u, v: SLess(v, u), a[1], a[2])
    [] t.t = "equal"  -> VCmp(SEqual, a[1], a[2])
    [] OTHER          -> Ill
\* derivative of the term f with respect to component i of the n-th derivative of name
Partial(f, m, name, n, i) ==
  Map1(LAMBDA x: SAt(x, 1), Eval(f, [m EXCEPT !.dx = <<name, n, i>>, !.K = IF m.K < 1 THEN 1 ELSE m.K]))
\* the symbol a component of the second argument of a jacobian denotes: <<name, n, i>>
RECURSIVE CompOf(_, _)
CompOf(t, i) ==
  CASE t.t = "sym"  -> <<t.n, 0, i>>
    [] t.t = "der"  -> LET c == CompOf(t.a[1], i) IN <<c[1], c[2] + 1, c[3]>>
    [] t.t = "elem" -> LET b == t.a[1] IN CompOf(b, t.i * b.s[3] + t.j + 1)
    [] t.t = "mat"  -> CompOf(t.a[i], 1)
    [] OTHER        -> <<"?", 0, 0>>
VJacobian(f, v, m) ==
  IF f.s[1] = 2 \/ v.s[1] # 1 THEN Ill
  ELSE LET n == f.s[2] * f.s[3]  k == v.s[2] * v.s[3]
           cols == Map(k, LAMBDA j: LET c == CompOf(v, j) IN Partial(f, m, c[1], c[2], c[3]))
       IN  IF \E j \in 1..k: IsIll(cols[j]) THEN Ill
           ELSE [sh |-> IF f.s[1] = 0 THEN <<1, 1, k>> ELSE <<2, n, k>>,
                 d |-> Map(n * k, LAMBDA p: cols[((p-1) % k) + 1].d[((p-1) \div k) + 1])]
Eval(t, m) ==
  CASE ~WellFormed(t) -> Ill
    [] t.t = "jac" -> VJacobian(t.a[1], t.a[2], m)
    [] t.t = "der" -> IF m.dx = <<>> THEN VDer(Eval(t.a[1], m))
                      ELSE LET n == DerDepth(t) IN
                           IF n >= 0 THEN SymVal(m, DerCore(t).n, t.s, n)
                           ELSE IF t.a[1].t = "elem" /\ DerDepth(t.a[1].a[1]) >= 0
                           THEN LET b == t.a[1].a[1] IN VElem(SymVal(m, DerCore(b).n, b.s, DerDepth(b) + 1), t.a[1].i, t.a[1].j)
                           ELSE [sh |-> t.s, d |-> Map(t.s[2] * t.s[3], LAMBDA i: Und(m.K))]
    [] OTHER -> LET a == IF "a" \in DOMAIN t THEN TLCEval([i \in 1..Len(t.a) |-> Eval(t.a[i], m)]) ELSE <<>>
                    a1 == IF t.t = "elem" THEN <<a[1]>> ELSE a
                IN  TLCEval(Apply(t, a1, m))

\* ------------------------------------------------------------ comparison
\* "eq", "ne", or "na" where the reference u is undefined (or numerically undecided)
ValCmp(u, v) ==
  IF IsIll(u) THEN "na"
  ELSE IF IsIll(v) \/ Len(u.d) # Len(v.d) THEN "ne"
  ELSE LET c == Map(Len(u.d), LAMBDA i: SCmp(u.d[i], v.d[i])) IN
       IF \E i \in 1..Len(c): c[i] = "ne" THEN "ne"
       ELSE IF \A i \in 1..Len(c): c[i] = "eq" THEN "eq" ELSE "na"
ShowVal(v) == <<v.sh, Map(Len(v.d), LAMBDA i: SShow(v.d[i]))>>

\* ------------------------------------------------------------ atoms
RECURSIVE SymNames(_)
SymNames(t) == IF t.t = "sym" THEN {t.n} ELSE IF "a" \in DOMAIN t THEN UNION {SymNames(t.a[i]) : i \in 1..Len(t.a)} ELSE {}
\* claimed shape consistent with the arguments, everywhere inside the term
RECURSIVE Size(_)
Size(t) == IF "a" \in DOMAIN t THEN FoldLeft(LAMBDA x, y: x + y, 1, [i \in 1..Len(t.a) |-> Size(t.a[i])]) ELSE 1
=============================================================================
