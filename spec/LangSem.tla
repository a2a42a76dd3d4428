------------------------------- MODULE LangSem -------------------------------
(***************************************************************************)
(* The expressions of Matlab and of Modelica (as far as generated code     *)
(* uses them), by the rules of these languages.                             *)
(*                                                                          *)
(* A tree: k = "num" (v), "id" (n), "neg", "bin" (o), "call" (n), "cat"    *)
(* (Matlab brackets, rows), "arr" (Modelica braces), "idx", "if".          *)
(*                                                                          *)
(* Matlab values are two-dimensional arrays: here always sh = <<2,r,c>>,   *)
(* d row-major.  Modelica values have 0, 1 or 2 dimensions: <<0,1,1>>,     *)
(* <<1,n,1>>, <<2,r,c>>.  env maps names to values; the derivative of x is *)
(* the name "der(x)" (Modelica) or "der_x" (Matlab).  K is the order of    *)
(* the series.                                                              *)
(***************************************************************************)
EXTENDS Sem

TwoD(v) == IF IsIll(v) THEN Ill ELSE [v EXCEPT !.sh = <<2, v.sh[2], v.sh[3]>>]
Sc(v) == ~IsIll(v) /\ v.sh[2] = 1 /\ v.sh[3] = 1
\* an array index given as a literal number
IndexOf(v) == IF IsIll(v) \/ ~Sc(v) THEN 0 ELSE IF \E n \in 1..64 : SCmp(v.d[1], SInt(n, SOrder(v.d[1]))) = "eq" THEN CHOOSE n \in 1..64 : SCmp(v.d[1], SInt(n, SOrder(v.d[1]))) = "eq" ELSE 0
IntOf(v) == IF IsIll(v) \/ ~Sc(v) THEN 99 ELSE IF \E n \in -30..30 : SCmp(v.d[1], SInt(n, SOrder(v.d[1]))) = "eq" THEN CHOOSE n \in -30..30 : SCmp(v.d[1], SInt(n, SOrder(v.d[1]))) = "eq" ELSE 99

Truth0(b) == b
Rel(o, u, v) ==
  CASE o = "<" -> SLess(u, v)
    [] o = ">" -> SLess(v, u)
    [] o = "==" -> SEqual(u, v)
    [] o = "<=" -> SSub(SInt(1, SOrder(u)), SLess(v, u))
    [] o = ">=" -> SSub(SInt(1, SOrder(u)), SLess(u, v))
    [] OTHER -> SSub(SInt(1, SOrder(u)), SEqual(u, v))
Rels == {"<", ">", "<=", ">=", "==", "~=", "<>"}

\* -------------------------------------------------------------------- Matlab
MZip(F(_, _), u, v) ==
  IF IsIll(u) \/ IsIll(v) THEN Ill
  ELSE IF Sc(u) THEN [sh |-> v.sh, d |-> Map(Len(v.d), LAMBDA i : F(u.d[1], v.d[i]))]
  ELSE IF Sc(v) THEN [sh |-> u.sh, d |-> Map(Len(u.d), LAMBDA i : F(u.d[i], v.d[1]))]
  ELSE IF u.sh # v.sh THEN Ill
  ELSE [sh |-> u.sh, d |-> Map(Len(u.d), LAMBDA i : F(u.d[i], v.d[i]))]
MatMul(u, v) ==
  IF IsIll(u) \/ IsIll(v) \/ u.sh[3] # v.sh[2] THEN Ill
  ELSE LET n == u.sh[3] c == v.sh[3] IN
       [sh |-> <<2, u.sh[2], c>>, d |-> Map(u.sh[2] * c, LAMBDA p : LET i == ((p-1) \div c) + 1  j == ((p-1) % c) + 1 IN Dot(u, v, i, j, n - 1, SMul(At(u, i, n), At(v, n, j))))]
LeftDiv(A, b) ==
  IF IsIll(A) \/ IsIll(b) \/ A.sh[2] # A.sh[3] \/ A.sh[2] # b.sh[2] THEN Ill
  ELSE LET x == SolveRows(A.d, b.d, A.sh[2], b.sh[3]) IN MkVal(<<2, b.sh[2], b.sh[3]>>, LAMBDA i, j : x[i][j])
MPow(u, v) ==
  IF IsIll(u) \/ IsIll(v) \/ ~Sc(v) THEN Ill
  ELSE IF Sc(u) THEN TwoD(Scal(SPow(u.d[1], v.d[1])))
  ELSE IF u.sh[2] # u.sh[3] THEN Ill
  ELSE LET n == IntOf(v) IN IF n = 99 THEN Ill ELSE TwoD(VMatPow(u, n))
MBin(o, u, v) ==
  CASE o = "+" -> MZip(SAdd, u, v)
    [] o = "-" -> MZip(SSub, u, v)
    [] o = ".*" -> MZip(SMul, u, v)
    [] o = "./" -> MZip(SDiv, u, v)
    [] o = "*" -> IF Sc(u) \/ Sc(v) THEN MZip(SMul, u, v) ELSE MatMul(u, v)
    [] o = "/" -> IF Sc(v) THEN MZip(SDiv, u, v) ELSE Ill
    [] o = "\\" -> IF Sc(u) THEN MZip(LAMBDA a, b : SDiv(b, a), u, v) ELSE LeftDiv(u, v)
    [] o = "^" -> MPow(u, v)
    [] o \in Rels -> MZip(LAMBDA a, b : Rel(o, a, b), u, v)
    [] OTHER -> Ill
HCat2(u, v) == IF IsIll(u) \/ IsIll(v) \/ u.sh[2] # v.sh[2] THEN Ill
               ELSE MkVal(<<2, u.sh[2], u.sh[3] + v.sh[3]>>, LAMBDA i, j : IF j <= u.sh[3] THEN At(u, i, j) ELSE At(v, i, j - u.sh[3]))
VCat2(u, v) == IF IsIll(u) \/ IsIll(v) \/ u.sh[3] # v.sh[3] THEN Ill ELSE [sh |-> <<2, u.sh[2] + v.sh[2], u.sh[3]>>, d |-> u.d \o v.d]
FoldAll(F(_, _), vs) == IF Len(vs) = 0 THEN Ill ELSE FoldLeft(F, vs[1], Tail(vs))
Elementwise(n, v) ==
  CASE n = "sin" -> Map1(SSin, v) [] n = "cos" -> Map1(SCos, v) [] n = "tan" -> Map1(STan, v)
    [] n = "asin" -> Map1(SAsin, v) [] n = "acos" -> Map1(SAcos, v) [] n = "atan" -> Map1(SAtan, v)
    [] n = "abs" -> Map1(SAbs, v) [] n = "sign" -> Map1(SSign, v)
    [] n = "sqrt" -> Map1(LAMBDA x : SPow(x, SRat(1, 2, SOrder(x))), v)
    [] OTHER -> Ill
MCall(n, a, k) ==
  CASE n \in {"sin", "cos", "tan", "asin", "acos", "atan", "abs", "sign", "sqrt"} /\ Len(a) = 1 -> Elementwise(n, a[1])
    [] n = "atan2" /\ Len(a) = 2 -> MZip(SAtan2, a[1], a[2])
    [] n = "transpose" /\ Len(a) = 1 -> VTransp(a[1])
    [] n = "inv" /\ Len(a) = 1 -> IF IsIll(a[1]) \/ a[1].sh[2] # a[1].sh[3] THEN Ill ELSE TwoD(VInverse(a[1]))
    [] n = "zeros" /\ Len(a) = 2 -> IF IntOf(a[1]) \in 1..30 /\ IntOf(a[2]) \in 1..30 THEN MkVal(<<2, IntOf(a[1]), IntOf(a[2])>>, LAMBDA i, j : Zer(k)) ELSE Ill
    [] n = "eye" /\ Len(a) = 1 -> IF IntOf(a[1]) \in 1..30 THEN MkVal(<<2, IntOf(a[1]), IntOf(a[1])>>, LAMBDA i, j : SInt(IF i = j THEN 1 ELSE 0, k)) ELSE Ill
    [] n = "repmat" /\ Len(a) = 3 -> IF ~IsIll(a[1]) /\ IntOf(a[2]) \in 1..9 /\ IntOf(a[3]) \in 1..9
                                     THEN MkVal(<<2, a[1].sh[2] * IntOf(a[2]), a[1].sh[3] * IntOf(a[3])>>, LAMBDA i, j : At(a[1], ((i-1) % a[1].sh[2]) + 1, ((j-1) % a[1].sh[3]) + 1)) ELSE Ill
    [] n = "cross" /\ Len(a) = 2 ->     \* along the first dimension of size 3
         IF IsIll(a[1]) \/ IsIll(a[2]) \/ a[1].sh # a[2].sh \/ a[1].sh[2] # 3 THEN Ill
         ELSE MkVal(a[1].sh, LAMBDA i, j : LET u == (i % 3) + 1  w == (u % 3) + 1 IN SSub(SMul(At(a[1], u, j), At(a[2], w, j)), SMul(At(a[1], w, j), At(a[2], u, j))))
    [] OTHER -> Ill
MIndex(v, a) ==
  IF IsIll(v) THEN Ill
  ELSE IF Len(a) = 1 THEN
       IF a[1].k = "colon" THEN VTransp(MkVal(<<2, 1, NumEl(v)>>, LAMBDA i, j : At(v, ((j-1) % v.sh[2]) + 1, ((j-1) \div v.sh[2]) + 1)))
       ELSE IF a[1].k = "range" THEN
            IF a[1].lo < 1 \/ a[1].hi > NumEl(v) \/ a[1].lo > a[1].hi THEN Ill
            ELSE LET n == a[1].hi - a[1].lo + 1
                     row == v.sh[2] = 1
                 IN  MkVal(IF row THEN <<2, 1, n>> ELSE <<2, n, 1>>, LAMBDA i, j : LET p == a[1].lo + (IF row THEN j ELSE i) - 1 IN At(v, ((p-1) % v.sh[2]) + 1, ((p-1) \div v.sh[2]) + 1))
       ELSE LET p == a[1].i IN IF p < 1 \/ p > NumEl(v) THEN Ill ELSE TwoD(Scal(At(v, ((p-1) % v.sh[2]) + 1, ((p-1) \div v.sh[2]) + 1)))
  ELSE IF Len(a) = 2 THEN
       LET lo(x, n) == IF x.k = "colon" THEN 1 ELSE IF x.k = "range" THEN x.lo ELSE x.i
           hi(x, n) == IF x.k = "colon" THEN n ELSE IF x.k = "range" THEN x.hi ELSE x.i
           r1 == lo(a[1], v.sh[2]) r2 == hi(a[1], v.sh[2]) c1 == lo(a[2], v.sh[3]) c2 == hi(a[2], v.sh[3])
       IN  IF r1 < 1 \/ c1 < 1 \/ r2 > v.sh[2] \/ c2 > v.sh[3] \/ r1 > r2 \/ c1 > c2 THEN Ill
           ELSE MkVal(<<2, r2 - r1 + 1, c2 - c1 + 1>>, LAMBDA i, j : At(v, r1 + i - 1, c1 + j - 1))
  ELSE Ill

RECURSIVE MEval(_, _, _)
MArg(x, env, k) ==     \* an index expression
  CASE x.k = "colon" -> [k |-> "colon"]
    [] x.k = "range" -> [k |-> "range", lo |-> IndexOf(MEval(x.a[1], env, k)), hi |-> IndexOf(MEval(x.a[2], env, k))]
    [] OTHER -> [k |-> "int", i |-> IndexOf(MEval(x, env, k))]
MEval(t, env, k) ==
  CASE t.k = "num" -> TwoD(Scal(SLit(t.v, k)))
    [] t.k = "id" -> IF t.n \in DOMAIN env THEN TwoD(env[t.n]) ELSE IF t.n \in {"true", "false"} THEN TwoD(Scal(SInt(IF t.n = "true" THEN 1 ELSE 0, k))) ELSE Ill
    [] t.k = "neg" -> VNeg(MEval(t.a[1], env, k))
    [] t.k = "bin" -> TLCEval(MBin(t.o, MEval(t.a[1], env, k), MEval(t.a[2], env, k)))
    [] t.k = "call" -> IF t.n \in DOMAIN env THEN MIndex(TwoD(env[t.n]), Map(Len(t.a), LAMBDA i : MArg(t.a[i], env, k)))
                       ELSE IF \E i \in 1..Len(t.a) : t.a[i].k \in {"colon", "range"} THEN Ill
                       ELSE TLCEval(MCall(t.n, Map(Len(t.a), LAMBDA i : MEval(t.a[i], env, k)), k))
    [] t.k = "cat" -> FoldAll(VCat2, Map(Len(t.rows), LAMBDA r : FoldAll(HCat2, Map(Len(t.rows[r].a), LAMBDA i : MEval(t.rows[r].a[i], env, k)))))
    [] OTHER -> Ill

\* ------------------------------------------------------------------ Modelica
OSame(F(_, _), u, v) == IF IsIll(u) \/ IsIll(v) \/ u.sh # v.sh THEN Ill ELSE [sh |-> u.sh, d |-> Map(Len(u.d), LAMBDA i : F(u.d[i], v.d[i]))]
ODim(F(_, _), u, v) == IF IsIll(u) \/ IsIll(v) THEN Ill
                       ELSE IF IsScal(u) \/ IsScal(v) THEN MZip(F, u, v) ELSE OSame(F, u, v)
OMul(u, v) ==
  IF IsIll(u) \/ IsIll(v) THEN Ill
  ELSE IF IsScal(u) THEN [sh |-> v.sh, d |-> Map(Len(v.d), LAMBDA i : SMul(u.d[1], v.d[i]))]
  ELSE IF IsScal(v) THEN [sh |-> u.sh, d |-> Map(Len(u.d), LAMBDA i : SMul(u.d[i], v.d[1]))]
  ELSE IF u.sh[1] = 1 /\ v.sh[1] = 1 THEN IF u.sh # v.sh THEN Ill ELSE Scal(FoldLeft(SAdd, Zer(SOrder(u.d[1])), Map(Len(u.d), LAMBDA i : SMul(u.d[i], v.d[i]))))
  ELSE IF u.sh[1] = 2 /\ v.sh[1] = 1 THEN LET w == MatMul(u, v) IN IF IsIll(w) THEN Ill ELSE [w EXCEPT !.sh = <<1, w.sh[2], 1>>]
  ELSE IF u.sh[1] = 1 THEN LET w == MatMul([u EXCEPT !.sh = <<2, 1, Len(u.d)>>], v) IN IF IsIll(w) THEN Ill ELSE [w EXCEPT !.sh = <<1, w.sh[3], 1>>]
  ELSE MatMul(u, v)
OPow(u, v) ==
  IF IsIll(u) \/ IsIll(v) \/ ~IsScal(v) THEN Ill
  ELSE IF IsScal(u) THEN Scal(SPow(u.d[1], v.d[1]))
  ELSE IF u.sh[1] # 2 \/ u.sh[2] # u.sh[3] THEN Ill
  ELSE LET n == IntOf(v) IN IF n = 99 \/ n < 0 THEN Ill ELSE VPowInt(u, n)
OBin(o, u, v) ==
  CASE o = "+" -> OSame(SAdd, u, v)
    [] o = "-" -> OSame(SSub, u, v)
    [] o = ".+" -> ODim(SAdd, u, v)
    [] o = ".-" -> ODim(SSub, u, v)
    [] o = ".*" -> ODim(SMul, u, v)
    [] o = "./" -> ODim(SDiv, u, v)
    [] o = "*" -> OMul(u, v)
    [] o = "/" -> IF ~IsIll(v) /\ IsScal(v) THEN ODim(SDiv, u, v) ELSE Ill
    [] o = "^" -> OPow(u, v)
    [] o \in Rels -> IF IsIll(u) \/ IsIll(v) \/ ~IsScal(u) \/ ~IsScal(v) THEN Ill ELSE Scal(Rel(o, u.d[1], v.d[1]))
    [] OTHER -> Ill
\* {x, y, ...}: one more dimension
OArray(a) ==
  IF Len(a) = 0 \/ \E i \in 1..Len(a) : IsIll(a[i]) THEN Ill
  ELSE IF \E i \in 1..Len(a) : a[i].sh # a[1].sh \/ a[i].sh[1] > 1 THEN Ill
  ELSE [sh |-> IF IsScal(a[1]) THEN <<1, Len(a), 1>> ELSE <<2, Len(a), a[1].sh[2]>>, d |-> FoldLeft(LAMBDA x, y : x \o y, <<>>, Map(Len(a), LAMBDA i : a[i].d))]
OCall(n, a, k) ==
  IF \E i \in 1..Len(a) : IsIll(a[i]) THEN Ill ELSE
  CASE n \in {"sin", "cos", "tan", "asin", "acos", "atan", "abs", "sign", "sqrt"} /\ Len(a) = 1 -> Elementwise(n, a[1])
    [] n = "atan2" /\ Len(a) = 2 -> ODim(SAtan2, a[1], a[2])
    [] n = "transpose" /\ Len(a) = 1 -> IF a[1].sh[1] # 2 THEN Ill ELSE VTransp(a[1])
    [] n = "scalar" /\ Len(a) = 1 -> IF Len(a[1].d) # 1 THEN Ill ELSE Scal(a[1].d[1])
    [] n = "vector" /\ Len(a) = 1 -> IF a[1].sh[2] > 1 /\ a[1].sh[3] > 1 THEN Ill ELSE [sh |-> <<1, Len(a[1].d), 1>>, d |-> a[1].d]
    [] n = "skew" /\ Len(a) = 1 -> IF a[1].sh # <<1, 3, 1>> THEN Ill ELSE VSkew(a[1])
    [] n = "Modelica.Math.Matrices.inv" /\ Len(a) = 1 -> IF a[1].sh[1] # 2 \/ a[1].sh[2] # a[1].sh[3] THEN Ill ELSE VInverse(a[1])
    [] n = "Modelica.Math.Matrices.solve2" /\ Len(a) = 2 -> IF a[1].sh[1] # 2 \/ a[2].sh[1] # 2 THEN Ill ELSE LeftDiv(a[1], a[2])
    [] n = "zeros" /\ Len(a) = 2 -> IF IntOf(a[1]) \in 1..30 /\ IntOf(a[2]) \in 1..30 THEN MkVal(<<2, IntOf(a[1]), IntOf(a[2])>>, LAMBDA i, j : Zer(k)) ELSE Ill
    [] OTHER -> Ill
OIndex(v, a) ==
  IF IsIll(v) \/ \E i \in 1..Len(a) : a[i] < 1 THEN Ill
  ELSE IF v.sh[1] = 1 /\ Len(a) = 1 THEN IF a[1] > v.sh[2] THEN Ill ELSE Scal(v.d[a[1]])
  ELSE IF v.sh[1] = 2 /\ Len(a) = 2 THEN IF a[1] > v.sh[2] \/ a[2] > v.sh[3] THEN Ill ELSE Scal(At(v, a[1], a[2]))
  ELSE Ill
RECURSIVE OEval(_, _, _)
OEval(t, env, k) ==
  CASE t.k = "num" -> Scal(SLit(t.v, k))
    [] t.k = "id" -> IF t.n \in DOMAIN env THEN env[t.n] ELSE Ill
    [] t.k = "neg" -> VNeg(OEval(t.a[1], env, k))
    [] t.k = "bin" -> TLCEval(OBin(t.o, OEval(t.a[1], env, k), OEval(t.a[2], env, k)))
    [] t.k = "call" -> IF t.n = "der" THEN
                            IF Len(t.a) # 1 THEN Ill
                            ELSE IF t.a[1].k = "id" THEN IF "der(" \o t.a[1].n \o ")" \in DOMAIN env THEN env["der(" \o t.a[1].n \o ")"] ELSE Ill
                            ELSE IF t.a[1].k = "idx" /\ t.a[1].a[1].k = "id" THEN OEval([t.a[1] EXCEPT !.a[1] = [k |-> "call", n |-> "der", a |-> <<t.a[1].a[1]>>]], env, k)
                            ELSE Ill
                       ELSE TLCEval(OCall(t.n, Map(Len(t.a), LAMBDA i : OEval(t.a[i], env, k)), k))
    [] t.k = "arr" -> OArray(Map(Len(t.a), LAMBDA i : OEval(t.a[i], env, k)))
    [] t.k = "idx" -> OIndex(OEval(t.a[1], env, k), [i \in 1..Len(t.a) - 1 |-> IndexOf(OEval(t.a[i + 1], env, k))])
    [] t.k = "if" -> VIf(OEval(t.a[1], env, k), OEval(t.a[2], env, k), OEval(t.a[3], env, k))
    [] OTHER -> Ill
LEval(t, lang, env) == IF lang = "m" THEN MEval(t, env, 0) ELSE OEval(t, env, 0)
=============================================================================
