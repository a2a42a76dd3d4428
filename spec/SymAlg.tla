------------------------------- MODULE SymAlg -------------------------------
(***************************************************************************)
(* The symbolic algebra as a state machine.  The state is a workspace of   *)
(* named expressions; a command builds a new one from those there,         *)
(* simplifies one in place, assigns components of a matrix, or observes    *)
(* something.  The abstract value of an expression is its value (Sem.tla)  *)
(* at two sample environments, as a power series in time.                  *)
(*                                                                          *)
(* This module is the trace specification: Cases is a sequence of recorded *)
(* programs (commands with the result the real code gave: accepted or      *)
(* refused, and the dump of every expression of the workspace whose dump   *)
(* changed).  Every behaviour follows one recorded program; the failures   *)
(* of the step, judged by Fails, are printed and counted.                  *)
(***************************************************************************)
EXTENDS Sem, Json, IOUtils

Cases == TLCEval(ndJsonDeserialize(IOEnv.CASES))
K == 2

VARIABLES c,    \* which recorded program
          l,    \* position in it
          ws    \* register -> [v |-> <<value in env 1, value in env 2>>, t |-> term, anc |-> registers it was built from]
vars == <<c, l, ws>>

Envs(cs) == 1..Len(cs.envs)
Mo(cs, e) == [env |-> cs.envs[e], K |-> K, dx |-> <<>>]
EvalAll(cs, t) == TLCEval([e \in Envs(cs) |-> Eval(t, Mo(cs, e))])

\* ------------------------------------------------------------ meaning of the commands
IsReg(a) == "r" \in DOMAIN a
ArgVal(w, cs, a, e) == IF IsReg(a) THEN w[a.r].v[e] ELSE Eval(a.lit, Mo(cs, e))
ArgTerm(w, a) == IF IsReg(a) THEN w[a.r].t ELSE a.lit
One(k) == SInt(1, k)
\* index lists of a slice: s.m (and s.n) zero-based; result shape as documented
\* for slicing: one row and no or one column is a scalar, one row with several
\* columns a row vector, several rows with at most one column a column vector
SliceShape(m, n) ==
  IF Len(n) <= 1 THEN (IF Len(m) = 1 THEN <<0, 1, 1>> ELSE <<1, Len(m), 1>>)
  ELSE IF Len(m) = 1 THEN <<1, 1, Len(n)>> ELSE <<2, Len(m), Len(n)>>
\* a single index counts through the components in row-major order
SlicePos(v, m, n, p) ==
  IF Len(n) = 0 THEN m[p] + 1
  ELSE m[((p-1) \div Len(n)) + 1] * Cols(v) + n[((p-1) % Len(n)) + 1] + 1
SliceOK(v, m, n) ==
  /\ Len(m) > 0
  /\ IF Len(n) = 0 THEN \A i \in 1..Len(m): m[i] >= 0 /\ m[i] < NumEl(v)
     ELSE (\A i \in 1..Len(m): m[i] >= 0 /\ m[i] < Rows(v)) /\ (\A i \in 1..Len(n): n[i] >= 0 /\ n[i] < Cols(v))
VGet(v, m, n) ==
  IF IsIll(v) \/ ~SliceOK(v, m, n) THEN Ill
  ELSE LET sh == SliceShape(m, n) IN [sh |-> sh, d |-> Map(sh[2] * sh[3], LAMBDA p: v.d[SlicePos(v, m, n, p)])]
VSet(v, m, n, x) ==
  IF IsIll(v) \/ IsIll(x) \/ ~SliceOK(v, m, n) THEN Ill
  ELSE LET sh == SliceShape(m, n) cnt == sh[2] * sh[3] IN
       IF x.sh[2] # sh[2] \/ x.sh[3] # sh[3] THEN Ill
       ELSE [sh |-> v.sh, d |-> Map(Len(v.d), LAMBDA q:
              LET ps == {p \in 1..cnt : SlicePos(v, m, n, p) = q}
              IN  IF ps = {} THEN v.d[q] ELSE x.d[CHOOSE p \in ps : \A r \in ps : r <= p])]
\* substitution: the meaning of the term with every occurrence of old replaced.
\* old is a symbol (or the time derivative of one): the environment is changed.
SubsEnv(cs, e, w, s) ==
  LET old == ArgTerm(w, s.args[2]) x == ArgVal(w, cs, s.args[3], e)
  IN  [old |-> old, x |-> x]
RECURSIVE EvalSubs(_, _, _, _)
EvalSubs(t, m, old, x) ==
  IF t = old THEN x
  ELSE IF ~WellFormed(t) THEN Ill
  ELSE IF "a" \notin DOMAIN t THEN Eval(t, m)
  ELSE IF t.t \in {"jac"} THEN Eval(t, m)
  ELSE LET a == TLCEval([i \in 1..Len(t.a) |-> EvalSubs(t.a[i], m, old, x)]) IN
       IF t.t = "der" THEN VDer(a[1]) ELSE IF t.t = "elem" THEN Apply(t, <<a[1]>>, m) ELSE Apply(t, a, m)

\* the value command s must produce, in environment e
Want(w, cs, s, e) ==
  LET A(i) == ArgVal(w, cs, s.args[i], e)
      T(i) == ArgTerm(w, s.args[i])
      m    == Mo(cs, e)
  IN
  CASE s.op = "sym"    -> SymVal(m, s.name, s.shape, 0)
    [] s.op = "num"    -> A(1)
    [] s.op = "zeros"  -> [sh |-> s.shape, d |-> Map(s.shape[2] * s.shape[3], LAMBDA i: Zer(K))]
    [] s.op = "eye"    -> IF s.shape[1] # 2 \/ s.shape[2] # s.shape[3] THEN Ill ELSE MkVal(s.shape, LAMBDA i, j: SInt(IF i = j THEN 1 ELSE 0, K))
    [] s.op = "matrix" -> IF \E i \in 1..Len(s.args): ~IsScal(A(i)) THEN Ill ELSE [sh |-> s.shape, d |-> Map(Len(s.args), LAMBDA i: A(i).d[1])]
    [] s.op = "add"    -> VAdd(A(1), A(2))
    [] s.op = "sub"    -> VSub(A(1), A(2))
    [] s.op = "mul"    -> VMul(A(1), A(2))
    [] s.op = "div"    -> IF IsIll(A(2)) THEN Ill ELSE IF ~IsScal(A(2)) THEN VMul(A(1), VInverse(A(2))) ELSE LET b == A(2).d[1] IN Map1(LAMBDA x: SDiv(x, b), A(1))
    [] s.op = "neg"    -> VNeg(A(1))
    [] s.op = "pow"    -> IF IsScal(A(1)) THEN VPow(A(1), A(2))
                          ELSE VMatPow(A(1), ExpInt(T(2)))
    [] s.op \in {"sin", "cos", "tan", "asin", "acos", "atan", "abs", "sign", "transp", "skew", "scalar", "inv"}
                       -> Apply([t |-> s.op], <<A(1)>>, m)
    [] s.op \in {"atan2", "outer", "solve", "less", "greater", "equal"} -> Apply([t |-> s.op], <<A(1), A(2)>>, m)
    [] s.op = "if"     -> VIf(A(1), A(2), A(3))
    [] s.op = "element"-> VElem(A(1), s.m[1], s.n[1])
    [] s.op = "get"    -> VGet(A(1), s.m, s.n)
    [] s.op = "set"    -> VSet(A(1), s.m, s.n, A(2))
    [] s.op \in {"der", "dt"} -> VDer(A(1))
    [] s.op = "dx"     -> LET q == CompOf(T(2), 1) IN Partial(T(1), m, q[1], q[2], q[3])
    [] s.op = "jac"    -> VJacobian(T(1), T(2), m)
    [] s.op = "subs"   -> EvalSubs(T(1), m, T(2), A(3))
    [] s.op \in {"simplify", "observe", "copy", "drop"} -> A(1)
    [] OTHER           -> Ill

\* a term the partial derivative of which this specification leaves open
RECURSIVE Has(_, _)
Has(t, S) == t.t \in S \/ ("a" \in DOMAIN t /\ \E i \in 1..Len(t.a) : Has(t.a[i], S))

\* ------------------------------------------------------------ judging one step
\* properties a wrong value of this command counts against
ValueProps(op) ==
  CASE op \in {"get", "set", "element"}  -> {"S07"}
    [] op \in {"der", "dt", "dx", "jac"} -> {"S03"}
    [] op = "subs"                       -> {"S04"}
    [] op \in {"simplify", "observe"}    -> {"S01"}
    [] OTHER                             -> {"S01", "S07"}
Failure(ps, what) == [props |-> ps, what |-> what]
Worst(want, got) == LET k == {ValCmp(want[e], got[e]) : e \in DOMAIN want} IN IF "ne" \in k THEN "ne" ELSE IF k = {"eq"} THEN "eq" ELSE "na"

\* set of failures; new is the workspace after the step as the code reports it
Fails(cs, s, w, want, new) ==
  LET ok == \A e \in Envs(cs) : ~IsIll(want[e])
      o  == s.out
      accept ==
        IF s.res = "ok" /\ ~ok THEN {Failure(IF s.op \in {"get", "set", "element"} THEN {"S02", "S07"} ELSE {"S02"}, "accepted although the shapes do not fit")}
        ELSE IF s.res = "err" /\ ok /\ ~(s.op = "skew" /\ IsScal(ArgVal(w, cs, s.args[1], 1))) THEN {Failure(IF s.op \in {"get", "set", "element"} THEN {"S02", "S07"} ELSE {"S02"}, "refused although the shapes fit")}
        ELSE IF s.res = "crash" THEN {Failure({"S01", "S02", "S03", "S04", "S05", "S07"}, "the process died")}
        ELSE {}
      result ==
        IF s.res # "ok" \/ ~ok \/ o = "" THEN {}
        ELSE LET k == Worst(want, new[o].v)
             IN (IF k = "ne" THEN {Failure(ValueProps(s.op), "value")} ELSE {})
                \cup (IF \E e \in Envs(cs) : new[o].t.s # want[e].sh THEN {Failure({"S02"}, "shape")} ELSE {})
      \* everything else keeps its value and shape
      \* (an assignment to components shows in what was built from the matrix, and in
      \* an operand that an operation without effect, like A*1, returned as its result)
      roots == IF s.op = "set" /\ s.res = "ok" THEN {o} \cup {q \in w[o].anc : q \in DOMAIN new /\ q \in DOMAIN w /\ new[q].t # w[q].t} ELSE {}
      others == {r \in DOMAIN w : r # o /\ r \notin roots /\ w[r].anc \cap roots = {}}
      frame == {Failure(IF s.op \in {"get", "set"} THEN {"S05", "S07"} ELSE IF s.op \in {"der", "dt", "dx", "jac"} THEN {"S03", "S05"} ELSE IF s.op = "subs" THEN {} ELSE {"S05"}, "changed " \o r) :
                  r \in {q \in others : q \in DOMAIN new /\ new[q].t # w[q].t /\ (new[q].t.s # w[q].t.s \/ Worst(w[q].v, new[q].v) = "ne")}}
      obs == s.op = "observe" /\ s.res = "ok"
      atoms == IF ~obs \/ {a.n : a \in ToSet(s.atoms)} = SymNames(w[s.args[1].r].t) THEN {} ELSE {Failure({"S04"}, "atoms")}
      pysh == IF ~obs \/ "pyshape" \notin DOMAIN s THEN {}
              ELSE LET sh == want[1].sh
                   IN IF s.pylen = sh[2] * sh[3] /\ s.pyshape = (IF sh[1] = 0 THEN <<>> ELSE IF sh[1] = 1 THEN <<IF sh[2] > sh[3] THEN sh[2] ELSE sh[3]>> ELSE <<sh[2], sh[3]>>)
                      THEN {} ELSE {Failure({"S02", "S07"}, "shape() or len()")}
  IN accept \cup result \cup frame \cup atoms \cup pysh

\* ------------------------------------------------------------ relations (S06)
\* s.regs: the registers; s.eq, s.ne, s.lt: matrices of the answers
RelFails(cs, s, w) ==
  LET n == Len(s.regs)
      I == 1..n
      Same(i, j) == w[s.regs[i]].t = w[s.regs[j]].t
      Incomp(i, j) == ~s.lt[i][j] /\ ~s.lt[j][i]
      F(cond, what) == IF cond THEN {} ELSE {Failure({"S06"}, what)}
  IN  F(\A i \in I : s.eq[i][i], "== not reflexive")
      \cup F(\A i, j \in I : s.eq[i][j] = s.eq[j][i], "== not symmetric")
      \cup F(\A i, j, k \in I : s.eq[i][j] /\ s.eq[j][k] => s.eq[i][k], "== not transitive")
      \cup F(\A i, j \in I : s.ne[i][j] # s.eq[i][j], "!= is not the negation of ==")
      \cup F(\A i, j \in I : Same(i, j) => s.eq[i][j], "equal copies not ==")
      \cup F(\A i, j \in I : s.eq[i][j] => w[s.regs[i]].t.s = w[s.regs[j]].t.s, "== although the shapes differ")
      \cup F(\A i, j \in I : s.eq[i][j] => Worst(w[s.regs[i]].v, w[s.regs[j]].v) # "ne", "== although the values differ")
      \cup F(\A i \in I : ~s.lt[i][i], "< not irreflexive")
      \cup F(\A i, j \in I : ~(s.lt[i][j] /\ s.lt[j][i]), "< not asymmetric")
      \cup F(\A i, j, k \in I : s.lt[i][j] /\ s.lt[j][k] => s.lt[i][k], "< not transitive")
      \cup F(\A i, j, k \in I : Incomp(i, j) /\ Incomp(j, k) => Incomp(i, k), "incomparability under < not transitive")
      \cup F(\A i, j \in I : s.eq[i][j] => Incomp(i, j), "< orders equal expressions")
      \* the operators of Python
      \cup F(\A i, j \in I : s.peq[i][j] = s.peq[j][i], "Python: == not symmetric")
      \cup F(\A i, j, k \in I : s.peq[i][j] /\ s.peq[j][k] => s.peq[i][k], "Python: == not transitive")
      \cup F(\A i, j \in I : s.pne[i][j] # s.peq[i][j], "Python: != is not the negation of ==")
      \cup F(\A i, j \in I : Same(i, j) => s.peq[i][j], "Python: equal copies not ==")
      \cup F(\A i, j \in I : s.peq[i][j] => w[s.regs[i]].t.s = w[s.regs[j]].t.s /\ Worst(w[s.regs[i]].v, w[s.regs[j]].v) # "ne", "Python: == although shape or value differ")

\* ------------------------------------------------------------ the behaviour
Init == c \in 1..Len(Cases) /\ l = 1 /\ ws = << >>

Merge(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]

Report(cs, s, want, f, new) ==
  IF f = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([case |-> cs.id, step |-> l, op |-> s.op, fails |-> SetToSeq(f),
                                want |-> [e \in DOMAIN want |-> ToString(ShowVal(want[e]))],
                                got |-> IF s.out # "" /\ s.out \in DOMAIN new THEN [e \in DOMAIN new[s.out].v |-> ToString(ShowVal(new[s.out].v[e]))] ELSE <<>>]))

Step ==
  /\ l <= Len(Cases[c].steps)
  /\ l' = l + 1 /\ c' = c
  /\ LET cs == Cases[c] s == cs.steps[l] IN
     IF s.op = "rel"
     THEN /\ Report(cs, s, <<>>, RelFails(cs, s, ws), <<>>)
          /\ ws' = ws
     ELSE LET want == TLCEval([e \in Envs(cs) |-> Want(ws, cs, s, e)])
              anc == UNION {IF IsReg(s.args[i]) THEN {s.args[i].r} \cup ws[s.args[i].r].anc ELSE {} : i \in 1..Len(s.args)}
              upd == TLCEval([r \in DOMAIN s.dump |-> [v |-> EvalAll(cs, s.dump[r]), t |-> s.dump[r],
                                                       anc |-> IF r \in DOMAIN ws THEN ws[r].anc \cup (IF r = s.out THEN anc \ {r} ELSE {}) ELSE anc]])
              new == TLCEval(Merge(ws, upd))
              f == Fails(cs, s, ws, want, new)
          IN /\ Report(cs, s, want, f, new)
             /\ ws' = [r \in DOMAIN new \ (IF s.op = "drop" THEN {s.args[1].r} ELSE {}) |-> new[r]]
Spec == Init /\ [][Step]_vars
\* every step of every recorded program was taken
Consumed == TLCGet("stats").generated = FoldLeft(LAMBDA a, b: a + b, 0, [i \in 1..Len(Cases) |-> Len(Cases[i].steps) + 1])
=============================================================================
