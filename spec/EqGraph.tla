------------------------------ MODULE EqGraph -------------------------------
(***************************************************************************)
(* The equation system and the assignment lists made from it.              *)
(*                                                                          *)
(* State: the declared variables, the accepted equations, the variables    *)
(* that became states.  Actions: declaring a variable, adding an equation  *)
(* (accepted or refused).  At the end the system is built in several       *)
(* modes (vector or scalar, optimised or not) and assignment lists are     *)
(* requested for sets of wanted quantities; a list is executed here,       *)
(* assignment by assignment, next to the solution of the equations that    *)
(* were entered.                                                            *)
(*                                                                          *)
(* Trace specification: Cases are recorded runs of the real code.          *)
(***************************************************************************)
EXTENDS Sem, Json, IOUtils

Cases == TLCEval(ndJsonDeserialize(IOEnv.CASES))

VARIABLES c,     \* the recorded run
          l,     \* position in it
          decl,  \* name -> declaration
          eqs    \* accepted equations, in order
vars == <<c, l, decl, eqs>>

Prev(n) == "$DER" \o n
Bits == {1, 2, 4, 8, 16, 32, 64, 256, 512, 1024}
HasBit(k, b) == (k \div b) % 2 = 1
Meets(k, m) == \E b \in Bits : HasBit(k, b) /\ HasBit(m, b)

\* ------------------------------------------------------------ symbols of a term
\* keys: the name of a symbol, or "$DER" + name for the derivative of one
RECURSIVE Keys(_)
Keys(t) == IF t.t = "sym" THEN {t.n}
           ELSE IF t.t = "der" /\ t.a[1].t = "sym" THEN {Prev(t.a[1].n)}
           ELSE IF t.t = "der" THEN {Prev(n) : n \in Keys(t.a[1])}
           ELSE IF "a" \in DOMAIN t THEN UNION {Keys(t.a[i]) : i \in 1..Len(t.a)} ELSE {}
\* symbols whose derivative occurs
RECURSIVE DerSyms(_)
DerSyms(t) == IF t.t = "der" THEN SymNames(t.a[1]) ELSE IF "a" \in DOMAIN t THEN UNION {DerSyms(t.a[i]) : i \in 1..Len(t.a)} ELSE {}
RECURSIVE DerDer(_)
DerDer(t) == IF t.t = "der" THEN DerSyms(t.a[1]) # {} \/ t.a[1].t # "sym" ELSE "a" \in DOMAIN t /\ \E i \in 1..Len(t.a) : DerDer(t.a[i])

\* what a left-hand side defines: a sequence of [k |-> key, n |-> name, p |-> component (0: all), i |-> component of the right-hand side (0: all)]
\* and whether it is of an allowed form
RECURSIVE Tgt(_, _)
Tgt(t, i) ==
  CASE t.t = "sym" -> [ok |-> TRUE, s |-> <<[k |-> t.n, n |-> t.n, p |-> 0, i |-> i, sh |-> t.s]>>]
    [] t.t = "der" /\ t.a[1].t = "sym" -> [ok |-> TRUE, s |-> <<[k |-> Prev(t.a[1].n), n |-> t.a[1].n, p |-> 0, i |-> i, sh |-> t.s]>>]
    [] t.t = "elem" /\ t.a[1].t = "sym" -> [ok |-> TRUE, s |-> <<[k |-> t.a[1].n, n |-> t.a[1].n, p |-> t.i * t.a[1].s[3] + t.j + 1, i |-> i, sh |-> t.a[1].s]>>]
    [] t.t = "der" /\ t.a[1].t = "elem" /\ t.a[1].a[1].t = "sym" ->
         LET e == t.a[1] IN [ok |-> TRUE, s |-> <<[k |-> Prev(e.a[1].n), n |-> e.a[1].n, p |-> e.i * e.a[1].s[3] + e.j + 1, i |-> i, sh |-> e.a[1].s]>>]
    [] t.t = "elem" /\ t.a[1].t = "der" /\ t.a[1].a[1].t = "sym" ->
         LET e == t.a[1].a[1] IN [ok |-> TRUE, s |-> <<[k |-> Prev(e.n), n |-> e.n, p |-> t.i * e.s[3] + t.j + 1, i |-> i, sh |-> e.s]>>]
    [] t.t = "mat" /\ i = 0 -> LET r == [j \in 1..Len(t.a) |-> Tgt(t.a[j], j)]
                   IN  [ok |-> \A j \in 1..Len(t.a) : r[j].ok, s |-> FoldLeft(LAMBDA x, y : x \o y, <<>>, [j \in 1..Len(t.a) |-> r[j].s])]
    [] OTHER -> [ok |-> FALSE, s |-> <<>>]
TKeys(tg) == {tg.s[i].k : i \in 1..Len(tg.s)}
Names(tg) == {tg.s[i].n : i \in 1..Len(tg.s)}
Distinct(tg) == \A i, j \in 1..Len(tg.s) : i # j => tg.s[i].k # tg.s[j].k \/ (tg.s[i].p # tg.s[j].p /\ tg.s[i].p # 0 /\ tg.s[j].p # 0)

\* ------------------------------------------------------------ acceptance
Known(d, n) == n = "time" \/ n \in DOMAIN d
AllKnown(d, t) == \A n \in SymNames(t) : Known(d, n)
Defined(es) == UNION {es[i].keys : i \in 1..Len(es)}
SizeOf(sh) == sh[2] * sh[3]
Whole(sh) == 1..SizeOf(sh)
\* the components a left-hand side defines
TComps(tg) == UNION {LET x == tg.s[i] IN IF x.p = 0 THEN {<<x.k, j>> : j \in Whole(x.sh)} ELSE {<<x.k, x.p>>} : i \in 1..Len(tg.s)}
DefComps(es) == UNION {es[i].comps : i \in 1..Len(es)}
\* components of a key used by a term: <<key, p>>; p = 0: all of them
RECURSIVE Uses(_)
Uses(t) ==
  IF t.t = "sym" THEN {<<t.n, 0>>}
  ELSE IF t.t = "elem" /\ t.a[1].t = "sym" THEN {<<t.a[1].n, t.i * t.a[1].s[3] + t.j + 1>>}
  ELSE IF t.t = "der" THEN {<<Prev(u[1]), u[2]>> : u \in Uses(t.a[1])}
  ELSE IF t.t = "elem" /\ t.a[1].t = "der" /\ t.a[1].a[1].t = "sym" THEN {<<Prev(t.a[1].a[1].n), t.i * t.a[1].a[1].s[3] + t.j + 1>>}
  ELSE IF "a" \in DOMAIN t THEN UNION {Uses(t.a[i]) : i \in 1..Len(t.a)} ELSE {}
Overlap(u, w) == u[1] = w[1] /\ (u[2] = w[2] \/ u[2] = 0 \/ w[2] = 0)
\* the equation mentions what it is to define
OwnUse(tg, t) == \E w \in TComps(tg), u \in Uses(t) : Overlap(w, u)
OwnDer(tg, t) == \E i \in 1..Len(tg.s) : tg.s[i].k \in DerSyms(t)
PartLhs(tg) == \E i \in 1..Len(tg.s) : tg.s[i].p # 0
VarOK(d, s) ==
  /\ ~Known(d, s.name)
  /\ "init" \in DOMAIN s => /\ s.init.s = s.shape
                            /\ \A n \in SymNames(s.simp) : n \in DOMAIN d /\ d[n].kind \in {2, 4}
IsNumber(t) == t.t \in {"int", "real", "zero"} /\ t.s[1] = 0
\* one equation lhs = rhs (sm: the right-hand side simplified)
\* "yes", "no", or "free" where nothing is said
OneOK(d, def, lhs, hasl, rhs, sm, imp) ==
  LET tg == IF hasl THEN Tgt(lhs, 0) ELSE [ok |-> TRUE, s |-> <<>>] IN
  CASE DerDer(rhs) -> "free"
    [] ~tg.ok \/ ~Distinct(tg) -> "no"
    [] \E n \in Names(tg) : ~Known(d, n) -> "no"
    [] ~AllKnown(d, sm) -> "no"
    [] TComps(tg) \cap def # {} -> "no"
    [] ~imp /\ OwnUse(tg, sm) -> "no"
    [] ~imp /\ OwnDer(tg, sm) -> IF PartLhs(tg) THEN "free" ELSE "no"
    [] ~imp /\ hasl /\ lhs.s # sm.s /\ ~IsNumber(sm) -> "no"
    [] imp /\ hasl /\ lhs.s # rhs.s -> "free"
    [] ~AllKnown(d, rhs) \/ (~imp /\ (OwnUse(tg, rhs) \/ OwnDer(tg, rhs))) -> "free"    \* vanished on simplification
    [] "time" \in TKeys(tg) -> "free"
    [] OTHER -> "yes"
\* the equations an addition consists of
Pairs(s) == IF s.lvec /\ s.rvec THEN [i \in 1..Len(s.rhs) |-> [l |-> s.lhs[i], has |-> TRUE, r |-> s.rhs[i], sm |-> s.simp[i]]]
            ELSE IF s.lvec THEN <<[l |-> [t |-> "mat", s |-> <<1, Len(s.lhs), 1>>, a |-> s.lhs], has |-> TRUE, r |-> s.rhs[1], sm |-> s.simp[1]]>>
            ELSE IF s.rvec THEN <<[l |-> s.lhs[1], has |-> TRUE, r |-> [t |-> "mat", s |-> <<1, Len(s.rhs), 1>>, a |-> s.rhs], sm |-> [t |-> "mat", s |-> <<1, Len(s.rhs), 1>>, a |-> s.simp]]>>
            ELSE <<[l |-> IF s.lhs = <<>> THEN [t |-> "none", s |-> <<0, 1, 1>>] ELSE s.lhs[1], has |-> s.lhs # <<>>, r |-> s.rhs[1], sm |-> s.simp[1]]>>
RECURSIVE PairsOK(_, _, _, _, _, _)
PairsOK(d, def, ps, i, imp, acc) ==
  IF i > Len(ps) THEN acc
  ELSE LET r == OneOK(d, def, ps[i].l, ps[i].has, ps[i].r, ps[i].sm, imp)
           ks == IF ps[i].has THEN TComps(Tgt(ps[i].l, 0)) ELSE {}
       IN  IF r = "no" THEN "no" ELSE PairsOK(d, def \cup ks, ps, i + 1, imp, IF r = "free" THEN r ELSE acc)
EqOK(d, es, s) ==
  IF s.lvec /\ s.rvec /\ Len(s.lhs) # Len(s.rhs) THEN "no"
  ELSE IF s.lvec /\ ~s.rvec /\ (\E i \in 1..Len(s.lhs) : s.lhs[i].s[1] # 0) THEN "no"
  ELSE IF s.rvec /\ ~s.lvec /\ (\E i \in 1..Len(s.rhs) : s.rhs[i].s[1] # 0) THEN "free"
  ELSE PairsOK(d, DefComps(es), Pairs(s), 1, s.imp, "yes")
NewEqs(s) ==
  LET ps == Pairs(s) IN
  [i \in 1..Len(ps) |-> LET tg == IF ps[i].has THEN Tgt(ps[i].l, 0) ELSE [ok |-> TRUE, s |-> <<>>] IN
     [keys |-> TKeys(tg), comps |-> TComps(tg), tg |-> tg.s, l |-> ps[i].l, has |-> ps[i].has, r |-> ps[i].r, sm |-> ps[i].sm, imp |-> s.imp]]

\* ------------------------------------------------------------ bookkeeping
\* definitely a state: its derivative is given; possibly: its derivative is mentioned
StateDef(es) == {n \in UNION {{es[i].tg[j].n : j \in 1..Len(es[i].tg)} : i \in 1..Len(es)} : \E i \in 1..Len(es) : Prev(n) \in es[i].keys}
StateMay(es) == StateDef(es) \cup UNION {DerSyms(es[i].r) : i \in 1..Len(es)}
KindName == [Variable |-> 1, Constant |-> 2, Parameter |-> 4, Input |-> 8, User |-> 64, Sensor |-> 256, Graphics |-> 512, Controller |-> 1024]
Listed(o, k) == {o.vars[k][i] : i \in 1..Len(o.vars[k])}
InitVal(d, n, m) == IF "init" \in DOMAIN d[n] THEN Eval(d[n].init, m) ELSE [sh |-> d[n].shape, d |-> Map(d[n].shape[2] * d[n].shape[3], LAMBDA i : Zer(0))]
Failure(p, w) == [prop |-> p, what |-> w]
F(cond, p, w) == IF cond THEN {} ELSE {Failure(p, w)}
\* extra: further variables may have been introduced (after optimisation)
ObsFails(o, d, es, m, extra) ==
  LET sd == StateDef(es) sm == StateMay(es)
      D == DOMAIN d
      Inner(x) == x[1] \notin D      \* "$DER..." and temporaries
      shape(n) == d[n].shape
  IN  UNION {LET ls == Listed(o, k) IN
        F(\A n \in D : d[n].kind = KindName[k] /\ (k # "Variable" \/ n \notin sm) => <<n, shape(n)>> \in ls, "G06", "not listed as " \o k)
        \cup F(\A x \in ls : Inner(x) \/ (d[x[1]].kind = KindName[k] /\ x[2] = shape(x[1])), "G06", "listed as " \o k \o " but declared otherwise")
        \cup F(k = "Variable" => \A n \in sd : <<n, shape(n)>> \notin ls, "G06", "state still listed as ordinary variable")
        \cup F(Len(o.vars[k]) = Cardinality(ls), "G06", "listed twice as " \o k)
        \cup F(\A x \in ls : Inner(x) => extra \/ (k = "Variable" /\ \E n \in sm : x[1] = Prev(n)), "G06", "unknown variable listed as " \o k)
      : k \in DOMAIN KindName}
      \cup LET st == Listed(o, "State") dr == Listed(o, "Der") IN
           F(\A n \in sd : <<n, shape(n)>> \in st, "G06", "not listed as state")
           \cup F(\A x \in st : x[1] \in sm /\ x[2] = shape(x[1]), "G06", "listed as state, but its derivative is not given")
           \cup F(\A x \in st : <<Prev(x[1]), x[2]>> \in dr, "G06", "state without derivative variable")
           \cup F(\A x \in dr : \E y \in st : x = <<Prev(y[1]), y[2]>>, "G06", "derivative variable without state")
           \cup F(Len(o.vars["State"]) = Cardinality(st) /\ Len(o.vars["Der"]) = Cardinality(dr), "G06", "state listed twice")
      \cup F(\A n \in D : n \in ToSet(o.known), "G01", "declared variable not found")
      \cup F(\A n \in ToSet(o.known) : n \in D \/ n = "time", "G01", "variable of a refused declaration found")
      \cup F(\A n \in D \cap ToSet(o.known) : o.init[n].t # "none" /\ ValCmp(InitVal(d, n, m), Eval(o.init[n], m)) # "ne" /\ o.init[n].s = d[n].shape, "G06", "initial value not as entered")
      \cup F(\A n \in D \cap ToSet(o.known) : o.comment[n] = d[n].comment, "G06", "comment not as entered")

\* ------------------------------------------------------------ values
\* a model (Sem.tla) whose symbols have the values val (key -> value)
VM(val, cs) == [env |-> cs.env, K |-> 0, dx |-> <<"?", 0, 0>>, val |-> val]
EnvVal(cs, n, sh, q) == [sh |-> sh, d |-> Map(Len(cs.env[n]), LAMBDA i : SLitX(cs.env[n][i][q], 0))]
\* everything bound independently, for comparing expressions
FreeM(cs, d) == VM([k \in DOMAIN cs.env \cup {Prev(n) : n \in DOMAIN cs.env} |->
                     IF k \in DOMAIN cs.env THEN EnvVal(cs, k, IF k = "time" \/ k \notin DOMAIN d THEN <<0, 1, 1>> ELSE d[k].shape, 1)
                     ELSE LET n == CHOOSE n \in DOMAIN cs.env : Prev(n) = k IN EnvVal(cs, n, IF n \in DOMAIN d THEN d[n].shape ELSE <<0, 1, 1>>, 2)], cs)
Ext(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
\* given data: time, inputs, controllers, states
GivenNames(d, es) == {n \in DOMAIN d : d[n].kind \in {8, 1024}} \cup StateMay(es)
Given(cs, d, es) == [n \in GivenNames(d, es) \cup {"time"} |-> IF n = "time" THEN EnvVal(cs, n, <<0, 1, 1>>, 1) ELSE EnvVal(cs, n, d[n].shape, 1)]
Broad(v, sh) == IF IsScal(v) /\ sh[1] # 0 THEN [sh |-> sh, d |-> Map(sh[2] * sh[3], LAMBDA i : v.d[1])] ELSE v
Explicit(es) == \A i \in 1..Len(es) : es[i].has /\ ~es[i].imp
\* no key both given and defined
Sane(d, es) == \A k \in Defined(es) : k \notin GivenNames(d, es) /\ k # "time"

\* ------------------------------------------------------------ executing a list
\* val: key -> value, has: key -> set of defined components
CanUse(has, vl, u) == u[1] \in DOMAIN has /\ IF u[2] = 0 THEN has[u[1]] = Whole(vl[u[1]].sh) ELSE u[2] \in has[u[1]]
Store(vl, k, sh, p, x) ==   \* x: value of the component p (0: of all)
  LET old == IF k \in DOMAIN vl THEN vl[k] ELSE [sh |-> sh, d |-> Map(SizeOf(sh), LAMBDA i : Und(0))]
      bad == IsIll(x) \/ (p = 0 /\ Len(x.d) # SizeOf(sh)) \/ (p # 0 /\ Len(x.d) # 1)
  IN  IF bad THEN Ext(vl, k, [old EXCEPT !.d = Map(Len(old.d), LAMBDA i : IF p = 0 \/ i = p THEN Und(0) ELSE old.d[i])])
      ELSE IF p = 0 THEN Ext(vl, k, [sh |-> sh, d |-> x.d]) ELSE Ext(vl, k, [old EXCEPT !.d[p] = x.d[1]])
Mark(has, k, sh, p) == LET old == IF k \in DOMAIN has THEN has[k] ELSE {} IN Ext(has, k, IF p = 0 THEN Whole(sh) ELSE old \cup {p})
RECURSIVE StoreAll(_, _, _, _)
StoreAll(st, tg, v, j) ==
  IF j > Len(tg) THEN st
  ELSE LET x == tg[j]
           part == IF IsIll(v) THEN Ill ELSE IF x.i = 0 THEN Broad(v, IF x.p = 0 THEN x.sh ELSE <<0, 1, 1>>) ELSE IF x.i > Len(v.d) THEN Ill ELSE Scal(v.d[x.i])
           twice == x.k \in DOMAIN st.has /\ (IF x.p = 0 THEN st.has[x.k] # {} ELSE x.p \in st.has[x.k])
       IN  StoreAll([st EXCEPT !.val = Store(st.val, x.k, x.sh, x.p, part), !.has = Mark(st.has, x.k, x.sh, x.p),
                               !.f = IF twice THEN st.f \cup {Failure("G02", "a variable is defined twice")} ELSE st.f], tg, v, j + 1)

\* the solution of the explicit equations: key -> value, for everything determined
RECURSIVE Solved(_, _, _, _)
Solved(st, cs, es, todo) ==
  LET can == {i \in todo : \A u \in Uses(es[i].r) : CanUse(st.has, st.val, u)} IN
  IF can = {} THEN [val |-> st.val, has |-> st.has, left |-> todo]
  ELSE LET i == CHOOSE i \in can : \A j \in can : i <= j
           v == TLCEval(Broad(Eval(es[i].r, VM(st.val, cs)), es[i].l.s))
       IN  Solved(TLCEval(StoreAll(st, es[i].tg, v, 1)), cs, es, todo \ {i})
GivenSt(g) == [val |-> g, has |-> [k \in DOMAIN g |-> Whole(g[k].sh)], f |-> {}]
Complete(sol) == {k \in DOMAIN sol.val : sol.has[k] = Whole(sol.val[k].sh)}
\* the components determined by the simplified equations
KShape(d, k) == IF k \in DOMAIN d THEN d[k].shape
                ELSE IF \E n \in DOMAIN d : Prev(n) = k THEN d[CHOOSE n \in DOMAIN d : Prev(n) = k].shape ELSE <<0, 1, 1>>
AllOf(d, us) == UNION {IF u[2] # 0 THEN {u} ELSE {<<u[1], i>> : i \in Whole(KShape(d, u[1]))} : u \in us}
RECURSIVE DetComps(_, _, _)
DetComps(k, d, es) == LET new == UNION {es[i].comps : i \in {i \in 1..Len(es) : es[i].has /\ ~es[i].imp /\ AllOf(d, Uses(es[i].sm)) \subseteq k}} IN
                      IF new \subseteq k THEN k ELSE DetComps(k \cup new, d, es)

\* an implicit block: its equations lhs[i] = rhs[i] together determine the components they use that are not defined yet;
\* the equations of the generated systems are affine in those
CompsOf(us, st, d) == UNION {IF u[2] # 0 THEN {u} ELSE IF u[1] \in DOMAIN st.val THEN {<<u[1], i>> : i \in Whole(st.val[u[1]].sh)}
                              ELSE IF u[1] \in DOMAIN d THEN {<<u[1], i>> : i \in Whole(d[u[1]].shape)} ELSE {<<u[1], 1>>} : u \in us}
RECURSIVE PutComps(_, _, _, _, _)
PutComps(vl, d, seq, xs, i) == IF i > Len(seq) THEN vl ELSE PutComps(Store(vl, seq[i][1], KShape(d, seq[i][1]), seq[i][2], Scal(xs[i])), d, seq, xs, i + 1)
Residuals(a, vl, cs) == FoldLeft(LAMBDA x, y : x \o y, <<>>, [i \in 1..Len(a.rhs) |-> LET r == VSub(Eval(a.lhs[i], VM(vl, cs)), Eval(a.rhs[i], VM(vl, cs))) IN IF IsIll(r) THEN <<Und(0)>> ELSE r.d])
Block(st, a, cs, d) ==
  LET us == UNION {Uses(a.lhs[i]) \cup Uses(a.rhs[i]) : i \in 1..Len(a.rhs)}
      un == {u \in CompsOf(us, st, d) : ~(u[1] \in DOMAIN st.has /\ u[2] \in st.has[u[1]])}
      seq == SetToSeq(un)
      n == Len(seq)
      At0 == Residuals(a, PutComps(st.val, d, seq, [i \in 1..n |-> Zer(0)], 1), cs)
      Col(j) == Residuals(a, PutComps(st.val, d, seq, [i \in 1..n |-> SInt(IF i = j THEN 1 ELSE 0, 0)], 1), cs)
      cols == Map(n, Col)
  IN  IF n = 0 \/ n > 8 THEN [st EXCEPT !.f = st.f \cup {Failure("G04", "an implicit block determines nothing")}]
      ELSE IF Len(At0) # n THEN [st EXCEPT !.f = st.f \cup {Failure("G04", "an implicit block has not as many equations as unknowns")}]
      ELSE LET A == Map(n * n, LAMBDA p : SSub(cols[((p-1) % n) + 1][((p-1) \div n) + 1], At0[((p-1) \div n) + 1]))
               b == Map(n, LAMBDA i : SNeg(At0[i]))
               x == SolveRows(A, b, n, 1)
               xs == Map(n, LAMBDA i : x[i][1])
           IN  [st EXCEPT !.val = PutComps(st.val, d, seq, xs, 1), !.has = [k \in DOMAIN st.has \cup {u[1] : u \in un} |->
                     (IF k \in DOMAIN st.has THEN st.has[k] ELSE {}) \cup {u[2] : u \in {w \in un : w[1] = k}}]]
Exec1(st, a, cs, d) ==
  IF a.imp \/ Len(a.lhs) # 1 THEN Block([st EXCEPT !.f = st.f \cup F(a.imp, "G04", "equations to be solved together are not marked so")], a, cs, d)
  ELSE LET tg == Tgt(a.lhs[1], 0)
           us == Uses(a.rhs[1])
           miss == {u \in us : ~CanUse(st.has, st.val, u)}
           f == F(tg.ok, "G02", "an assignment does not define a variable") \cup F(miss = {}, "G02", "a variable is used before it is defined")
           v == IF miss = {} THEN Eval(a.rhs[1], VM(st.val, cs)) ELSE Ill
       IN  TLCEval(StoreAll([st EXCEPT !.f = st.f \cup f], tg.s, v, 1))
RECURSIVE Exec(_, _, _, _, _)
Exec(st, ls, i, cs, d) == IF i > Len(ls) THEN st ELSE Exec(TLCEval(Exec1(st, ls[i], cs, d)), ls, i + 1, cs, d)

\* ------------------------------------------------------------ judging a list
\* unknown components: of ordinary variables that are no states, and of the derivatives of states
Unknowns(d, es) == UNION {{<<n, i>> : i \in Whole(d[n].shape)} : n \in {n \in DOMAIN d : d[n].kind \notin {2, 4, 8, 1024} /\ n \notin StateMay(es)}}
                   \cup UNION {{<<Prev(n), i>> : i \in Whole(d[n].shape)} : n \in StateMay(es)}
KeyKind(d, es, k) ==   \* category of a defined key, as bits
  IF k \in DOMAIN d THEN d[k].kind + (IF k \in StateDef(es) THEN 16 ELSE 0) ELSE 1 + 32
\* in a coupled system everything that is not given is determined
Named(es) == \A i \in 1..Len(es) : es[i].has
Determinable(d, es) == IF Named(es) THEN DefComps(es) ELSE Unknowns(d, es)
Wanted(d, es, inc) == {w \in Determinable(d, es) : Meets(KeyKind(d, es, w[1]), inc) /\ ~Meets(KeyKind(d, es, w[1]), 6)}
AUses(a) == IF a.imp \/ Len(a.lhs) # 1 THEN UNION {Uses(a.lhs[i]) \cup Uses(a.rhs[i]) : i \in 1..Len(a.rhs)} ELSE Uses(a.rhs[1])
ADefs(a) == IF a.imp \/ Len(a.lhs) # 1 THEN AUses(a) ELSE LET tg == Tgt(a.lhs[1], 0) IN {<<tg.s[j].k, tg.s[j].p>> : j \in 1..Len(tg.s)}
\* the assignments nothing wanted needs, going backwards
RECURSIVE Unneeded(_, _, _, _)
Unneeded(ls, i, need, acc) ==
  IF i = 0 THEN acc
  ELSE IF \E u \in ADefs(ls[i]), w \in need : Overlap(u, w) THEN Unneeded(ls, i - 1, need \cup AUses(ls[i]), acc)
  ELSE Unneeded(ls, i - 1, need, acc \cup {i})
\* a helper variable the optimisation introduced into the equations of parameters
OfParameters(d, a) == (\A i \in 1..Len(a.lhs) : \A k \in Keys(a.lhs[i]) : k \notin DOMAIN d) /\ \A u \in AUses(a) : u[1] \in DOMAIN d /\ d[u[1]].kind \in {2, 4}
\* parameters and constants are given data of a list
Start(sol, d, es) == LET g == {k \in DOMAIN sol.val : k = "time" \/ k \in GivenNames(d, es) \/ (k \in DOMAIN d /\ d[k].kind \in {2, 4})}
                     IN  [val |-> [k \in g |-> sol.val[k]], has |-> [k \in g |-> sol.has[k]], f |-> {}]
ValProp(mode) == IF mode \in {"V0", "V1"} THEN "G03" ELSE "G05"
\* least: what is determined after simplifying the equations entered
ListFails(cs, d, es, sol, least, fin, li) ==
  LET wanted == Wanted(d, es, li.inc)
      expl == Explicit(es)
  IN  IF li.res = "err" THEN F(~(expl /\ sol.left = {}), IF fin.mode \in {"V0", "V1"} THEN "G02" ELSE "G05", "no assignments for a well-formed system")
      ELSE IF expl /\ fin.mode = "V0" /\ ~(wanted \subseteq least) THEN {Failure("G02", "a needed variable is not determined by the equations, but this is not reported")}
      ELSE LET st == Exec(Start(IF sol.left = {} THEN sol ELSE Solved([val |-> sol.val, has |-> sol.has, f |-> {}], cs, [i \in 1..Len(es) |-> [es[i] EXCEPT !.r = es[i].sm]], sol.left), d, es), li.list, 1, cs, d)
               bad == {k \in DOMAIN st.val \cap DOMAIN sol.val : \E i \in st.has[k] : SCmp(sol.val[k].d[i], st.val[k].d[i]) = "ne"}
           IN  st.f
               \cup F(\A u \in wanted : u[1] \in DOMAIN st.has /\ u[2] \in st.has[u[1]], IF fin.mode \in {"V0", "V1"} THEN "G02" ELSE "G05", "a wanted quantity is missing")
               \cup F({i \in Unneeded(li.list, Len(li.list), wanted, {}) : fin.mode \in {"V0", "S0"} \/ ~OfParameters(d, li.list[i])} = {}, "G02", "an assignment is not needed")
               \cup F(~expl \/ bad = {}, ValProp(fin.mode), "a variable gets another value than the equations determine")
               \cup (IF expl THEN {} ELSE
                     LET ready == {i \in 1..Len(es) : \A u \in Uses(es[i].r) \cup (IF es[i].has /\ ~es[i].imp THEN Uses(es[i].l) ELSE {}) : CanUse(st.has, st.val, u)}
                         res(i) == IF es[i].has /\ ~es[i].imp THEN VSub(Eval(es[i].l, VM(st.val, cs)), Broad(Eval(es[i].r, VM(st.val, cs)), es[i].l.s)) ELSE Eval(es[i].r, VM(st.val, cs))
                     IN  F(\A i \in ready : LET r == res(i) IN IsIll(r) \/ \A j \in 1..Len(r.d) : SCmp(r.d[j], Zer(0)) # "ne", "G04", "an equation entered is not satisfied"))

\* ------------------------------------------------------------ solution structure of a coupled system
NumEqs(d, es) == FoldLeft(LAMBDA x, y : x + y, 0, [i \in 1..Len(es) |-> IF \E k \in es[i].keys : k \in DOMAIN d /\ d[k].kind \in {2, 4} THEN 0 ELSE SizeOf(IF es[i].has THEN es[i].l.s ELSE es[i].r.s)])
\* whether every equation can be given an unknown of its own (scalar systems only)
EqUses(d, es, i) == {u[1] : u \in CompsOf(Uses(es[i].r) \cup (IF es[i].has THEN Uses(es[i].l) ELSE {}), [val |-> <<>>], d)} \cap {u[1] : u \in Unknowns(d, es)}
RECURSIVE Matchable(_, _, _, _)
Matchable(d, es, i, used) ==
  IF i > Len(es) THEN TRUE
  ELSE IF \E k \in es[i].keys : k \in DOMAIN d /\ d[k].kind \in {2, 4} THEN Matchable(d, es, i + 1, used)
  ELSE \E k \in EqUses(d, es, i) \ used : Matchable(d, es, i + 1, used \cup {k})
AllScalar(d) == \A n \in DOMAIN d : d[n].shape[1] = 0
\* an equation without unknowns: whether it counts is left open, as is whether equations that all name
\* a variable but depend on each other are solved or refused
Degenerate(d, es) == \E i \in 1..Len(es) : Keys(es[i].sm) \cap {u[1] : u \in Unknowns(d, es)} = {} /\ (~es[i].has \/ es[i].imp)
FinalFails(cs, d, es, fin) ==
  LET expl == Explicit(es)
      given == TLCEval(Given(cs, d, es))
      sol == TLCEval(Solved(GivenSt(given), cs, es, {i \in 1..Len(es) : es[i].has /\ ~es[i].imp}))
      vm == FreeM(cs, d)
      least == IF sol.left = {} THEN UNION {{<<k, i>> : i \in sol.has[k]} : k \in DOMAIN sol.has} ELSE DetComps(UNION {{<<k, i>> : i \in Whole(given[k].sh)} : k \in DOMAIN given}, d, es)
  IN  IF ~Sane(d, es) THEN {}
      ELSE IF fin.res = "err" THEN
        IF expl THEN F(sol.left # {} \/ (\E n \in StateMay(es) : n \notin StateDef(es)) \/ (\E n \in DOMAIN d : n \notin Complete(sol)), IF fin.mode \in {"V0", "V1"} THEN "G02" ELSE "G05", "a well-formed system is refused")
        ELSE F(Degenerate(d, es) \/ Named(es) \/ ~(AllScalar(d) /\ Cardinality(Unknowns(d, es)) = NumEqs(d, es) /\ Matchable(d, es, 1, {})), "G04", "a solvable system is refused")
      ELSE IF ~Named(es) /\ ~Degenerate(d, es) /\ Cardinality(Unknowns(d, es)) # NumEqs(d, es)
           THEN {Failure("G04", "as many equations as unknowns are needed, but this is not reported")}
      ELSE IF ~Named(es) /\ ~Degenerate(d, es) /\ AllScalar(d) /\ StateMay(es) = {} /\ ~Matchable(d, es, 1, {})
           THEN {Failure("G04", "a structurally singular system is not refused")}
      ELSE UNION {ListFails(cs, d, es, sol, least, fin, fin.lists[i]) : i \in 1..Len(fin.lists)}
           \cup (IF "obs" \in DOMAIN fin /\ expl THEN ObsFails(fin.obs, d, es, vm, TRUE) ELSE {})

\* ------------------------------------------------------------ the behaviour
Expect(d, es, s) == IF s.op = "var" THEN IF VarOK(d, s) THEN "yes" ELSE "no" ELSE EqOK(d, es, s)
AfterVar(d, s) == Ext(d, s.name, s)
BackFails(cs, d, s) ==
  IF "back" \notin DOMAIN s THEN {}
  ELSE LET m == FreeM(cs, d) IN
       F(s.back.t # "none" /\ ValCmp(Broad(Eval(Pairs(s)[1].r, m), s.lhs[1].s), Eval(s.back, m)) # "ne", "G01", "an accepted equation is reported differently")
StepFails(cs, d, es, s, d2, es2) ==
  LET want == Expect(d, es, s) IN
  F(want = "free" \/ (want = "yes") = (s.res = "ok"), "G01", (IF s.op = "var" THEN "declaration " ELSE "equation ") \o (IF s.res = "ok" THEN "accepted although malformed" ELSE "refused although well-formed"))
  \cup F(s.res = "ok" \/ "changed" \notin DOMAIN s \/ ~s.changed, "G01", "a refused addition changed the system")
  \cup (IF "obs" \in DOMAIN s /\ s.res = "ok" THEN ObsFails(s.obs, d2, es2, FreeM(cs, d2), FALSE) ELSE {})
  \cup (IF s.res = "ok" THEN BackFails(cs, d2, s) ELSE {})

Init == c \in 1..Len(Cases) /\ l = 1 /\ decl = <<>> /\ eqs = <<>>
Report(cs, what, f) == IF f = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([case |-> cs.id, step |-> l, op |-> what, fails |-> SetToSeq(f)]))
Add ==
  /\ l <= Len(Cases[c].steps)
  /\ l' = l + 1 /\ c' = c
  /\ LET cs == Cases[c] s == cs.steps[l]
         ok == s.res = "ok"
         d2 == TLCEval(IF ok /\ s.op = "var" THEN AfterVar(decl, s) ELSE decl)
         e2 == TLCEval(IF ok /\ s.op = "eq" THEN eqs \o NewEqs(s) ELSE eqs)
         f == TLCEval(StepFails(cs, decl, eqs, s, d2, e2))
     IN  /\ Report(cs, s.op, f)
         /\ decl' = d2 /\ eqs' = e2
Produce ==
  /\ l > Len(Cases[c].steps) /\ l <= Len(Cases[c].steps) + Len(Cases[c].finals)
  /\ l' = l + 1 /\ c' = c
  /\ LET cs == Cases[c] fin == cs.finals[l - Len(cs.steps)] IN Report(cs, "produce " \o fin.mode, TLCEval(FinalFails(cs, decl, eqs, fin)))
  /\ UNCHANGED <<decl, eqs>>
Next == Add \/ Produce
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").generated = FoldLeft(LAMBDA a, b : a + b, 0, [i \in 1..Len(Cases) |-> Len(Cases[i].steps) + Len(Cases[i].finals) + 1])
=============================================================================
