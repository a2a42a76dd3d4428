------------------------------ MODULE LangProg ------------------------------
(***************************************************************************)
(* Execution of generated Matlab programs and meaning of generated         *)
(* Modelica models, given as syntax trees (tools/langparse.py).            *)
(*                                                                          *)
(* Matlab: a function runs in a workspace of its own; its statements        *)
(* assign variables, elements (arrays grow, new elements are 0) and        *)
(* members of structures.  prog.fns: the files; the functions of the       *)
(* program are called $der_state, $inputs, $sensors.                       *)
(*                                                                          *)
(* Modelica: declarations and equations.  A model is right if every        *)
(* declared unknown is determined exactly once, and by what is determined  *)
(* the values are those of the entered equations.                          *)
(***************************************************************************)
EXTENDS EqGraph, LangSem

\* -------------------------------------------------------------------- Matlab
\* workspace: v: name -> value, f: structure -> set of members, bad: set of messages, other: names with a value not modelled
EmptyWs == [v |-> <<>>, f |-> <<>>, bad |-> {}, other |-> {}]
MFile(cs, n) == IF \E i \in 1..Len(cs.prog.fns) : cs.prog.fns[i].file = n THEN cs.prog.fns[CHOOSE i \in 1..Len(cs.prog.fns) : cs.prog.fns[i].file = n] ELSE [name |-> "", out |-> "", par |-> <<>>, body |-> <<>>, file |-> ""]
Grow(old, i, j, x) ==
  LET r == IF i > old.sh[2] THEN i ELSE old.sh[2]
      s == IF j > old.sh[3] THEN j ELSE old.sh[3]
  IN  MkVal(<<2, r, s>>, LAMBDA a, b : IF a = i /\ b = j THEN x ELSE IF a <= old.sh[2] /\ b <= old.sh[3] THEN At(old, a, b) ELSE Zer(0))
Put(w, n, v) == [w EXCEPT !.v = Ext(w.v, n, v)]
RECURSIVE MRun(_, _, _, _)
MExec(cs, w, s) ==
  IF s.k = "cmd" \/ s.k = "expr" \/ s.k = "for" \/ Len(s.to) # 1 THEN [w EXCEPT !.bad = w.bad \cup {"a statement is not an assignment"}]
  ELSE IF s.e.k = "call" /\ s.e.n = "$inputs" /\ s.e.a = <<>> THEN
       LET fn == MFile(cs, "inputs")
           r == MRun(cs, EmptyWs, fn.body, 1)
           fs == IF fn.out \in DOMAIN r.f THEN r.f[fn.out] ELSE {}
           t == s.to[1]
       IN  IF fn.name # "inputs" \/ fn.par # <<>> \/ t.k # "var" THEN [w EXCEPT !.bad = w.bad \cup {"the function of the inputs is not usable"}]
           ELSE [w EXCEPT !.bad = w.bad \cup r.bad, !.f = Ext(w.f, t.n, fs),
                          !.v = [k \in DOMAIN w.v \cup {t.n \o "." \o f : f \in fs} |-> IF \E f \in fs : k = t.n \o "." \o f THEN r.v[fn.out \o "." \o (CHOOSE f \in fs : k = t.n \o "." \o f)] ELSE w.v[k]]]
  ELSE IF s.e.k = "cat" /\ s.e.rows = <<>> THEN w
  ELSE LET t == s.to[1]
           v == MEval(s.e, w.v, 0)
       IN  IF IsIll(v) THEN [w EXCEPT !.bad = w.bad \cup {"a statement fails"}]
           ELSE CASE t.k = "var" -> Put(w, t.n, v)
                  [] t.k = "mem" -> [Put(w, t.s \o "." \o t.n, v) EXCEPT !.f = Ext(w.f, t.s, (IF t.s \in DOMAIN w.f THEN w.f[t.s] ELSE {}) \cup {t.n})]
                  [] OTHER -> LET a == Map(Len(t.a), LAMBDA i : MArg(t.a[i], w.v, 0))
                                  old == IF t.n \in DOMAIN w.v THEN TwoD(w.v[t.n]) ELSE [sh |-> <<2, 0, 0>>, d |-> <<>>]
                              IN  IF \E i \in 1..Len(a) : a[i].k # "int" \/ a[i].i < 1 THEN [w EXCEPT !.bad = w.bad \cup {"an element cannot be assigned"}]
                                  ELSE IF Len(a) \notin 1..2 \/ ~Sc(v) THEN [w EXCEPT !.bad = w.bad \cup {"an element cannot be assigned"}]
                                  ELSE Put(w, t.n, TLCEval(Grow(old, a[1].i, IF Len(a) = 2 THEN a[2].i ELSE 1, v.d[1])))
MRun(cs, w, body, i) == IF i > Len(body) THEN w ELSE MRun(cs, TLCEval(MExec(cs, w, body[i])), body, i + 1)
\* a script: statements that are not modelled make what they assign unknown
RECURSIVE MScript(_, _, _, _)
MScript(cs, w, body, i) ==
  IF i > Len(body) THEN w
  ELSE LET s == body[i]
           odes == s.k = "set" /\ s.e.k = "call" /\ Len(s.e.a) >= 3 /\ s.e.a[1].k = "fh" /\ s.e.a[1].n = "$der_state"
           r == IF s.k = "set" /\ ~odes THEN MExec(cs, w, s) ELSE w
       IN  IF odes THEN MScript(cs, Put(w, "$start", MEval(s.e.a[3], w.v, 0)), body, i + 1)
           ELSE MScript(cs, IF s.k = "set" /\ r.bad = w.bad THEN r ELSE [w EXCEPT !.v = [n \in DOMAIN w.v \ (IF s.k = "set" THEN {s.to[j].n : j \in 1..Len(s.to)} ELSE {}) |-> w.v[n]]], body, i + 1)

SameVals(want, v) == ~IsIll(v) /\ Len(want) = Len(v.d) /\ \A i \in 1..Len(want) : SCmp(want[i], v.d[i]) # "ne"
Joined(vs) == FoldLeft(LAMBDA x, y : x \o y, <<>>, vs)
MatlabFails(cs, p, d, sol) ==
  LET Y(f(_)) == Joined([i \in 1..Len(cs.order) |-> f(cs.order[i])])
      y == Y(LAMBDA n : sol.val[n].d)
      start == [EmptyWs EXCEPT !.v = [n \in {"time", "y"} |-> IF n = "time" THEN TwoD(sol.val["time"]) ELSE [sh |-> <<2, Len(y), 1>>, d |-> y]]]
      call(fn) == MRun(cs, start, fn.body, 1)
      fd == MFile(cs, "der_state") fs == MFile(cs, "sensors") sim == MFile(cs, "sim")
      rd == call(fd) rs == call(fs)
      rr == MScript(cs, EmptyWs, sim.body, 1)
      want == Y(LAMBDA n : sol.val[Prev(n)].d)
      have == IF fs.out \in DOMAIN rs.f THEN rs.f[fs.out] ELSE {}
  IN  F(fd.name = "der_state" /\ fd.par = <<"time", "y">>, p, "no derivative function")
      \cup {Failure(p, x) : x \in rd.bad}
      \cup (IF rd.bad # {} THEN {} ELSE
            F(fd.out \in DOMAIN rd.v /\ SameVals(want, rd.v[fd.out]) /\ rd.v[fd.out].sh[3] = 1, p, "the derivative of the state has another value"))
      \cup F("$start" \in DOMAIN rr.v /\ SameVals(Y(LAMBDA n : InitVal(d, n, VM(sol.val, cs)).d), rr.v["$start"]), p, "the simulation does not start at the initial state")
      \cup (IF cs.sensors = <<>> THEN {} ELSE
            F(fs.name = "sensors" /\ fs.par = <<"time", "y">>, p, "no sensor function")
            \cup {Failure(p, x) : x \in rs.bad}
            \cup (IF rs.bad # {} THEN {} ELSE
                  F(have = ToSet(cs.sensors), p, "other sensors are returned")
                  \cup UNION {LET n == cs.sensors[i] v == rs.v[fs.out \o "." \o n] IN
                              IF n \notin have THEN {} ELSE F(v.sh = TwoD(sol.val[n]).sh, p, "a sensor has another size") \cup F(SameVals(sol.val[n].d, v), p, "a sensor has another value") : i \in 1..Len(cs.sensors)}))

\* ------------------------------------------------------------------ Modelica
DShape(x) == IF x.dims = <<>> THEN <<0, 1, 1>> ELSE IF Len(x.dims) = 1 THEN <<1, x.dims[1], 1>> ELSE <<2, x.dims[1], x.dims[2]>>
ODer(n) == "der(" \o n \o ")"
\* a reference: key, name, component; ok = FALSE: no reference
ORef(t, sh) ==
  CASE t.k = "id" -> [ok |-> TRUE, k |-> t.n, n |-> t.n, p |-> 0]
    [] t.k = "call" /\ t.n = "der" /\ Len(t.a) = 1 /\ t.a[1].k = "id" -> [ok |-> TRUE, k |-> ODer(t.a[1].n), n |-> t.a[1].n, p |-> 0]
    [] t.k = "idx" /\ (t.a[1].k = "id" \/ (t.a[1].k = "call" /\ t.a[1].n = "der" /\ Len(t.a[1].a) = 1 /\ t.a[1].a[1].k = "id")) ->
         LET n == IF t.a[1].k = "id" THEN t.a[1].n ELSE t.a[1].a[1].n
             s == IF n \in DOMAIN sh THEN sh[n] ELSE <<0, 1, 1>>
             ix == [i \in 1..Len(t.a) - 1 |-> IndexOf(OEval(t.a[i + 1], <<>>, 0))]
             p == IF Len(ix) = 2 THEN IF ix[1] \in 1..s[2] /\ ix[2] \in 1..s[3] THEN (ix[1] - 1) * s[3] + ix[2] ELSE 0 ELSE IF Len(ix) = 1 /\ s[1] = 1 /\ ix[1] \in 1..s[2] THEN ix[1] ELSE 0
         IN  [ok |-> p > 0, k |-> IF t.a[1].k = "id" THEN n ELSE ODer(n), n |-> n, p |-> p]
    [] OTHER -> [ok |-> FALSE, k |-> "", n |-> "", p |-> 0]
RECURSIVE OUses(_, _)
OUses(t, sh) ==
  LET r == ORef(t, sh) IN
  IF r.ok THEN {<<r.k, r.p>>}
  ELSE IF "a" \in DOMAIN t THEN UNION {OUses(t.a[i], sh) : i \in 1..Len(t.a)} ELSE {}
RECURSIVE OLeaves(_)
OLeaves(t) == IF t.k = "arr" THEN Joined([i \in 1..Len(t.a) |-> OLeaves(t.a[i])]) ELSE <<t>>
\* what an equation with this left-hand side defines (<<>>: it is not a definition)
OTgt(t, sh) ==
  LET ls == OLeaves(t)
      rs == [i \in 1..Len(ls) |-> ORef(ls[i], sh)]
  IN  IF \E i \in 1..Len(rs) : ~rs[i].ok \/ rs[i].n \notin DOMAIN sh THEN <<>>
      ELSE IF t.k # "arr" THEN <<[k |-> rs[1].k, p |-> rs[1].p, i |-> 0, sh |-> sh[rs[1].n]]>>
      ELSE IF \E i \in 1..Len(rs) : rs[i].p = 0 /\ sh[rs[i].n][1] # 0 THEN <<>>
      ELSE [i \in 1..Len(rs) |-> [k |-> rs[i].k, p |-> rs[i].p, i |-> i, sh |-> sh[rs[i].n]]]
RECURSIVE OSolve(_, _, _, _)
OSolve(st, es, todo, sh) ==
  LET can == {i \in todo : es[i].tg # <<>> /\ \A u \in es[i].us : CanUse(st.has, st.val, u)} IN
  IF can = {} THEN [st EXCEPT !.f = [f |-> st.f, left |-> todo]]
  ELSE LET i == CHOOSE i \in can : \A j \in can : i <= j
       IN  OSolve(TLCEval(StoreAll(st, es[i].tg, TLCEval(OEval(es[i].r, st.val, 0)), 1)), es, todo \ {i}, sh)
Prefix(k) == CASE k = 2 -> "constant" [] k = 4 -> "parameter" [] k = 8 -> "input" [] k \in {256, 512} -> "output" [] OTHER -> ""
ModelicaFails(cs, p, d, sol) ==
  LET ds == cs.prog.decls
      D == {ds[i].n : i \in 1..Len(ds)}
      dof(n) == ds[CHOOSE i \in 1..Len(ds) : ds[i].n = n]
      sh == [n \in D \cup {"time"} |-> IF n = "time" THEN <<0, 1, 1>> ELSE DShape(dof(n))]
      states == ToSet(cs.order)
      \* declaration equations, then equations
      vals == SetToSeq({i \in 1..Len(ds) : "e" \in DOMAIN ds[i]})
      es == [i \in 1..Len(vals) + Len(cs.prog.eqs) |->
               LET e == IF i <= Len(vals) THEN [l |-> [k |-> "id", n |-> ds[vals[i]].n], r |-> ds[vals[i]].e] ELSE cs.prog.eqs[i - Len(vals)]
               IN  [l |-> e.l, r |-> e.r, tg |-> OTgt(e.l, sh), us |-> OUses(e.r, sh)]]
      given == {"time"} \cup {n \in D : n \in DOMAIN sol.val /\ (n \in states \/ dof(n).pre = "input")}
      fits(n) == n = "time" \/ SizeOf(sh[n]) = Len(sol.val[n].d)
      st0 == [val |-> [n \in given |-> [sh |-> sh[n], d |-> sol.val[n].d]], has |-> [n \in given |-> Whole(sh[n])], f |-> {}]
      unknown == (D \ given) \cup {ODer(n) : n \in states}
      size(k) == IF k \in D THEN SizeOf(sh[k]) ELSE SizeOf(sh[CHOOSE n \in states : ODer(n) = k])
      static(n) == dof(n).pre \in {"parameter", "constant"}
  IN  IF \E i, j \in 1..Len(ds) : i # j /\ ds[i].n = ds[j].n THEN {Failure(p, "a variable is declared twice")}
      ELSE IF ~(states \subseteq D /\ ToSet(cs.sensors) \subseteq D /\ ToSet(cs.visual) \subseteq D) THEN {Failure(p, "a state, sensor or graphics quantity is not declared")}
      ELSE IF \E n \in D \cap DOMAIN d : SizeOf(sh[n]) # SizeOf(d[n].shape) \/ sh[n][2] # d[n].shape[2] THEN {Failure(p, "a variable is declared with another size")}
      ELSE LET r == TLCEval(OSolve(st0, es, 1..Len(es), sh))
               env == r.val
               both(i) == [l |-> OEval(es[i].l, env, 0), r |-> OEval(es[i].r, env, 0)]
           IN  F(\A n \in D \cap DOMAIN d : dof(n).pre = Prefix(d[n].kind), p, "a variable is declared as something else")
               \cup F(\A n \in D : static(n) = ("e" \in DOMAIN dof(n)), p, "a parameter without value, or a value of a variable")
               \cup F(\A n \in D : static(n) /\ "e" \in DOMAIN dof(n) => \A u \in OUses(dof(n).e, sh) : u[1] \in D /\ dof(u[1]).pre \in {"constant", dof(n).pre}, p, "the value of a parameter is not constant")
               \cup {Failure(p, x.what) : x \in r.f.f}
               \cup F(r.f.left = {}, p, "an equation uses or defines something undefined")
               \cup F(\A k \in unknown : k \in DOMAIN r.has /\ r.has[k] = 1..size(k), p, "a variable is not determined")
               \cup (IF r.f.left # {} THEN {} ELSE
                     F(\A i \in 1..Len(es) : LET b == both(i) IN ~IsIll(b.l) /\ ~IsIll(b.r) /\ b.l.sh = b.r.sh, p, "an equation has no valid meaning"))
               \cup F(\A n \in D \cap DOMAIN sol.val : n \notin DOMAIN env \/ \A i \in 1..Len(env[n].d) : i \in r.has[n] => SCmp(sol.val[n].d[i], env[n].d[i]) # "ne", p, "a variable has another value")
               \cup F(\A n \in states : ODer(n) \notin DOMAIN env \/ SameVals(sol.val[Prev(n)].d, env[ODer(n)]), p, "the derivative of the state has another value")
               \cup UNION {LET ms == {i \in 1..Len(dof(n).mods) : dof(n).mods[i].n = "start"} IN
                     IF Cardinality(ms) # 1 THEN {Failure(p, "a state without start value")}
                     ELSE LET m == dof(n).mods[CHOOSE i \in ms : TRUE]
                              v == OEval(m.e, env, 0)
                              w == InitVal(d, n, VM(sol.val, cs)).d
                          IN  IF m.each THEN F(~IsIll(v) /\ IsScal(v) /\ \A i \in 1..Len(w) : SCmp(w[i], v.d[1]) # "ne", p, "the start value of a state")
                              ELSE F(~IsIll(v) /\ v.sh = sh[n] /\ SameVals(w, v), p, "the start value of a state") : n \in states}
LangFails(cs, p, d, sol, inp) ==
  IF cs.lang = "m" THEN IF inp = "init" THEN MatlabFails(cs, p, d, sol) ELSE {}
  ELSE IF inp = "env" THEN ModelicaFails(cs, p, d, sol) ELSE {}
=============================================================================
