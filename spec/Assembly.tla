------------------------------ MODULE Assembly ------------------------------
(***************************************************************************)
(* Assembling a model.                                                      *)
(*                                                                          *)
(* State: what the model contains (names by category, symbols, frames), the *)
(* tree of bodies, and the coordinates contributed by the joints so far.   *)
(* Actions: the calls of the user; every one is either accepted, which adds *)
(* exactly the elements asked for, or refused, which changes nothing.       *)
(*                                                                          *)
(* Some calls have to be refused (a name or symbol in use, a joint that     *)
(* would close a cycle, ...), the good ones with fresh names have to be     *)
(* accepted; whether a name may be shared by elements of different kinds is *)
(* left open.  Accepted additions have to keep the invariants: the bodies   *)
(* form a tree rooted in the world, names are unique within a kind.         *)
(*                                                                          *)
(* Trace specification: Cases are recorded histories of the real code.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC, Json, IOUtils

Cases == TLCEval(ndJsonDeserialize(IOEnv.CASES))

VARIABLES c,    \* the recorded history
          l,    \* position in it
          st    \* the model
vars == <<c, l, st>>

DofNames == {"Tx", "Ty", "Tz", "Rx", "Ry", "Rz"}
Kinds == {"bodies", "joints", "loads", "sensors", "loops", "cons", "shapes"}
Parts == Kinds \cup {"syms", "frames", "ends"}
KindOf(op) == CASE op = "body" -> "bodies" [] op = "joint" -> "joints" [] op \in {"load", "jload"} -> "loads" [] op \in {"sensor", "jsensor"} -> "sensors"
                [] op = "loop" -> "loops" [] op = "con" -> "cons" [] OTHER -> "shapes"
SymOps == {"input", "param", "vparam", "expr"}

F(ok, w) == IF ok THEN {} ELSE {[prop |-> "M01", what |-> w]}
Mem(s) == [k \in Parts |-> ToSet(s[k])]
\* base: names of joints with several degrees of freedom, par: the joint's bodies, co: what the joints contribute
Start(cs) == [mem |-> Mem(cs.first), base |-> {}, par |-> <<>>, co |-> {}, open |-> FALSE]

\* ---------------------------------------------------------------- the tree of bodies
RECURSIVE Above(_, _, _)
Above(par, b, n) == IF n = 0 \/ b \notin DOMAIN par THEN {b} ELSE {b} \cup Above(par, par[b], n - 1)
Ancestors(m, b) == Above(m.par, b, Cardinality(DOMAIN m.par) + 1)
TypeOK == /\ "world" \notin DOMAIN st.par
          /\ \A b \in DOMAIN st.par : "world" \in Ancestors(st, b) \/ \E x \in Ancestors(st, b) : x \notin DOMAIN st.par

\* ---------------------------------------------------------------- enabling conditions
InUse(m) == UNION {m.mem[k] : k \in Kinds} \cup m.mem.syms \cup m.base \cup {"gravity", "world"}
Derived(n) == {n} \cup {n \o "_" \o d : d \in DofNames} \cup {"r_" \o n, "T_" \o n, n \o "_load"}
Fresh(m, n) == LET u == InUse(m) IN \A x \in Derived(n) : x \notin u /\ \A y \in m.mem.joints \cup m.base, d \in DofNames : x # y \o "_" \o d
\* the symbol names a call introduces by itself
NewSyms(s) == IF s.op \in {"input", "param", "expr", "sensor", "jsensor"} THEN {s.sym} ELSE IF s.op = "vparam" THEN ToSet(s.parts) ELSE {}
BadTopology(m, s) == s.b1 = s.b2 \/ s.b2 = "world" \/ s.b2 \in DOMAIN m.par \/ s.b2 \in Ancestors(m, s.b1)
MustRefuse(m, s) ==
  \/ s.bad \/ ~s.ident
  \/ (~s.auto /\ s.op \notin SymOps \cup {"frame"} /\ (IF s.op = "joint" /\ Len(s.dofs) > 1 THEN \E d \in ToSet(s.dofs) : s.name \o "_" \o d \in m.mem.joints ELSE s.name \in m.mem[KindOf(s.op)]))
  \/ NewSyms(s) \cap m.mem.syms # {}
  \/ (s.op = "joint" /\ BadTopology(m, s))
  \/ (s.op \in {"jload", "jsensor"} /\ s.busy)
  \/ (s.op = "frame" /\ s.taken)
MayRefuse(m, s) ==
  \/ MustRefuse(m, s)
  \/ (~s.auto /\ s.op # "frame" /\ ~Fresh(m, s.name))
  \/ (s.op \in SymOps \cup {"sensor", "jsensor"} /\ ~Fresh(m, s.sym))
  \/ (s.op = "joint" /\ Cardinality(ToSet(s.dofs)) # Len(s.dofs))
  \/ (s.op \in {"jload", "jsensor"} /\ s.fixed)

\* ---------------------------------------------------------------- effects
One(a, b, s) == b \subseteq a /\ (IF s.auto THEN Cardinality(a \ b) = 1 ELSE a = b \cup {s.name} /\ s.name \notin b)
Same(a, b, ks) == \A k \in ks : a[k] = b[k]
\* a: what the model contains after the call, b: before
Effect(m, s, a) ==
  LET b == m.mem  IN
  CASE s.op = "body"  -> Same(a, b, Parts \ {"bodies"}) /\ One(a.bodies, b.bodies, s)
    [] s.op = "frame" -> Same(a, b, Parts \ {"frames"}) /\ a.frames = b.frames \cup {s.on \o "/" \o s.name}
    [] s.op = "joint" ->
         LET k == IF Len(s.dofs) = 0 THEN 1 ELSE Len(s.dofs)  dummy == a.bodies \ b.bodies  new == ToSet(s.new) IN
         /\ Same(a, b, Parts \ {"bodies", "joints", "ends"})
         /\ b.bodies \subseteq a.bodies /\ Cardinality(dummy) = k - 1
         /\ a.ends = b.ends \cup {s.b2} \cup dummy
         /\ Len(s.new) = k /\ Cardinality(new) = k /\ new \cap b.joints = {} /\ a.joints = b.joints \cup new
         /\ (s.auto \/ Cardinality(ToSet(s.dofs)) < k \/ new = (IF k = 1 THEN {s.name} ELSE {s.name \o "_" \o d : d \in ToSet(s.dofs)}))
    [] s.op \in SymOps -> Same(a, b, Parts \ {"syms"}) /\ a.syms = b.syms \cup NewSyms(s)
    [] s.op \in {"load", "jload"} ->
         /\ Same(a, b, Parts \ {"loads", "syms"}) /\ One(a.loads, b.loads, s)
         /\ a.syms = b.syms \cup (IF s.lst THEN {n \o "_load" : n \in a.loads \ b.loads} ELSE {})
    [] s.op \in {"sensor", "jsensor"} ->
         /\ Same(a, b, Parts \ {"sensors", "syms"}) /\ One(a.sensors, b.sensors, s) /\ a.syms = b.syms \cup NewSyms(s)
    [] s.op = "shape" ->
         LET n == a.shapes \ b.shapes  own == {"r_" \o x : x \in n} \cup {"T_" \o x : x \in n} IN
         /\ Same(a, b, Parts \ {"sensors", "syms", "shapes"}) /\ One(a.shapes, b.shapes, s)
         /\ own \cap (b.sensors \cup b.syms) = {} /\ a.sensors = b.sensors \cup own /\ a.syms = b.syms \cup own
    [] OTHER -> LET k == KindOf(s.op) IN Same(a, b, Parts \ {k}) /\ One(a[k], b[k], s)

StepFails(m, s) ==
  LET a == Mem(s.mem) ok == s.res = "ok" IN
  F(s.same, s.op \o ": an argument of the caller was changed")
  \cup F(~ok \/ ~MustRefuse(m, s), s.op \o ": a call which has to be refused is accepted")
  \cup F(ok \/ MayRefuse(m, s), s.op \o ": a valid addition is refused")
  \cup F(ok \/ a = m.mem, s.op \o ": a refused call changed the model")
  \cup (IF ok /\ ~MustRefuse(m, s) THEN F(s.found, s.op \o ": the element is not found under its name") \cup F(Effect(m, s, a), s.op \o ": what was added is not what was asked for") ELSE {})

\* the model as it is after the call (observed; failures were reported)
After(m, s, i) ==
  LET a == Mem(s.mem) ok == s.res = "ok" IN
  [mem  |-> a,
   base |-> IF ok /\ s.op = "joint" /\ ~s.auto THEN m.base \cup {s.name} ELSE m.base,
   par  |-> IF ok /\ s.op = "joint" /\ ~BadTopology(m, s) THEN [x \in DOMAIN m.par \cup {s.b2} |-> IF x = s.b2 THEN s.b1 ELSE m.par[x]] ELSE m.par,
   co   |-> IF ok /\ s.op = "joint" THEN m.co \cup {[s |-> i, k |-> k, q0 |-> s.q0[k], qd0 |-> s.qd0[k]] : k \in 1..Len(s.dofs)} ELSE m.co,
   \* nothing is said about equations of a model whose assembly went wrong, with names used twice, or that measures or drives joints without a coordinate
   open |-> m.open \/ (ok /\ ~s.auto /\ s.op # "frame" /\ ~Fresh(m, s.name)) \/ (ok /\ s.op \in SymOps \cup {"sensor", "jsensor"} /\ ~Fresh(m, s.sym))
                   \/ (ok /\ s.op \in {"jload", "jsensor"} /\ s.fixed) \/ StepFails(m, s) # {}]

\* ---------------------------------------------------------------- coordinates
GenFails(m, s) ==
  IF m.open \/ m.mem.ends # m.mem.bodies THEN {}
  ELSE IF s.res # "ok" THEN F(FALSE, "gen: no equations for a complete model")
  ELSE
  LET names == {x.n : x \in ToSet(s.coords)} dep == ToSet(s.dep)
      Of(n) == CHOOSE x \in ToSet(s.coords) : x.n = n
      Joint(x) == CHOOSE y \in m.co : y.s = x.s /\ y.k = x.k
  IN F(Cardinality(names) = Cardinality(m.co) /\ {<<x.s, x.k>> : x \in ToSet(s.coords)} = {<<x.s, x.k>> : x \in m.co}, "gen: the joints do not have one coordinate of their own for each degree of freedom")
     \cup F(Len(s.order) = Cardinality(ToSet(s.order)) /\ ToSet(s.order) = names \ dep, "gen: the state does not contain each independent coordinate once")
     \cup F(Len(s.q0) = Len(s.order) /\ Len(s.qd0) = Len(s.order)
            /\ \A i \in 1..Len(s.order) : s.order[i] \in names => LET x == Of(s.order[i]) IN
                 (\E y \in m.co : y.s = x.s /\ y.k = x.k) => s.q0[i] = Joint(x).q0 /\ s.qd0[i] = Joint(x).qd0, "gen: an initial value is not the one given with the joint")

\* ---------------------------------------------------------------- behaviour
Init == c \in 1..Len(Cases) /\ l = 1 /\ st = Start(Cases[c])
Report(cs, what, f) == IF f = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([case |-> cs.id, step |-> l, op |-> what, fails |-> SetToSeq(f)]))
Next ==
  /\ l <= Len(Cases[c].steps)
  /\ l' = l + 1 /\ c' = c
  /\ LET s == Cases[c].steps[l] IN
     /\ Report(Cases[c], s.op, TLCEval(IF s.op = "gen" THEN GenFails(st, s) ELSE StepFails(st, s)))
     /\ st' = TLCEval(IF s.op = "gen" THEN st ELSE After(st, s, l))
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").generated = FoldLeft(LAMBDA a, b : a + b, 0, [i \in 1..Len(Cases) |-> Len(Cases[i].steps) + 1])
=============================================================================
