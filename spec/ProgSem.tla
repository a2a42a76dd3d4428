------------------------------ MODULE ProgSem -------------------------------
(***************************************************************************)
(* Generated programs.                                                      *)
(*                                                                          *)
(* State and additions are those of EqGraph: a model is declared, its      *)
(* equations are added.  Then the program written for it is executed: for  *)
(* one assignment of the inputs (their initial values, or others), its     *)
(* functions are called.                                                    *)
(*                                                                          *)
(* A call of the derivative function returns the derivatives of the        *)
(* states in the documented order (cs.order: by shape, then by name); the  *)
(* sensor and the graphics function return every sensor and every graphics *)
(* quantity.  The values are those the equations determine.                *)
(***************************************************************************)
EXTENDS LangProg

Prop(cs) == CASE cs.lang = "py" -> "W01" [] cs.lang \in {"c", "sf"} -> "W02" [] cs.lang = "f90" -> "W03" [] cs.lang = "m" -> "W04" [] cs.lang \in {"cw", "fw"} -> "W06" [] OTHER -> "W05"
PGiven(cs, d, es, inp) == LET g == Given(cs, d, es) IN [n \in DOMAIN g |-> IF inp = "init" /\ n \in DOMAIN d /\ d[n].kind = 8 THEN InitVal(d, n, VM(g, cs)) ELSE g[n]]
PSolved(cs, d, es, inp) == TLCEval(Solved(GivenSt(PGiven(cs, d, es, inp)), cs, es, 1..Len(es)))

\* an observed component: <<1, high, low>> or not a number
Agrees(want, o) == IF o[1] = 1 THEN SCmp(want, SLitX(<<o[2], o[3]>>, 0)) # "ne" ELSE ~SReliable(want)
AllAgree(want, os) == Len(want) = Len(os) /\ \A i \in 1..Len(os) : Agrees(want[i], os[i])
Flat(vs) == FoldLeft(LAMBDA x, y : x \o y, <<>>, vs)
OutFails(p, sol, names, out, what) ==
  F(ToSet(names) \subseteq {out[i].n : i \in 1..Len(out)}, p, "not every " \o what \o " is returned")
  \cup F(\A i, j \in 1..Len(out) : i # j => out[i].n # out[j].n, p, "a " \o what \o " is returned twice")
  \cup UNION {LET o == out[i] IN
              IF o.n \notin ToSet(names) THEN {Failure(p, "something else is returned as " \o what)}
              ELSE IF Len(sol.val[o.n].d) # Len(o.d) THEN {Failure(p, "a " \o what \o " has another size")}
              ELSE F(AllAgree(sol.val[o.n].d, o.d), p, "a " \o what \o " has another value") : i \in 1..Len(out)}
RunFails(cs, sol, r) ==
  LET p == Prop(cs) IN
  CASE r.fn = "der" -> LET want == Flat([i \in 1..Len(cs.order) |-> sol.val[Prev(cs.order[i])].d]) IN
                       IF Len(want) # Len(r.d) THEN {Failure(p, "the derivative of the state has another size")}
                       ELSE F(AllAgree(want, r.d), p, "the derivative of the state has another value")
    [] r.fn \in {"sensors", "ctrl"} -> OutFails(p, sol, cs.sensors, r.out, IF r.fn = "ctrl" THEN "sensor (passed to a controller)" ELSE "sensor")
    [] r.fn = "visual" -> OutFails(p, sol, cs.visual, r.out, "graphics quantity")
    [] OTHER -> {Failure(p, "unknown run")}
\* some quantity has no (reliable) value
Partial_(sol) == \E k \in DOMAIN sol.val : \E i \in 1..Len(sol.val[k].d) : ~SReliable(sol.val[k].d[i])
Inps == <<"init", "env">>
HasFn(cs, f) == \E i \in 1..Len(cs.runs) : cs.runs[i].fn = f
ExecFails(cs, d, es, inp) ==
  LET p == Prop(cs) IN
  IF "died" \in DOMAIN cs THEN F(inp # "init", p, "the process died")
  ELSE IF cs.res = "refused" THEN {}
  ELSE IF ~Sane(d, es) THEN {}
  ELSE LET sol == PSolved(cs, d, es, inp) IN
       IF sol.left # {} THEN {}
       ELSE IF cs.res = "domain" THEN F(inp # "init" \/ Partial_(sol) \/ Partial_(PSolved(cs, d, es, "env")), p, "execution fails though all values are defined")
       ELSE IF cs.res # "ok" THEN F(inp # "init", p, "no usable program")
       ELSE IF "prog" \in DOMAIN cs THEN LangFails(cs, p, d, sol, inp)
       ELSE UNION {RunFails(cs, sol, cs.runs[i]) : i \in {i \in 1..Len(cs.runs) : cs.runs[i].inp = inp}}
            \cup F(inp # "init" \/ (HasFn(cs, "der") /\ (cs.sensors = <<>> \/ HasFn(cs, "sensors")) /\ (cs.visual = <<>> \/ HasFn(cs, "visual"))), p, "a function is missing")
Execute ==
  /\ l > Len(Cases[c].steps) /\ l <= Len(Cases[c].steps) + Len(Inps)
  /\ l' = l + 1 /\ c' = c
  /\ LET cs == Cases[c] inp == Inps[l - Len(cs.steps)] IN Report(cs, "execute (" \o inp \o ")", TLCEval(ExecFails(cs, decl, eqs, inp)))
  /\ UNCHANGED <<decl, eqs>>
PNext == Add \/ Execute
PSpec == Init /\ [][PNext]_vars
PConsumed == TLCGet("stats").generated = FoldLeft(LAMBDA a, b : a + b, 0, [i \in 1..Len(Cases) |-> Len(Cases[i].steps) + Len(Inps) + 1])
=============================================================================
