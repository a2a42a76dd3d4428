--------------------------------- MODULE Mbs ---------------------------------
(***************************************************************************)
(* Multibody systems.                                                       *)
(*                                                                          *)
(* State: the model assembled so far (bodies, frames, joints, parameters,  *)
(* inputs, expressions, loads, sensors, ...), and the formulation chosen.  *)
(* Actions: the calls of the user: adding an element, generating the       *)
(* equations of motion, and evaluating the generated functions at a state. *)
(*                                                                          *)
(* Mechanics is written down independently of any formulation: positions   *)
(* and orientations are composed along the tree with coordinates that are  *)
(* power series in time (q + q' t + q'' t^2/2, q'' being what the generated *)
(* function returned), velocities and accelerations are coefficients of    *)
(* these series; displacing one coordinate gives the virtual displacements.*)
(* The equations of motion hold iff, for every coordinate, the virtual     *)
(* work of inertia, gravity and loads vanishes (d'Alembert, Lagrange).     *)
(*                                                                          *)
(* Trace specification: Cases are recorded runs of the real code.          *)
(***************************************************************************)
EXTENDS Sem, Json, IOUtils

Cases == TLCEval(ndJsonDeserialize(IOEnv.CASES))

VARIABLES c,     \* the recorded run
          l,     \* position in it
          mb     \* the model
vars == <<c, l, mb>>

Failure(p, w) == [prop |-> p, what |-> w]
F(ok, p, w) == IF ok THEN {} ELSE {Failure(p, w)}
Flat(vs) == FoldLeft(LAMBDA x, y : x \o y, <<>>, vs)
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Find(s, P(_)) == CHOOSE i \in 1..Len(s) : P(s[i])
Has(s, P(_)) == \E i \in 1..Len(s) : P(s[i])

\* ------------------------------------------------------------ vectors and rotations
\* vectors: 3 components, matrices: 9, row by row
MMul(a, b) == SMM(a, 3, 3, 3, b)
MVec(a, v) == SMM(a, 3, 3, 1, v)
Tr(a)      == <<a[1], a[4], a[7], a[2], a[5], a[8], a[3], a[6], a[9]>>
VPlus(u, v)  == <<SAdd(u[1], v[1]), SAdd(u[2], v[2]), SAdd(u[3], v[3])>>
VMinus(u, v) == <<SSub(u[1], v[1]), SSub(u[2], v[2]), SSub(u[3], v[3])>>
VScale(x, v) == <<SMul(x, v[1]), SMul(x, v[2]), SMul(x, v[3])>>
VDot(u, v)   == SAdd(SAdd(SMul(u[1], v[1]), SMul(u[2], v[2])), SMul(u[3], v[3]))
VD(v)        == Map(Len(v), LAMBDA i : SD(v[i]))
VAt(v, k)    == Map(Len(v), LAMBDA i : SAt(v[i], k))
Norm(v)      == SPow(VDot(v, v), SRat(1, 2, SOrder(v[1])))
Zero3(k)     == <<Zer(k), Zer(k), Zer(k)>>
Eye3(k)      == LET o == SInt(1, k) z == Zer(k) IN <<o, z, z, z, o, z, z, z, o>>
Axis(a)      == CASE a = "x" -> 1 [] a = "y" -> 2 [] OTHER -> 3
Unit(a, k)   == [i \in 1..3 |-> SInt(IF i = Axis(a) THEN 1 ELSE 0, k)]
\* rotation about an axis: takes components in the rotated frame to components in the original one
Rotation(a, x) ==
  LET s == SSin(x) co == SCos(x) o == SInt(1, SOrder(x)) z == Zer(SOrder(x)) n == SNeg(s) IN
  CASE a = "x" -> <<o, z, z, z, co, n, z, s, co>>
    [] a = "y" -> <<co, z, s, z, o, z, n, z, co>>
    [] OTHER   -> <<co, n, z, s, co, z, z, z, o>>
\* axial vector of the skew-symmetric matrix R' R^T
Spin(R) == LET o == TLCEval(MMul(VD(R), Tr(R))) IN <<o[8], o[3], o[4]>>
Pose(p, R) == [p |-> p, R |-> R]
Compose(A, B) == Pose(VPlus(A.p, MVec(A.R, B.p)), MMul(A.R, B.R))

\* ------------------------------------------------------------ the model
\* a coordinate of joint j is named by the program (field coords)
Empty == [gv |-> <<>>, bodies |-> <<>>, frames |-> <<>>, joints |-> <<>>, vals |-> <<>>, inputs |-> <<>>, exprs |-> <<>>, loads |-> <<>>, sensors |-> <<>>, visuals |-> <<>>, loops |-> <<>>, gen |-> <<>>]
DofAxis(d) == CASE d \in {"Rx", "Tx"} -> "x" [] d \in {"Ry", "Ty"} -> "y" [] OTHER -> "z"
Rotates(d) == d \in {"Rx", "Ry", "Rz"}
\* frames live on bodies: a path of frames from the body
RECURSIVE BodyOf(_, _)
BodyOf(mo, f) == IF f \in DOMAIN mo.frames THEN BodyOf(mo, mo.frames[f].par) ELSE f
After(mo, s) ==
  CASE s.op = "world"   -> [Empty EXCEPT !.gv = s.gv]
    [] s.op = "param"   -> [mo EXCEPT !.vals = Append(@, [n |-> s.n, e |-> s.v])]
    [] s.op = "gravity" -> [mo EXCEPT !.vals = Map(Len(@), LAMBDA i : IF @[i].n = "g" THEN [n |-> "g", e |-> s.v] ELSE @[i])]
    [] s.op = "body"    -> [mo EXCEPT !.bodies = Put(@, s.n, [mass |-> s.mass, cg |-> s.cg, I |-> s.I])]
    [] s.op = "frame"   -> [mo EXCEPT !.frames = Put(@, s.n, [par |-> s.par, p |-> s.p, R |-> s.R])]
    [] s.op = "joint"   -> [mo EXCEPT !.joints = Append(@, s)]
    [] s.op = "input"   -> [mo EXCEPT !.inputs = Append(@, s.n)]
    [] s.op = "expr"    -> [mo EXCEPT !.exprs = Append(@, [s |-> "expr", n |-> s.n, e |-> s.e])]
    [] s.op \in {"load", "jload"} -> [mo EXCEPT !.loads = Append(@, s)]
    [] s.op \in {"sensor", "jsensor", "bsensor", "csensor"} -> [mo EXCEPT !.sensors = Append(@, s), !.exprs = Append(@, [s |-> "sens", n |-> s.n, e |-> s])]
    [] s.op = "visual"  -> [mo EXCEPT !.visuals = Append(@, s)]
    [] s.op = "loop"    -> [mo EXCEPT !.loops = Append(@, s)]
    [] s.op = "gen"     -> [mo EXCEPT !.gen = s]
    [] OTHER -> mo

\* ------------------------------------------------------------ numbers of the model
\* v: values of parameters and inputs (at order 2)
TermVal(t, v) == TLCEval(Eval(t, [val |-> v, K |-> 2, dx |-> <<>>])).d[1]
TermVals(ts, v) == Map(Len(ts), LAMBDA i : TermVal(ts[i], v))
Params(mo) == FoldLeft(LAMBDA v, p : Put(v, p.n, Scal(TermVal(p.e, v))), <<>>, mo.vals)
Inertia(d) == IF Len(d) = 9 THEN d ELSE <<d[1], d[2], d[4], d[2], d[3], d[5], d[4], d[5], d[6]>>   \* Ixx Ixy Iyy Ixz Iyz Izz
\* bodies and frames as numbers; frames: body and pose on it
RECURSIVE OnBody(_, _, _)
OnBody(mo, v, f) == IF f \in DOMAIN mo.frames THEN LET g == mo.frames[f] IN TLCEval(Compose(OnBody(mo, v, g.par), Pose(TermVals(g.p, v), TermVals(g.R, v)))) ELSE Pose(Zero3(2), Eye3(2))
Static(mo, v) ==
  [bodies |-> TLCEval([b \in DOMAIN mo.bodies |-> [mass |-> TermVal(mo.bodies[b].mass, v), cg |-> TermVals(mo.bodies[b].cg, v), I |-> Inertia(TermVals(mo.bodies[b].I, v))]]),
   frames |-> TLCEval([f \in {"world"} \cup DOMAIN mo.bodies \cup DOMAIN mo.frames |-> [b |-> BodyOf(mo, f), pose |-> OnBody(mo, v, f)]]),
   g |-> VScale(v["g"].d[1], TermVals(mo.gv, v))]

\* ------------------------------------------------------------ poses of the bodies
\* x: coordinate name -> series
Move(P, d, x) == IF Rotates(d) THEN Pose(P.p, MMul(P.R, Rotation(DofAxis(d), x))) ELSE Pose(VPlus(P.p, VScale(x, MVec(P.R, Unit(DofAxis(d), SOrder(x))))), P.R)
RECURSIVE Moved(_, _, _, _)
Moved(P, j, x, k) == IF k > Len(j.dofs) THEN P ELSE Moved(TLCEval(Move(P, j.dofs[k], x[j.coords[k]])), j, x, k + 1)
Detach(P, f) == LET R == TLCEval(MMul(P.R, Tr(f.R))) IN TLCEval(Pose(VMinus(P.p, MVec(R, f.p)), R))   \* pose of the body whose frame f has pose P
RECURSIVE Assemble(_, _, _, _)
Assemble(mo, st, x, P) ==
  LET next == {i \in 1..Len(mo.joints) : st.frames[mo.joints[i].c1].b \in DOMAIN P /\ st.frames[mo.joints[i].c2].b \notin DOMAIN P} IN
  IF next = {} THEN P
  ELSE LET j == mo.joints[CHOOSE i \in next : TRUE]
           f1 == st.frames[j.c1] f2 == st.frames[j.c2]
       IN  Assemble(mo, st, x, TLCEval(Put(P, f2.b, Detach(Moved(TLCEval(Compose(P[f1.b], f1.pose)), j, x, 1), f2.pose))))
Poses(mo, st, x, k) == Assemble(mo, st, x, "world" :> Pose(Zero3(k), Eye3(k)))
FrameAt(st, P, f) == TLCEval(Compose(P[st.frames[f].b], st.frames[f].pose))
Center(st, P, b) == VPlus(P[b].p, MVec(P[b].R, st.bodies[b].cg))

\* ------------------------------------------------------------ loops
\* a joint coordinate: <<joint, number>>
CoordAt(mo, jk) == mo.joints[jk[1]].coords[jk[2]]
Dependents(mo) == Flat(Map(Len(mo.loops), LAMBDA i : Map(Len(mo.loops[i].dep), LAMBDA k : CoordAt(mo, mo.loops[i].dep[k]))))
\* what a loop requires to vanish, at poses P and coordinates x: a coupling, or the
\* distance of two frames in the plane of the mechanism (components in its base)
LoopResidual(mo, st, v, P, x, s, k) ==
  CASE s.kind = "Transmission" -> <<SSub(x[CoordAt(mo, s.dep[1])], SMul(SCut(TermVal(s.ratio, v), k), x[CoordAt(mo, s.ind[1])]))>>
    [] s.kind = "ExpJoint" -> <<SSub(x[CoordAt(mo, s.dep[1])], SCut(TermVal(s.e, v), k))>>
    [] OTHER -> LET d == MVec(Tr(P[s.base].R), VMinus(FrameAt(st, P, s.c1).p, FrameAt(st, P, s.c2).p)) IN Map(Len(s.plane), LAMBDA i : d[Axis(s.plane[i])])
Residual(mo, st, v, x, k) ==
  LET P == TLCEval(Poses(mo, st, x, k)) IN TLCEval(Flat(Map(Len(mo.loops), LAMBDA i : LoopResidual(mo, st, v, P, x, mo.loops[i], k))))
\* derivative of the residual with respect to the dependent coordinates at values x0 (order 0), row by row
Gradient(mo, st, v, x0, deps) ==
  LET cols == TLCEval(Map(Len(deps), LAMBDA j : Residual(mo, st, v, [n \in DOMAIN x0 |-> IF n = deps[j] THEN SCoefs(<<x0[n], <<1072693248, 0>>>>) ELSE SCoefs(<<x0[n], <<0, 0>>>>)], 1))) IN
  Flat(Map(Len(deps), LAMBDA i : Map(Len(deps), LAMBDA j : SAt(cols[j][i], 1))))
\* Newton's method in power series: each step gains one order
RECURSIVE Closed(_, _, _, _, _, _, _, _)
Closed(mo, st, v, x, deps, inv, k, steps) ==
  IF steps = 0 THEN x
  ELSE LET y0 == TLCEval([n \in DOMAIN x |-> IF n \in ToSet(deps) THEN SMid(x[n]) ELSE x[n]]) m == Len(deps)
           corr == TLCEval(SMM(inv, m, m, 1, Residual(mo, st, v, y0, k)))
       IN  Closed(mo, st, v, TLCEval([n \in DOMAIN x |-> IF n \in ToSet(deps) THEN SSub(y0[n], corr[Find(deps, LAMBDA y : y = n)]) ELSE x[n]]), deps, inv, k, steps - 1)
\* values of the dependent coordinates: reported by joint sensors
Reported(mo, r, nm) == LET i == Find(mo.sensors, LAMBDA s : s.op = "jsensor" /\ CoordAt(mo, <<s.j, s.k>>) = nm) o == Find(r.sens, LAMBDA y : y.n = mo.sensors[i].n) IN r.sens[o].d
HasReport(mo, r, nm) == Has(mo.sensors, LAMBDA s : s.op = "jsensor" /\ CoordAt(mo, <<s.j, s.k>>) = nm /\ Has(r.sens, LAMBDA y : y.n = s.n /\ Len(y.d) = 2))

\* ------------------------------------------------------------ what sensors measure
RefOf(s) == IF s.ref = "" THEN s.c1 ELSE s.ref
In(R, v) == MVec(Tr(VAt(R, 0)), v)
\* A: poses in motion (order 2)
SensorVal(mo, st, A, x, s) ==
  IF s.op = "sensor" THEN
    LET f1 == FrameAt(st, A, s.c1) f2 == FrameAt(st, A, s.c2)
        d == VMinus(f2.p, f1.p)
        R == FrameAt(st, A, RefOf(s)).R
    IN  CASE s.kind = "Distance" -> LET n == Norm(d) IN <<SAt(n, 0), SAt(n, 1)>>
          [] s.kind = "Position" -> In(R, VAt(d, 0))
          [] s.kind = "Velocity" -> In(R, VAt(VD(d), 0))
          [] s.kind = "Acceleration" -> In(R, VAt(VD(VD(d)), 0))
          [] s.kind = "Orientation" -> MMul(Tr(VAt(f1.R, 0)), VAt(f2.R, 0))
          [] s.kind = "AngularVelocity" -> In(R, VAt(VMinus(Spin(f2.R), Spin(f1.R)), 0))
          [] s.kind = "AngularAcceleration" -> In(R, VAt(VD(VMinus(Spin(f2.R), Spin(f1.R))), 0))
          [] OTHER -> <<>>
  ELSE IF s.op = "jsensor" THEN LET q == x[mo.joints[s.j].coords[s.k]] IN <<SAt(q, 0), SAt(q, 1)>>
  ELSE <<>>
Energy(st, A, b) ==
  LET m == SCut(st.bodies[b].mass, 0) r == Center(st, A, b) v == VAt(VD(r), 0)
      R == VAt(A[b].R, 0) w == MVec(Tr(R), VAt(Spin(A[b].R), 0)) h == SRat(1, 2, 0)
  IN  SAdd(SNeg(SMul(m, VDot(VAt(st.g, 0), VAt(r, 0)))), SMul(h, SAdd(SMul(m, VDot(v, v)), VDot(w, MVec(st.bodies[b].I, w)))))
SSum(S) == FoldLeft(SAdd, Zer(0), S)
VSum(S) == FoldLeft(VPlus, Zero3(0), S)
BodiesOf(mo, s) == IF s.bodies = <<"world">> THEN SetToSeq(DOMAIN mo.bodies) ELSE s.bodies
\* name -> components, for everything that must be returned
Measured(mo, st, A, x, s) ==
  IF s.op = "csensor" THEN <<>>        \* see Reactions
  ELSE IF s.op # "bsensor" THEN s.n :> SensorVal(mo, st, A, x, s)
  ELSE LET bs == BodiesOf(mo, s) IN
       IF s.kind = "Energy"
       THEN (s.n :> <<SSum(Map(Len(bs), LAMBDA i : Energy(st, A, bs[i])))>>)
            @@ (IF s.bodies = <<"world">> THEN [n \in {"E_" \o b : b \in ToSet(bs)} |-> <<Energy(st, A, CHOOSE b \in ToSet(bs) : n = "E_" \o b)>>] ELSE <<>>)
       ELSE LET m == TLCEval(SSum(Map(Len(bs), LAMBDA i : SCut(st.bodies[bs[i]].mass, 0))))
                r == VSum(Map(Len(bs), LAMBDA i : VScale(st.bodies[bs[i]].mass, VAt(Center(st, A, bs[i]), 0))))
            IN  ((s.n \o "_Mass") :> <<m>>) @@ ((s.n \o "_r") :> VScale(SDiv(SInt(1, 0), m), r))
AllMeasured(mo, st, A, x) == TLCEval(FoldLeft(LAMBDA v, s : v @@ Measured(mo, st, A, x, s), <<>>, mo.sensors))
\* values of the expressions (order 0), sensors included
Valued(mo, v0, meas) ==
  FoldLeft(LAMBDA v, e : IF e.s = "expr" THEN Put(v, e.n, TLCEval(Eval(e.e, [val |-> v, K |-> 0, dx |-> <<>>])))
                         ELSE IF e.n \in DOMAIN meas THEN Put(v, e.n, LET k == Len(meas[e.n]) IN IF k = 9 THEN Val(<<2, 3, 3>>, meas[e.n]) ELSE IF k = 1 THEN Scal(meas[e.n][1]) ELSE Val(<<1, k, 1>>, meas[e.n]))
                         ELSE v, v0, mo.exprs)

\* ------------------------------------------------------------ virtual work
\* V: coordinates and poses with an independent coordinate displaced by t (order 1)
Disp(st, V, f) == LET P == FrameAt(st, V, f) IN [r |-> VAt(P.p, 1), th |-> VAt(Spin(P.R), 0)]
\* generalised force of a load on the coordinate displaced in V
Work(mo, st, A, V, s, v) ==
  LET e == TLCEval(Eval(s.e, [val |-> v, K |-> 0, dx |-> <<>>])).d IN
  IF s.op = "jload" THEN SMul(e[1], SAt(V.x[mo.joints[s.j].coords[s.k]], 1))
  ELSE LET d1 == Disp(st, V.P, s.c1) d2 == Disp(st, V.P, s.c2) IN
       IF s.kind = "PtPForce"
       THEN LET d == VMinus(VAt(FrameAt(st, A, s.c1).p, 0), VAt(FrameAt(st, A, s.c2).p, 0)) IN SMul(e[1], SDiv(VDot(d, VMinus(d1.r, d2.r)), Norm(d)))
       ELSE LET w == MVec(VAt(FrameAt(st, A, RefOf(s)).R, 0), e) IN IF s.kind = "CmpForce" THEN VDot(w, VMinus(d1.r, d2.r)) ELSE VDot(w, VMinus(d1.th, d2.th))
\* inertia of a body (A: motion of order 2): momentum changes and virtual displacement
BodyMotion(st, A, b) ==
  LET R == A[b].R w == Spin(R) L == MVec(MMul(MMul(R, st.bodies[b].I), Tr(R)), w) IN
  [f |-> VScale(st.bodies[b].mass, VMinus(VAt(VD(VD(Center(st, A, b))), 0), VAt(st.g, 0))), t |-> VAt(VD(L), 0),
   J |-> VAt(MMul(MMul(R, st.bodies[b].I), Tr(R)), 0)]
BodyDisp(st, V, b) == [r |-> VAt(Center(st, V, b), 1), th |-> VAt(Spin(V[b].R), 0)]

\* what a joint transmits to the body it carries, in the base of the world and about the origin of the
\* coordinate system behind its k-th coordinate: momentum changes minus external loads of
\* all bodies it carries
RECURSIVE Carried(_, _, _)
Carried(mo, st, S) == LET T == S \cup {st.frames[mo.joints[i].c2].b : i \in {i \in 1..Len(mo.joints) : st.frames[mo.joints[i].c1].b \in S}} IN IF T = S THEN S ELSE Carried(mo, st, T)
RECURSIVE MovedTo(_, _, _, _, _)
MovedTo(P, j, x, i, k) == IF i > k THEN P ELSE MovedTo(TLCEval(Move(P, j.dofs[i], x[j.coords[i]])), j, x, i + 1, k)
Cross(u, v) == <<SSub(SMul(u[2], v[3]), SMul(u[3], v[2])), SSub(SMul(u[3], v[1]), SMul(u[1], v[3])), SSub(SMul(u[1], v[2]), SMul(u[2], v[1]))>>
\* force, couple and point of a load on the body of frame f (sign +: first frame)
Applied(mo, st, A, s, v, S) ==
  IF s.op = "jload" THEN <<>>
  ELSE LET e == TLCEval(Eval(s.e, [val |-> v, K |-> 0, dx |-> <<>>])).d
           d == VMinus(VAt(FrameAt(st, A, s.c1).p, 0), VAt(FrameAt(st, A, s.c2).p, 0))
           w == IF s.kind = "PtPForce" THEN VScale(SDiv(e[1], Norm(d)), d) ELSE MVec(VAt(FrameAt(st, A, RefOf(s)).R, 0), e)
           On(f, u) == IF st.frames[f].b \notin S THEN <<>> ELSE <<[f |-> IF s.kind = "CmpTorque" THEN Zero3(0) ELSE u, t |-> IF s.kind = "CmpTorque" THEN u ELSE Zero3(0), p |-> VAt(FrameAt(st, A, f).p, 0)]>>
       IN  On(s.c1, w) \o On(s.c2, Map(3, LAMBDA i : SNeg(w[i])))
Reaction(mo, st, A, x, bs, BM, s, v) ==
  LET j == mo.joints[s.j]
      S == Carried(mo, st, {st.frames[j.c2].b})
      C == TLCEval(MovedTo(FrameAt(st, A, j.c1), j, x, 1, s.k))
      o == VAt(C.p, 0)
      own == SelectSeq([i \in 1..Len(bs) |-> i], LAMBDA i : bs[i] \in S)
      ext == TLCEval(Flat(Map(Len(mo.loads), LAMBDA i : Applied(mo, st, A, mo.loads[i], v, S))))
      f == VMinus(VSum(Map(Len(own), LAMBDA i : BM[own[i]].f)), VSum(Map(Len(ext), LAMBDA i : ext[i].f)))
      t == VMinus(VSum(Map(Len(own), LAMBDA i : VPlus(BM[own[i]].t, Cross(VMinus(VAt(Center(st, A, bs[own[i]]), 0), o), BM[own[i]].f)))),
                  VSum(Map(Len(ext), LAMBDA i : VPlus(ext[i].t, Cross(VMinus(ext[i].p, o), ext[i].f)))))
      \* (the load acting on the coordinate itself is no reaction)
      own1 == SelectSeq(mo.loads, LAMBDA y : y.op = "jload" /\ y.j = s.j /\ y.k = s.k)
      act == VSum(Map(Len(own1), LAMBDA i : VScale(TLCEval(Eval(own1[i].e, [val |-> v, K |-> 0, dx |-> <<>>])).d[1], VAt(MVec(C.R, Unit(DofAxis(j.dofs[s.k]), 2)), 0))))
  IN  IF s.kind = "ConstraintForce" THEN (IF Rotates(j.dofs[s.k]) THEN f ELSE VMinus(f, act))
      ELSE IF Rotates(j.dofs[s.k]) THEN VMinus(t, act) ELSE t
Reactions(mo, st, A, x, bs, BM, v) == FoldLeft(LAMBDA u, s : IF s.op = "csensor" THEN u @@ (s.n :> Reaction(mo, st, A, x, bs, BM, s, v)) ELSE u, <<>>, mo.sensors)

\* ------------------------------------------------------------ a call of the generated functions
Lit0(h) == SLitX(h, 0)
Finite(o) == o[1] = 1
Series2(a, b, e) == LET z == SCoefs(<<<<0, 0>>, <<0, 0>>, e>>) IN SAdd(SCoefs(<<a, b, <<0, 0>>>>), SMul(z, SRat(1, 2, 2)))
Agrees(want, o) == IF Finite(o) THEN SCmp(want, SLitX(<<o[2], o[3]>>, 0)) # "ne" ELSE ~SReliable(want)
AllAgree(want, os) == Len(want) = Len(os) /\ \A i \in 1..Len(os) : Agrees(want[i], os[i])
\* values of parameters, inputs and time at a call
Given(mo, r) ==
  LET p == Params(mo) IN
  FoldLeft(LAMBDA v, i : Put(v, i.n, LET d == Map(Len(i.d), LAMBDA k : SLitX(i.d[k], 2)) IN IF Len(d) = 1 THEN Scal(d[1]) ELSE Val(<<1, Len(d), 1>>, d)), Put(p, "time", Scal(SLitX(r.t, 2))), r.inputs)
\* the displaced poses, per independent coordinate; x0: values of all coordinates (halves)
Displaced(mo, st, v, names, x0, deps, inv) ==
  Map(Len(names), LAMBDA j :
    LET xj == [k \in DOMAIN x0 |-> SCoefs(<<x0[k], IF k = names[j] THEN <<1072693248, 0>> ELSE <<0, 0>>>>)]
        x == TLCEval(IF deps = <<>> THEN xj ELSE Closed(mo, st, v, xj, deps, Map(Len(inv), LAMBDA i : SExt(inv[i], 1)), 1, 2))
    IN [x |-> x, P |-> Poses(mo, st, x, 1)])
\* the mass matrix
MassMatrix(st, bs, BM, BD, n) ==
  Map(n * n, LAMBDA p : LET i == ((p - 1) \div n) + 1 j == ((p - 1) % n) + 1 IN
      SSum(Map(Len(bs), LAMBDA b : SAdd(SMul(SCut(st.bodies[bs[b]].mass, 0), VDot(BD[i][b].r, BD[j][b].r)), VDot(BD[i][b].th, MVec(BM[b].J, BD[j][b].th))))))
Regular(M, n) == LET x == SolveRows(M, VEye(n, 0).d, n, n) IN \A i \in 1..n : \A k \in 1..n : SReliable(x[i][k])
\* virtual work of coordinate j: the terms
Terms(mo, st, A, V, bs, BM, BD, j, v) ==
  Flat(Map(Len(bs), LAMBDA b : <<VDot(BM[b].f, BD[j][b].r), VDot(BM[b].t, BD[j][b].th)>>))
  \o Map(Len(mo.loads), LAMBDA k : SNeg(Work(mo, st, A, V[j], mo.loads[k], v)))
Balanced(ts, big) ==
  LET res == SSum(ts) mag == SSum(Map(Len(ts), LAMBDA i : SAbs(ts[i]))) IN
  \/ ~SReliable(mag) \/ ~SDefined(res)
  \/ SMagLe(res, 1, 1000000000)
  \/ SMagLe(SDiv(res, mag), 1, 10000000)
  \/ SMagLe(SDiv(res, big), 1, 1000000000)

DynProp(cs) == cs.prof
SensProp(cs) == IF cs.prof \in {"M07", "M08", "M09"} THEN cs.prof ELSE "M05"
OutFails(p, want, out, what) ==
  F(DOMAIN want \subseteq {out[i].n : i \in 1..Len(out)}, p, "not every " \o what \o " is returned")
  \cup UNION {LET o == out[i] IN
              IF o.n \notin DOMAIN want THEN {}
              ELSE IF Len(want[o.n]) # Len(o.d) THEN {Failure(p, "a " \o what \o " has another size")}
              ELSE F(AllAgree(want[o.n], o.d), p, "a " \o what \o " has another value") : i \in 1..Len(out)}
Visuals(mo, st, A) == FoldLeft(LAMBDA v, s : v @@ ("r_" \o s.n :> VAt(FrameAt(st, A, s.c).p, 0)) @@ ("T_" \o s.n :> VAt(FrameAt(st, A, s.c).R, 0)), <<>>, mo.visuals)
Near(a, b) == SMagLe(SSub(a, b), 1, 1000000) \/ SMagLe(SDiv(SSub(a, b), b), 1, 1000000)
Half(o) == <<o[2], o[3]>>
\* the mechanisms are closed at the values reported, and not near a singular posture
Judged(inv, size) == \A i \in 1..Len(inv) : SReliable(inv[i]) /\ SMagLe(inv[i], 100, 1)
LoopFails(mo, st, v, r, x0, x, deps, inv) ==
  LET res == Residual(mo, st, v, [n \in DOMAIN x0 |-> SLitX(x0[n], 0)], 0) m == Len(deps)
      corr == TLCEval(SMM(inv, m, m, 1, res)) IN
  F(\A i \in 1..m : LET q == SLitX(x0[deps[i]], 0) IN Near(q, SSub(q, corr[i])), "M07", "a loop is not closed")
  \cup F(\A i \in 1..m : LET o == Reported(mo, r, deps[i])[2] IN Finite(o) /\ Near(SLitX(Half(o), 0), SAt(x[deps[i]], 1)), "M07", "the velocity of a dependent coordinate differs from the derivative of its position")
RunFails(cs, mo, r) ==
  IF r.res \notin {"ok", "domain"} THEN {Failure(DynProp(cs), "the generated functions fail")}
  ELSE
  LET names == mo.gen.order
      n == Len(names)
      deps == Dependents(mo)
      m == Len(deps)
      fin == r.res = "ok" /\ \A i \in 1..Len(r.yd) : Finite(r.yd[i])
      full == fin /\ Len(r.yd) = 2 * n
      have == \A i \in 1..m : HasReport(mo, r, deps[i])
      known == have /\ \A i \in 1..m : Finite(Reported(mo, r, deps[i])[1])
      \* values of the coordinates: given, reported, or (when nothing is reported) those with which the model was assembled
      DepValue(i) == IF known THEN Half(Reported(mo, r, deps[i])[1]) ELSE r.asm[i]
      x0 == TLCEval([k \in {names[i] : i \in 1..n} \cup ToSet(deps) |-> IF k \in ToSet(deps) THEN DepValue(Find(deps, LAMBDA y : y = k)) ELSE r.y[Find(names, LAMBDA y : y = k)]])
  IN  IF m > 0 /\ r.res = "ok" /\ ~have THEN {Failure("M07", "the dependent coordinates are not reported")}
      ELSE IF m > 0 /\ ~known /\ r.asm = <<>> THEN {}
      ELSE
  LET v == TLCEval(Given(mo, r))
      st == TLCEval(Static(mo, v))
      inv == IF m = 0 THEN <<>> ELSE LET sol == SolveRows(Gradient(mo, st, v, x0, deps), VEye(m, 0).d, m, m) IN TLCEval(Map(m * m, LAMBDA p : sol[((p - 1) \div m) + 1][((p - 1) % m) + 1]))
      judged == Judged(inv, m)
      V == TLCEval(Displaced(mo, st, v, names, x0, deps, inv))
      xu == TLCEval([k \in DOMAIN x0 |-> IF k \in ToSet(deps) THEN SCoefs(<<x0[k], <<0, 0>>, <<0, 0>>>>)
                                         ELSE LET i == Find(names, LAMBDA y : y = k) IN Series2(r.y[i], r.y[n + i], IF full THEN Half(r.yd[n + i]) ELSE <<0, 0>>)])
      x == IF m = 0 THEN xu ELSE TLCEval(Closed(mo, st, v, xu, deps, Map(Len(inv), LAMBDA i : SExt(inv[i], 2)), 2, 4))
      A == TLCEval(Poses(mo, st, x, 2))
      bs == SetToSeq(DOMAIN mo.bodies)
      BM == TLCEval(Map(Len(bs), LAMBDA b : BodyMotion(st, A, bs[b])))
      BD == TLCEval(Map(n, LAMBDA j : Map(Len(bs), LAMBDA b : BodyDisp(st, V[j].P, bs[b]))))
      M == MassMatrix(st, bs, BM, BD, n)
      meas == AllMeasured(mo, st, A, x)
      v1 == TLCEval(Valued(mo, v, meas))
      ts == TLCEval(Map(n, LAMBDA j : Terms(mo, st, A, V, bs, BM, BD, j, v1)))
      big == SSum(Map(n, LAMBDA j : SSum(Map(Len(ts[j]), LAMBDA k : SAbs(ts[j][k])))))
      kin == mo.gen.kin
      qdd == IF kin THEN LET i == Find(r.inputs, LAMBDA y : y.n = "qdd") IN r.inputs[i].d ELSE <<>>
      \* the order-n method inverts the inertia of the tree, without the loops
      tree == IF m = 0 \/ mo.gen.mode # "OrderN" THEN TRUE
              ELSE LET V2 == TLCEval(Displaced(mo, st, v, names \o deps, x0, <<>>, <<>>))
                       B2 == TLCEval(Map(n + m, LAMBDA j : Map(Len(bs), LAMBDA b : BodyDisp(st, V2[j].P, bs[b]))))
                   IN Regular(MassMatrix(st, bs, BM, B2, n + m), n + m)
  IN  IF ~judged THEN {}
      ELSE IF DOMAIN A # {"world"} \cup DOMAIN mo.bodies THEN {Failure("M01", "a body is not connected")}
      ELSE IF ~kin /\ (~Regular(M, n) \/ ~tree \/ ~SReliable(big)) THEN {}
      ELSE IF ~fin THEN {Failure(DynProp(cs), "no finite accelerations though the equations of motion determine them")}
      ELSE F(full, DynProp(cs), "the derivative of the state has another size")
           \cup (IF ~full THEN {}
                 ELSE F(\A i \in 1..n : SCmp(Lit0(r.y[n + i]), SLitX(Half(r.yd[i]), 0)) = "eq", DynProp(cs), "the derivative of the coordinates is not the velocity")
                      \cup IF kin THEN F(\A i \in 1..n : SCmp(Lit0(qdd[i]), SLitX(Half(r.yd[n + i]), 0)) = "eq", DynProp(cs), "the accelerations are not those given")
                           ELSE F(\A j \in 1..n : Balanced(ts[j], big), DynProp(cs), "the accelerations violate the equations of motion"))
           \cup (IF m > 0 /\ known THEN LoopFails(mo, st, v, r, x0, x, deps, inv) ELSE {})
           \cup (IF full THEN OutFails(SensProp(cs), meas @@ Reactions(mo, st, A, x, bs, BM, v1), r.sens, "sensor") \cup OutFails(SensProp(cs), Visuals(mo, st, A), r.vis, "graphics quantity") ELSE {})

\* ------------------------------------------------------------ generating the equations
Coords(mo) == Flat([i \in 1..Len(mo.joints) |-> mo.joints[i].coords])
StartOf(mo, n, f) == LET i == Find(mo.joints, LAMBDA j : n \in ToSet(j.coords)) j == mo.joints[i] k == Find(j.coords, LAMBDA y : y = n) IN TermVal(IF f = "q0" THEN j.q0[k] ELSE j.qd0[k], <<>>)
GenFails(cs, mo, s) ==
  IF s.res # "ok" THEN {Failure(DynProp(cs), "the equations of motion are not generated")}
  ELSE LET cn == SelectSeq(Coords(mo), LAMBDA n : n \notin ToSet(Dependents(mo))) v == <<>> IN
       F(Len(s.order) = Len(cn) /\ ToSet(s.order) = ToSet(cn) /\ Cardinality(ToSet(s.order)) = Len(s.order), "M01", "the state does not consist of the independent coordinates of the joints")
       \cup (IF ~(ToSet(s.order) \subseteq ToSet(cn)) THEN {}
             ELSE F(Len(s.q0) = Len(s.order) /\ \A i \in 1..Len(s.q0) : SCmp(StartOf(mo, s.order[i], "q0"), TermVal(s.q0[i], v)) = "eq", IF cs.prof = "M01" THEN "M01" ELSE "M09", "an initial position differs from the start value")
                  \cup F(Len(s.qd0) = Len(s.order) /\ \A i \in 1..Len(s.qd0) : SCmp(StartOf(mo, s.order[i], "qd0"), TermVal(s.qd0[i], v)) = "eq", IF cs.prof = "M01" THEN "M01" ELSE "M09", "an initial velocity differs from the start value"))

\* ------------------------------------------------------------ behaviour
Expected(mo, s) == TRUE
StepFails(cs, mo, s) ==
  IF s.op = "gen" THEN GenFails(cs, mo, s)
  ELSE IF s.op = "run" THEN RunFails(cs, mo, s)
  ELSE F(s.res = "ok" \/ ~Expected(mo, s), IF s.op = "gravity" THEN "M09" ELSE IF cs.prof \in {"M05", "M06"} THEN cs.prof ELSE "M01", "a valid addition (" \o s.op \o ") is refused")
Init == c \in 1..Len(Cases) /\ l = 1 /\ mb = Empty
Report(cs, what, f) == IF f = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([case |-> cs.id, step |-> l, op |-> what, fails |-> SetToSeq(f)]))
Step ==
  /\ l <= Len(Cases[c].steps)
  /\ l' = l + 1 /\ c' = c
  /\ LET cs == Cases[c] s == cs.steps[l] IN
     /\ Report(cs, s.op, TLCEval(StepFails(cs, mb, s)))
     /\ mb' = TLCEval(IF s.res = "ok" THEN After(mb, s) ELSE mb)
Next == Step
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").generated = FoldLeft(LAMBDA a, b : a + b, 0, [i \in 1..Len(Cases) |-> Len(Cases[i].steps) + 1])
=============================================================================
