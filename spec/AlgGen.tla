------------------------------- MODULE AlgGen -------------------------------
(***************************************************************************)
(* Generator of programs of the symbolic algebra.  The state is a chain of *)
(* commands over the symbols x, y (scalars), v (3-vector) and A (3x3), each *)
(* command using the result of the one before; TLC enumerates all chains   *)
(* up to DEPTH (breadth first) or draws long ones (-simulate).  Of every   *)
(* chain, Emit prints the chain followed by all commands that can be       *)
(* applied to its last result: the real code executes them (replay of the  *)
(* behaviours of the specification), and SymAlg judges what it did.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Depth == atoi(IOEnv.GEN_DEPTH)
Only  == IOEnv.GEN_ONLY = "1"        \* emit only chains of full length
Leaf  == IOEnv.GEN_LEAF              \* "alg" | "diff" | "subs"

VARIABLES ch,   \* the chain
          tys,  \* kinds of the results: "s" scalar, "v" 3-vector, "r" row, "m" 3x3
          tr,   \* does the last result contain sin, cos or tan (its inverse is not applied then, see known findings)
          done
vars == <<ch, tys, tr, done>>

Base == <<"r1", "r2", "r3", "r4">>   \* x y v A
BaseTy == <<"s", "s", "v", "m">>
Ty(r) == CASE r = "r1" -> "s" [] r = "r2" -> "s" [] r = "r3" -> "v" [] r = "r4" -> "m"
Reg(r) == [r |-> r]
Num(n) == [x |-> n]
Nums == {0, 1, 2}
Bases == {"r1", "r2", "r3", "r4"}

\* kind of the result, "" if the shapes do not fit
Prod(a, b) ==
  CASE a = "s" -> b [] b = "s" -> a
    [] a = "m" /\ b = "m" -> "m" [] a = "m" /\ b = "v" -> "v" [] a = "r" /\ b = "m" -> "r"
    [] a = "r" /\ b = "v" -> "s" [] a = "v" /\ b = "r" -> "m" [] OTHER -> ""
Kind(op, a, b) ==
  CASE op \in {"sin", "cos", "tan", "atan"} -> IF a = "s" THEN "s" ELSE ""
    [] op \in {"neg", "abs", "sign", "dt"} -> a
    [] op = "transp" -> CASE a = "v" -> "r" [] a = "r" -> "v" [] OTHER -> a
    [] op = "skew" -> IF a = "v" THEN "m" ELSE ""
    [] op = "inv" -> IF a = "m" THEN "m" ELSE ""
    [] op = "pow" -> IF a \in {"s", "m"} /\ b = "s" THEN a ELSE ""
    [] op \in {"add", "sub"} -> IF a = b THEN a ELSE ""
    [] op = "mul" -> Prod(a, b)
    [] op = "div" -> IF b = "s" THEN a ELSE ""
    [] op = "outer" -> IF a = "v" /\ b = "v" THEN "m" ELSE ""
    [] op = "solve" -> IF a = "m" /\ b \in {"v", "m"} THEN b ELSE ""
    [] op = "element" -> IF a = "s" THEN "" ELSE "s"
    [] op \in {"less", "greater", "equal", "atan2"} -> IF a = "s" /\ b = "s" THEN "s" ELSE ""
    [] OTHER -> ""

Out(k) == "q" \o ToString(k)
Cmd(op, args, o) == [op |-> op, args |-> args, out |-> o]
Unary == {"neg", "abs", "sign", "sin", "cos", "tan", "atan", "transp", "skew", "inv", "simplify"}
Binary == {"add", "sub", "mul", "div", "outer", "solve", "atan2", "less", "greater", "equal"}
Exps == {0, 2, 3}

\* commands applicable to the operand a (a register), the others from the base
Applicable(a, o) ==
  {Cmd(op, <<Reg(a)>>, o) : op \in Unary \ (IF tr THEN {"atan"} ELSE {})}
  \cup {Cmd("pow", <<Reg(a), Num(n)>>, o) : n \in Exps}
  \cup {[op |-> "element", args |-> <<Reg(a)>>, out |-> o, m |-> <<ij[1]>>, n |-> <<ij[2]>>] : ij \in {<<0, 0>>, <<2, 0>>, <<0, 2>>, <<2, 1>>, <<3, 0>>}}
  \cup {Cmd(op, <<Reg(a), Reg(b)>>, o) : op \in Binary, b \in Bases \cup {a}}
  \cup {Cmd(op, <<Reg(b), Reg(a)>>, o) : op \in Binary, b \in Bases}
  \cup {Cmd(op, <<Reg(a), Num(n)>>, o) : op \in Binary \ {"outer", "solve"}, n \in Nums}
  \cup {Cmd(op, <<Num(n), Reg(a)>>, o) : op \in Binary \ {"outer", "solve"}, n \in Nums}
  \cup {Cmd("if", <<Reg(a), Reg(b), Reg(d)>>, o) : b \in {"r1", "r3"}, d \in {"r2", "r3", "r4"}}
  \cup {Cmd("if", <<Reg("r1"), Reg(a), Reg(b)>>, o) : b \in Bases}

KindOf(c, t) == LET f(x) == IF "x" \in DOMAIN x THEN "s" ELSE IF x.r \in Bases THEN Ty(x.r) ELSE t
                IN  IF c.op = "simplify" THEN t ELSE IF c.op = "if" THEN "" ELSE Kind(c.op, f(c.args[1]), IF Len(c.args) > 1 THEN f(c.args[2]) ELSE "")

LastOps == IF ch = <<>> THEN Bases ELSE {ch[Len(ch)].out}
LastTy(a) == IF ch = <<>> THEN Ty(a) ELSE tys[Len(tys)]

Leaves ==
  LET a == IF ch = <<>> THEN "r1" ELSE ch[Len(ch)].out IN
  IF Leaf = "alg" THEN UNION {Applicable(b, "z") : b \in LastOps}
  ELSE IF Leaf = "diff" THEN
    {Cmd("dt", <<Reg(a)>>, "z")} \cup {Cmd("der", <<Reg(a)>>, "z")}
    \cup {Cmd("dx", <<Reg(a), Reg(b)>>, "z") : b \in {"r1", "r2"}}
    \cup {Cmd("jac", <<Reg(a), Reg("r3")>>, "z")}
  ELSE {Cmd("subs", <<Reg(a), Reg("r1"), Num(n)>>, "z") : n \in Nums}
    \cup {Cmd("subs", <<Reg(a), Reg(b), Reg("r2")>>, "z") : b \in {"r1"}}
    \cup {Cmd("subs", <<Reg(a), Reg("r2"), Reg("r1")>>, "z")}
    \cup {Cmd("observe", <<Reg(a)>>, "")}

Init == ch = <<>> /\ tys = <<>> /\ tr = FALSE /\ done = FALSE
Extend ==
  /\ ~done /\ Len(ch) < Depth
  /\ \E a \in LastOps : \E c \in Applicable(a, Out(Len(ch) + 1)) :
       LET t == KindOf(c, LastTy(a)) IN
       /\ t # ""
       /\ ch' = Append(ch, c) /\ tys' = Append(tys, t)
       /\ tr' = (tr \/ c.op \in {"sin", "cos", "tan"})
       /\ UNCHANGED done
Emit ==
  /\ ~done /\ (Only => Len(ch) = Depth)
  /\ PrintT("PROG " \o ToJson([chain |-> ch, leaves |-> SetToSeq(Leaves)]))
  /\ done' = TRUE /\ UNCHANGED <<ch, tys, tr>>
Spec == Init /\ [][Extend \/ Emit]_vars

\* a chain of commands that fit is a chain of values: what Emit hands over is well typed
Typed == \A i \in 1..Len(ch) : tys[i] \in {"s", "v", "r", "m"}
=============================================================================
