------------------------------- MODULE Series -------------------------------
(***************************************************************************)
(* Arithmetic of real numbers that carry a running error bound, lifted to  *)
(* truncated power series  a[0] + a[1] t + ... + a[K] t^K.                  *)
(*                                                                          *)
(* TLC has no reals, so the operators of this module are implemented in    *)
(* Series.java (TLC's module override).  The definitions below say what    *)
(* each of them means; SeriesLaws.tla checks the implementation against    *)
(* them (ring laws, derivative laws, addition theorems, ...).              *)
(*                                                                          *)
(* Representation: a tuple of 4(K+1) machine integers, per coefficient the *)
(* two halves of an IEEE double (the value) and of a second double (a      *)
(* bound of its absolute error).  NaN stands for "undefined": the value is *)
(* outside the function's domain, or so close to a discontinuity that the  *)
(* error bound does not decide it.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

Override == CHOOSE x \in {} : TRUE

SOrder(a)    == Override  \* K
SInt(n, k)   == Override  \* the constant n, as series of order k
SRat(n, d, k) == Override \* the constant n/d
SLit(w, k)   == Override  \* the constant with IEEE halves w = <<hi,lo>>
SLitX(w, k)  == Override  \* the same, taken as exact
SCoefs(ws)   == Override  \* series whose coefficients are the (exact) literals ws
SAdd(a, b)   == Override
SSub(a, b)   == Override
SNeg(a)      == Override
SMul(a, b)   == Override
SDiv(a, b)   == Override  \* undefined where b = 0
SPow(a, b)   == Override  \* a^b; undefined for a < 0 and b not an integer, 0^negative
SSin(a)      == Override
SCos(a)      == Override
STan(a)      == Override
SAsin(a)     == Override
SAcos(a)     == Override
SAtan(a)     == Override
SAtan2(y, x) == Override
SAbs(a)      == Override
SSign(a)     == Override
SLess(a, b)  == Override  \* 1 or 0
SEqual(a, b) == Override  \* 1 or 0
SIf(c, a, b) == Override  \* a if c # 0, else b
STruncDiv(a, b) == Override \* quotient of integer operands truncated towards 0
SD(a)        == Override  \* time derivative: one order less
SAt(a, k)    == Override  \* coefficient k, as series of order 0
SCut(a, k)   == Override  \* truncation to order k
SExt(a, k)   == Override  \* the constant with the value of a, as series of order k
SMid(a)     == Override  \* the same values, taken as exact
SDefined(a)  == Override  \* TRUE iff no coefficient is NaN
SReliable(a) == Override  \* defined, and every error bound is small
SCmp(a, b)   == Override  \* "eq" | "ne" | "na" (a, the reference, undefined or unreliable)
SZero(a)     == Override  \* TRUE iff value is exactly 0 with no error
SPositive(a) == Override  \* TRUE iff certainly > 0
SShow(a)     == Override  \* string
\* product of an r x n and an n x k matrix, given row by row
SMM(a, r, n, k, b) == [p \in 1..(r * k) |-> LET i == (p - 1) \div k  j == (p - 1) % k
                                                RECURSIVE Sum(_)
                                                Sum(m) == IF m = 1 THEN SMul(a[i * n + 1], b[j + 1]) ELSE SAdd(Sum(m - 1), SMul(a[i * n + m], b[(m - 1) * k + j + 1]))
                                            IN  Sum(n)]
SMagLe(a, n, d) == Override \* |a| certainly <= n/d
=============================================================================
