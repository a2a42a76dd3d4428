----------------------------- MODULE SeriesLaws -----------------------------
(***************************************************************************)
(* The laws of the arithmetic of Series: TLC checks them for every triple  *)
(* of a set of series.  The operators are implemented in Java, this is     *)
(* what keeps the implementation honest: laws of rings and fields, of the  *)
(* derivative, addition theorems, inverse functions, and that the          *)
(* comparison of values distinguishes what differs.                        *)
(***************************************************************************)
EXTENDS Series, TLC

K == 3
\* IEEE halves of 1.5, -0.75, 0.3125, 2.25, -1.125, 0.5
D1 == <<1073217536, 0>>   \* 1.5
D2 == <<-1075314688, 0>>  \* -0.75
D3 == <<1070858240, 0>>   \* 0.3125
D4 == <<1073872896, 0>>   \* 2.25
T1 == SCoefs(<<D1, D2, D3, D4>>)
T2 == SCoefs(<<D3, D4, D1, D2>>)
T3 == SCoefs(<<D4, D1, D2, D3>>)
T4 == SCoefs(<<D2, D3, D4, D1>>)
Base == {SInt(0, K), SInt(1, K), SInt(-2, K), SRat(1, 3, K), SRat(-5, 7, K), T1, T2, T3, T4}

VARIABLES a, b, c
Init == a \in Base /\ b \in Base /\ c \in Base
Next == UNCHANGED <<a, b, c>>
Spec == Init /\ [][Next]_<<a, b, c>>

One == SInt(1, K)
Nul == SInt(0, K)
Eq(x, y) == SCmp(x, y) = "eq"          \* defined, reliable, and equal
Eqn(x, y) == SCmp(x, y) # "ne"         \* or undefined
V0(x) == SAt(x, 0)
Pos(x) == SPositive(V0(x))
NonZero(x) == Pos(x) \/ Pos(SNeg(x))

Ring == /\ Eq(SAdd(a, b), SAdd(b, a)) /\ Eq(SMul(a, b), SMul(b, a))
        /\ Eq(SAdd(SAdd(a, b), c), SAdd(a, SAdd(b, c)))
        /\ Eq(SMul(SMul(a, b), c), SMul(a, SMul(b, c)))
        /\ Eq(SMul(a, SAdd(b, c)), SAdd(SMul(a, b), SMul(a, c)))
        /\ Eq(SAdd(a, Nul), a) /\ Eq(SMul(a, One), a) /\ Eq(SMul(a, Nul), Nul)
        /\ Eq(SSub(a, b), SAdd(a, SNeg(b))) /\ Eq(SAdd(a, SNeg(a)), Nul)
Field == /\ NonZero(b) => Eq(SMul(SDiv(a, b), b), a) /\ Eq(SDiv(SMul(a, b), b), a)
         /\ SCmp(SDiv(a, Nul), a) = "na"
Powers == /\ Eq(SPow(a, SInt(2, K)), SMul(a, a)) /\ Eq(SPow(a, SInt(3, K)), SMul(a, SMul(a, a))) /\ Eq(SPow(a, One), a)
          /\ NonZero(a) => Eq(SPow(a, SInt(-1, K)), SDiv(One, a)) /\ Eq(SPow(a, SInt(-2, K)), SDiv(One, SMul(a, a)))
          /\ Pos(a) => /\ Eq(SMul(SPow(a, b), SPow(a, c)), SPow(a, SAdd(b, c)))
                       /\ Eq(SPow(SPow(a, SRat(1, 2, K)), SInt(2, K)), a)
                       /\ Eq(SPow(SMul(SMul(a, a), a), SRat(1, 3, K)), a)
          /\ Pos(SNeg(a)) => SCmp(SPow(a, SRat(1, 2, K)), a) = "na"
Trig == /\ Eq(SAdd(SMul(SSin(a), SSin(a)), SMul(SCos(a), SCos(a))), One)
        /\ Eq(SSin(SAdd(a, b)), SAdd(SMul(SSin(a), SCos(b)), SMul(SCos(a), SSin(b))))
        /\ Eq(SCos(SAdd(a, b)), SSub(SMul(SCos(a), SCos(b)), SMul(SSin(a), SSin(b))))
        /\ Eq(SMul(STan(a), SCos(a)), SSin(a))
        /\ Eq(STan(SAtan(a)), a)
        /\ SMagLe(V0(a), 9, 10) => Eq(SSin(SAsin(a)), a) /\ Eq(SCos(SAcos(a)), a) /\ Eq(SAdd(SAsin(a), SAcos(a)), SMul(SInt(2, K), SAtan(One)))
        /\ Pos(b) => Eq(SAtan2(a, b), SAtan(SDiv(a, b)))
        \* the angle of a point: r cos = x, r sin = y, whatever the quadrant
        /\ (NonZero(a) \/ Pos(b)) => LET r == SPow(SAdd(SMul(a, a), SMul(b, b)), SRat(1, 2, K)) f == SAtan2(a, b)
                         IN  Eq(SMul(r, SCos(f)), b) /\ Eq(SMul(r, SSin(f)), a)
\* the derivative
DEq(x, y) == LET k == IF SOrder(x) < SOrder(y) THEN SOrder(x) ELSE SOrder(y) IN Eq(SCut(x, k), SCut(y, k))
Deriv == /\ DEq(SD(SAdd(a, b)), SAdd(SD(a), SD(b)))
         /\ DEq(SD(SMul(a, b)), SAdd(SMul(SD(a), SCut(b, K - 1)), SMul(SCut(a, K - 1), SD(b))))
         /\ DEq(SD(SSin(a)), SMul(SCos(SCut(a, K - 1)), SD(a)))
         /\ DEq(SD(SCos(a)), SNeg(SMul(SSin(SCut(a, K - 1)), SD(a))))
         /\ DEq(SD(SAtan(a)), SDiv(SD(a), SAdd(SInt(1, K - 1), SMul(SCut(a, K - 1), SCut(a, K - 1)))))
         /\ NonZero(b) => DEq(SD(SDiv(a, b)), SDiv(SSub(SMul(SD(a), SCut(b, K - 1)), SMul(SCut(a, K - 1), SD(b))), SMul(SCut(b, K - 1), SCut(b, K - 1))))
         /\ Pos(a) => DEq(SD(SPow(a, SRat(1, 2, K))), SDiv(SD(a), SMul(SInt(2, K - 1), SPow(SCut(a, K - 1), SRat(1, 2, K - 1)))))
         /\ SOrder(SD(a)) = K - 1
Order == /\ NonZero(a) => Eq(SMul(SSign(a), SAbs(a)), a) /\ Eq(SMul(SAbs(a), SAbs(a)), SMul(a, a))
         /\ NonZero(SSub(a, b)) => /\ Eq(SAdd(V0(SLess(a, b)), V0(SLess(b, a))), SInt(1, 0))
                                   /\ (Eq(V0(SLess(a, b)), SInt(1, 0)) <=> Pos(SSub(b, a)))
                                   /\ Eq(V0(SEqual(a, b)), SInt(0, 0))
         /\ Eq(SIf(One, a, b), a) /\ Eq(SIf(Nul, a, b), b)
\* products of matrices
Matrices == LET m == SMM(<<a, b, c, a>>, 2, 2, 2, <<b, c, a, b>>)  r == SMM(<<a, b, c>>, 1, 3, 1, <<c, a, b>>)
                o == SMM(<<a, b>>, 2, 1, 2, <<b, c>>)
                D(x, y, u, v) == SAdd(SMul(x, y), SMul(u, v))
            IN  /\ Eq(m[1], D(a, b, b, a)) /\ Eq(m[2], D(a, c, b, b)) /\ Eq(m[3], D(c, b, a, a)) /\ Eq(m[4], D(c, c, a, b))
                /\ Eq(r[1], SAdd(D(a, c, b, a), SMul(c, b))) /\ Len(r) = 1
                /\ Eq(o[1], SMul(a, b)) /\ Eq(o[2], SMul(a, c)) /\ Eq(o[3], SMul(b, b)) /\ Eq(o[4], SMul(b, c))
\* the comparison is an equivalence on the base, and tells different values apart
Compare == /\ Eq(a, a)
           /\ (Eq(a, b) <=> Eq(b, a)) /\ (Eq(a, b) /\ Eq(b, c) => Eq(a, c))
           /\ (a # b => ~Eq(a, b))
           /\ SCmp(SAdd(a, SRat(1, 1000000, K)), a) = "ne"
           /\ SReliable(a) /\ SDefined(a)
=============================================================================
