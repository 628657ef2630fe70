------------------------------ MODULE SphereMC ------------------------------
(***************************************************************************)
(* Exhaustive checks of the sphere specification itself, for every mode of *)
(* every resolution in Cfgs:                                               *)
(*  - the points are the zeros of P_nlat in order, the weights integrate;  *)
(*  - the harmonics of low degree are the textbook ones (norm and phase);  *)
(*  - analysis and synthesis are inverse on the mode, real and complex;    *)
(*  - the ladder relation is the differential operator                     *)
(*    e^{+-i phi}(+-d_theta + i cot(theta) d_phi);                          *)
(*  - -(L+f)(L-f) + (d_phi f)^2 is the gradient square;                    *)
(*  - L-L+ + Lz^2 + Lz = l(l+1), as integers;                              *)
(*  - filter factors in [0,1], decreasing, 1 at the mean.                  *)
(***************************************************************************)
EXTENDS Sphere
CONSTANT MaxL
Cfgs == {[nl |-> L, nm |-> M, nlat |-> L + 1 + (L % 3), nphi |-> 2 * M + 1 + (L % 4)] : L \in 1..MaxL, M \in 0..MaxL}
Good == {s \in Cfgs : s.nm <= s.nl}
VARIABLES s, l, m
N == s.nlat * s.nphi
T == Tab(s)
Eps(k) == FMul(FInt(k * (s.nl + 2) * (s.nl + 2)), FEps)
Close(u, v, k) == VFirstFar(u, v, VConst(Len(u), Eps(k))) = 0
F == Synthesis(s, Unit(s, l, m))
PointsOK ==
   /\ \A j \in 1..(s.nlat - 1) : FLt(T.x[j + 1], T.x[j])
   /\ FLt(T.x[1], F1) /\ FLt(FInt(-1), T.x[s.nlat])
   /\ Close(LegPair(s.nlat, T.x)[2], VConst(s.nlat, F0), 64)
   /\ FNear(VSum(T.w), F2, Eps(16))
   /\ \A k \in 0..(2 * s.nlat - 1) :       \* exact for polynomials up to degree 2 nlat - 1
        FNear(VDot(T.w, [j \in 1..s.nlat |-> FPowI(T.x[j], k)]), IF k % 2 = 1 THEN F0 ELSE FRat(2, k + 1), Eps(16))
(* P_l^m for l <= 2, from tables *)
Pi4 == FMul(FInt(4), FPi)
Book(x, q) ==
   CASE l = 0 -> FSqrt(FDiv(F1, Pi4))
     [] l = 1 /\ m = 0 -> FMul(FSqrt(FDiv(FInt(3), Pi4)), x)
     [] l = 1 /\ m = 1 -> FNeg(FMul(FSqrt(FDiv(FInt(3), FMul(F2, Pi4))), q))
     [] l = 2 /\ m = 0 -> FMul(FSqrt(FDiv(FInt(5), FMul(FInt(4), Pi4))), FSub(FMul(FInt(3), FSq(x)), F1))
     [] l = 2 /\ m = 1 -> FNeg(FMul(FSqrt(FDiv(FInt(15), FMul(F2, Pi4))), FMul(x, q)))
     [] l = 2 /\ m = 2 -> FMul(FSqrt(FDiv(FInt(15), FMul(FInt(8), Pi4))), FSq(q))
Textbook == l <= 2 => Close(T.p[m + 1][l - m + 1], [j \in 1..s.nlat |-> Book(T.x[j], T.st[j])], 16)
RoundTrip == Close(Flat(s, Analysis(s, F)), Flat(s, Unit(s, l, m)), 16)
FlatTrip == Unflat(s, Flat(s, Unit(s, l, m))) = Unit(s, l, m)
Norm == LET c == FDiv(FMul(F2, FPi), FInt(s.nphi))      \* integral of F^2 over the sphere: 1, or 2 for m > 0
        IN  FNear(FMul(c, VSum([i \in 1..N |-> FMul(T.w[((i - 1) \div s.nphi) + 1], FSq(F[i]))])),
                  IF m = 0 THEN F1 ELSE F2, Eps(32))
CUnit(k, c) == [i \in 1..(2 * (s.nl + 1) * (s.nl + 1)) |-> IF i = 2 * CPos(l, k) - (IF c THEN 0 ELSE 1) THEN F1 ELSE F0]
ComplexTrip == \A k \in {m, -m} : \A c \in BOOLEAN : Close(CAnalysis(s, TLCEval(CSynthesis(s, CUnit(k, c)))), CUnit(k, c), 16)
(* e^{i phi}(d_theta + i cot d_phi) f as an interleaved complex field *)
CosT == [i \in 1..N |-> FDiv(T.x[((i - 1) \div s.nphi) + 1], T.st[((i - 1) \div s.nphi) + 1])]
CosP == [i \in 1..N |-> CosPiRat(2 * ((i - 1) % s.nphi), s.nphi)]
SinP == [i \in 1..N |-> SinPiRat(2 * ((i - 1) % s.nphi), s.nphi)]
Raised(sgn) ==
   LET dt == TLCEval(SynthesisDth(s, Unit(s, l, m)))
       cp == TLCEval(VMul(CosT, Synthesis(s, CoefDphi(s, Unit(s, l, m)))))
       g  == FInt(sgn)
   IN  Weave(VSub(VScale(g, VMul(CosP, dt)), VScale(g, VMul(SinP, cp))),
             VAdd(VMul(SinP, dt), VMul(CosP, cp)))
InLadder == m + 1 <= s.nm \/ m = l
LadderOK == InLadder => /\ Close(SphLadder(s, F, TRUE), Raised(1), 64)
                        /\ Close(SphLadder(s, F, FALSE), Raised(-1), 64)
GradOK == InLadder =>
   LET u == SphLadder(s, F, TRUE)  d == SphLadder(s, F, FALSE)  p == SphDphi(s, F)
   IN  Close(SphGradSq(s, F),
             [i \in 1..N |-> FSub(FSq(p[i]), FSub(FMul(u[2 * i - 1], d[2 * i - 1]), FMul(u[2 * i], d[2 * i])))], 256 * (s.nl + 1))
XCutOK == InLadder => Close(SphXCut(s, F), SphGradSq(s, F), 256 * (s.nl + 1))
Casimir == (l - m) * (l + m + 1) + m * m + m = l * (l + 1)
LapOK == Close(SphLap(s, F), VScale(FInt(-l * (l + 1)), F), 64)
PowerOK == Close(SphPower(s, F), [i \in 1..s.nl |-> IF i # l + 1 THEN F0 ELSE IF m = 0 THEN F1 ELSE F2], 64)
FilterOK == LET f == LowPass(s, l) IN
   /\ FLe(F0, f) /\ FLe(f, F1) /\ (l > 0 => FLe(f, LowPass(s, l - 1))) /\ LowPass(s, 0) = F1
   /\ Close(SphFilter(s, F), VScale(FMul(f, LowPass(s, m)), F), 32)
LayoutOK ==     \* storage positions are a bijection in both layouts
   \A c \in BOOLEAN : {SphIndex(s, c, a, b) : a \in 0..(s.nlat - 1), b \in 0..(s.nphi - 1)} = 0..(N - 1)
LayoutTrip == LET v == [i \in 1..N |-> FInt(i)] IN
   \A c \in BOOLEAN : /\ Plain(s, c, Stored(s, c, v)) = v
                      /\ \A a \in 0..(s.nlat - 1), b \in 0..(s.nphi - 1) : Stored(s, c, v)[SphIndex(s, c, a, b) + 1] = v[s.nphi * a + b + 1]
PositionsOK == {LMPos(s, ab[1], ab[2]) : ab \in {cd \in (0..s.nl) \X (0..s.nm) : cd[2] <= cd[1]}} = 1..NYlm(s)
Init == s \in Good /\ l = 0 /\ m = 0
Next == \/ m < l /\ m < s.nm /\ m' = m + 1 /\ UNCHANGED <<s, l>>
        \/ (m = l \/ m = s.nm) /\ l < s.nl /\ l' = l + 1 /\ m' = 0 /\ UNCHANGED s
Spec == Init /\ [][Next]_<<s, l, m>>
=============================================================================
