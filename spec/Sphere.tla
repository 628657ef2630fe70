------------------------------- MODULE Sphere -------------------------------
(***************************************************************************)
(* Scalar fields on the unit sphere: points, orthonormal spherical         *)
(* harmonics with Condon-Shortley phase, transforms, operators.            *)
(*                                                                         *)
(* s = [nl, nm, nlat, nphi]: harmonics of degree <= nl and order |m| <= nm *)
(* sampled at nlat Gauss-Legendre colatitudes and nphi equally spaced      *)
(* longitudes.  Vectors of values are in the order (theta, phi) with phi   *)
(* fastest (the "plain" order); Layout maps it to the storage order.       *)
(* Coefficients are kept per order m = 0..nm as two sequences (real and    *)
(* imaginary part) over l = m..nl.                                         *)
(*                                                                         *)
(* SphereMC.tla checks that these definitions fit together: orthonormality *)
(* eigenvalues, ladder relations, gradient square.                         *)
(***************************************************************************)
EXTENDS F64, FiniteSets, TLC, TLCExt

(* Legendre P_{n-1}, P_n at the points x (a vector) *)
RECURSIVE LegPair(_, _)
LegPair(n, x) ==
   IF n = 1 THEN <<VConst(Len(x), F1), x>>
   ELSE LET q == TLCEval(LegPair(n - 1, x)) IN
        <<q[2], VSub(VScale(FRat(2 * n - 1, n), VMul(x, q[2])), VScale(FRat(n - 1, n), q[1]))>>
OneMinusSq(x) == VSub(VConst(Len(x), F1), VMul(x, x))
LegDer(n, x, q) == VDiv(VScale(FInt(n), VSub(VMul(x, q[2]), q[1])), VSub(VMul(x, x), VConst(Len(x), F1)))
RECURSIVE GaussIter(_, _, _)
GaussIter(n, x, k) ==
   IF k = 0 THEN x
   ELSE LET q == TLCEval(LegPair(n, x))
            y == TLCEval(VSub(x, VDiv(q[2], LegDer(n, x, q))))
        IN  GaussIter(n, y, k - 1)
(* cosines of the Gauss-Legendre colatitudes, from the north pole *)
GaussX(n) == GaussIter(n, [j \in 1..n |-> FCos(FDiv(FMul(FPi, FAdd(FInt(j - 1), FRat(3, 4))), FAdd(FInt(n), FHalf)))], 9)
GaussW(n, x) ==
   LET d == TLCEval(LegDer(n, x, TLCEval(LegPair(n, x))))
   IN  VDiv(VConst(n, F2), VMul(OneMinusSq(x), VMul(d, d)))

(* the factors of the recurrence for the orthonormal P_l^m *)
RecA(l, m) == FSqrt(FRat(4 * l * l - 1, l * l - m * m))
RecB(l, m) == FSqrt(FRat((l - 1) * (l - 1) - m * m, 4 * (l - 1) * (l - 1) - 1))
RECURSIVE PCol(_, _, _, _)
(* P_m^m .. P_l^m, given P_m^m *)
PCol(l, m, x, pmm) ==
   IF l = m THEN <<pmm>>
   ELSE LET c == TLCEval(PCol(l - 1, m, x, pmm))
            k == Len(c)
            b == IF l - 1 > m THEN VScale(RecB(l, m), c[k - 1]) ELSE VConst(Len(x), F0)
        IN  Append(c, VScale(RecA(l, m), VSub(VMul(x, c[k]), b)))
RECURSIVE Pmm(_, _)
Pmm(m, st) ==
   IF m = 0 THEN VConst(Len(st), FSqrt(FDiv(F1, FMul(FInt(4), FPi))))
   ELSE VScale(FNeg(FSqrt(FRat(2 * m + 1, 2 * m))), VMul(st, TLCEval(Pmm(m - 1, st))))
(* d/dtheta: sin dP_l^m = l cos P_l^m - sqrt((2l+1)/(2l-1) (l^2-m^2)) P_{l-1}^m *)
DCol(nl, m, x, st, p) ==
   [k \in 1..(nl - m + 1) |->
      LET l == m + k - 1 IN
      IF k = 1 THEN VDiv(VScale(FInt(l), VMul(x, p[1])), st)
      ELSE VDiv(VSub(VScale(FInt(l), VMul(x, p[k])),
                     VScale(FSqrt(FMul(FRat(2 * l + 1, 2 * l - 1), FInt(l * l - m * m))), p[k - 1])), st)]

(* everything that depends on the resolution only *)
SphTable(s) ==
   LET x  == TLCEval(GaussX(s.nlat))
       st == TLCEval(VSqrt(OneMinusSq(x)))
       p  == TLCEval([m \in 1..(s.nm + 1) |-> PCol(s.nl, m - 1, x, TLCEval(Pmm(m - 1, st)))])
       d  == TLCEval([m \in 1..(s.nm + 1) |-> TLCEval(DCol(s.nl, m - 1, x, st, p[m]))])
   IN  [x |-> x, st |-> st, w |-> TLCEval(GaussW(s.nlat, x)), p |-> p, d |-> d,
        \* storage position (from 1) of each point of the plain order when theta is the fastest index
        tofast |-> TLCEval([i \in 1..(s.nlat * s.nphi) |-> s.nlat * ((i - 1) % s.nphi) + (((i - 1) \div s.nphi) + 1)])]

Tab(s) == TLCCache(TLCEval(SphTable(s)), {s})     \* computed once per resolution
SphOf(ob) == [nl |-> ob.nl, nm |-> ob.nm, nlat |-> ob.nlat, nphi |-> ob.nphi]

(* storage <-> plain order: contig means theta is the fastest index *)
Plain(s, contig, v) == IF contig THEN VGather(v, Tab(s).tofast) ELSE v
Stored(s, contig, v) == IF contig THEN VScatter(v, Tab(s).tofast, v) ELSE v
SphIndex(s, contig, it, ip) == IF contig THEN s.nlat * ip + it ELSE s.nphi * it + ip

Theta(s) == VAcos(Tab(s).x)
Phi(s) == [k \in 1..s.nphi |-> FDiv(FMul(FMul(F2, FPi), FInt(k - 1)), FInt(s.nphi))]
NYlm(s) == ((s.nm + 1) * (s.nl + 1)) - ((s.nm * (s.nm + 1)) \div 2)
(* position (from 1) of (l,m), m >= 0, among the real coefficients; of (l,m) among the complex ones *)
LMPos(s, l, m) == ((m * (2 * s.nl + 1 - m)) \div 2) + l + 1
CPos(l, m) == l * (l + 1) + m + 1

------------------------------------------------------------------------------
(* real transforms *)
Analysis(s, v) ==
   LET t == Tab(s)
       c == FDiv(FMul(F2, FPi), FInt(s.nphi))
       w == TLCEval(VScale(c, t.w))
   IN  TLCEval([m \in 1..(s.nm + 1) |->
          [re |-> MatVec(t.p[m], VMul(w, RowCos(v, s.nlat, s.nphi, m - 1))),
           im |-> VScale(FInt(-1), MatVec(t.p[m], VMul(w, RowSin(v, s.nlat, s.nphi, m - 1))))]])
RECURSIVE SumM(_, _, _, _)
SumM(s, tab, A, m) ==
   LET term == RowSyn(VLin(A[m].re, tab[m]), VLin(A[m].im, tab[m]), m - 1, s.nphi)
   IN  IF m = 1 THEN term ELSE VAdd(TLCEval(SumM(s, tab, A, m - 1)), VScale(F2, term))
Synthesis(s, A)   == SumM(s, Tab(s).p, A, s.nm + 1)
SynthesisDth(s, A) == SumM(s, Tab(s).d, A, s.nm + 1)
(* multiply the coefficient (l,m) by the real number fac(l,m) *)
CoefScale(s, A, fac(_, _)) ==
   TLCEval([m \in 1..(s.nm + 1) |->
      LET f == TLCEval([k \in 1..(s.nl - m + 2) |-> fac(m + k - 2, m - 1)])
      IN  [re |-> VMul(f, A[m].re), im |-> VMul(f, A[m].im)]])
(* i*m times each coefficient *)
CoefDphi(s, A) ==
   TLCEval([m \in 1..(s.nm + 1) |-> [re |-> VScale(FInt(1 - m), A[m].im), im |-> VScale(FInt(m - 1), A[m].re)]])
(* interleaved (re,im) sequence in the library's order of (l,m), m >= 0 *)
RECURSIVE FlatCoef(_, _, _)
FlatCoef(s, A, m) ==
   LET here == [k \in 1..(2 * (s.nl - m + 2)) |-> IF k % 2 = 1 THEN A[m].re[(k + 1) \div 2] ELSE A[m].im[k \div 2]]
   IN  IF m = 1 THEN here ELSE TLCEval(FlatCoef(s, A, m - 1)) \o here
Flat(s, A) == FlatCoef(s, A, s.nm + 1)
Unflat(s, c) ==
   TLCEval([m \in 1..(s.nm + 1) |->
      [re |-> [k \in 1..(s.nl - m + 2) |-> c[2 * LMPos(s, m + k - 2, m - 1) - 1]],
       im |-> IF m = 1 THEN VConst(s.nl + 1, F0)     \* a real field has real m = 0 coefficients
              ELSE [k \in 1..(s.nl - m + 2) |-> c[2 * LMPos(s, m + k - 2, m - 1)]]]])
Unit(s, l, m) ==
   TLCEval([mm \in 1..(s.nm + 1) |->
      [re |-> [k \in 1..(s.nl - mm + 2) |-> IF mm = m + 1 /\ mm + k - 2 = l THEN F1 ELSE F0],
       im |-> VConst(s.nl - mm + 2, F0)]])

------------------------------------------------------------------------------
(* complex transforms: a complex field is the pair <<re, im>> of real ones;
   its coefficients are an interleaved sequence indexed by CPos.  For real
   fields f: f_{l,-m} = (-1)^m conj f_{l,m}. *)
Even(x) == [k \in 1..(Len(x) \div 2) |-> x[2 * k - 1]]
Odd(x)  == [k \in 1..(Len(x) \div 2) |-> x[2 * k]]
Weave(u, v) == [k \in 1..(2 * Len(u)) |-> IF k % 2 = 1 THEN u[(k + 1) \div 2] ELSE v[k \div 2]]
SgnM(m) == IF m % 2 = 0 THEN 1 ELSE -1
Abs(m) == IF m < 0 THEN -m ELSE m
(* <<re, im>> of the coefficient (l,m), any sign of m, of the real field with coefficients A *)
RealCoef(s, A, l, m) ==
   IF l < Abs(m) \/ Abs(m) > s.nm THEN <<F0, F0>>
   ELSE LET a == A[Abs(m) + 1]  k == l - Abs(m) + 1 IN
        IF m >= 0 THEN <<a.re[k], a.im[k]>>
        ELSE <<FMul(FInt(SgnM(m)), a.re[k]), FMul(FInt(-SgnM(m)), a.im[k])>>
LOfPos(i, nl) == CHOOSE l \in 0..nl : l * l < i /\ i <= (l + 1) * (l + 1)
CAnalysis(s, z) ==       \* z: interleaved values, plain order
   LET A == Analysis(s, TLCEval(Even(z)))
       B == Analysis(s, TLCEval(Odd(z)))
       one(l, m) == LET a == RealCoef(s, A, l, m)  b == RealCoef(s, B, l, m)
                    IN  <<FSub(a[1], b[2]), FAdd(a[2], b[1])>>
       all == TLCEval([i \in 1..((s.nl + 1) * (s.nl + 1)) |->
                LET l == LOfPos(i, s.nl) IN one(l, i - 1 - l * (l + 1))])
   IN  [k \in 1..(2 * Len(all)) |-> IF k % 2 = 1 THEN all[(k + 1) \div 2][1] ELSE all[k \div 2][2]]
(* coefficients of the real and of the imaginary part of the field with complex coefficients c *)
RePart(s, c) ==
   TLCEval([m \in 1..(s.nm + 1) |->
      LET q == m - 1  g == FInt(SgnM(q)) IN
      [re |-> [k \in 1..(s.nl - q + 1) |-> FMul(FHalf, FAdd(c[2 * CPos(q + k - 1, q) - 1], FMul(g, c[2 * CPos(q + k - 1, -q) - 1])))],
       im |-> [k \in 1..(s.nl - q + 1) |-> FMul(FHalf, FSub(c[2 * CPos(q + k - 1, q)], FMul(g, c[2 * CPos(q + k - 1, -q)])))]]])
ImPart(s, c) ==
   TLCEval([m \in 1..(s.nm + 1) |->
      LET q == m - 1  g == FInt(SgnM(q)) IN
      [re |-> [k \in 1..(s.nl - q + 1) |-> FMul(FHalf, FAdd(c[2 * CPos(q + k - 1, q)], FMul(g, c[2 * CPos(q + k - 1, -q)])))],
       im |-> [k \in 1..(s.nl - q + 1) |-> FMul(FHalf, FSub(FMul(g, c[2 * CPos(q + k - 1, -q) - 1]), c[2 * CPos(q + k - 1, q) - 1]))]]])
CSynthesis(s, c) == Weave(TLCEval(Synthesis(s, RePart(s, c))), TLCEval(Synthesis(s, ImPart(s, c))))

------------------------------------------------------------------------------
(* operators on (the resolved part of) a real field *)
LowPass(s, l) == FExp(FMul(FInt(-40), FPowI(FRat(l, s.nl), 16)))
SphLap(s, v)    == Synthesis(s, CoefScale(s, Analysis(s, v), LAMBDA l, m : FInt(-l * (l + 1))))
SphDphi(s, v)   == Synthesis(s, CoefDphi(s, Analysis(s, v)))
SphFilter(s, v) == Synthesis(s, CoefScale(s, Analysis(s, v), LAMBDA l, m : FMul(LowPass(s, l), LowPass(s, m))))
SphPower(s, v)  ==
   LET A == Analysis(s, v)
       sq(l, m) == LET a == RealCoef(s, A, l, m) IN FAdd(FSq(a[1]), FSq(a[2]))
   IN  [i \in 1..s.nl |-> VSum([k \in 1..(2 * i - 1) |-> sq(i - 1, k - i)])]
(* modes on which the ladder operators stay within the resolved ones *)
Ladder(s, l, m) == IF m + 1 <= s.nm \/ m = l THEN F1 ELSE F0
LadderPart(s, v) == CoefScale(s, Analysis(s, v), LAMBDA l, m : Ladder(s, l, m))
(* what is left of v when the ladder part is taken away, relative to v *)
OutsideLadder(s, v) ==
   VMaxAbs(Flat(s, TLCEval(CoefScale(s, Analysis(s, v), LAMBDA l, m : FSub(F1, Ladder(s, l, m))))))
(* (L+- f)_{l,m} = sqrt((l-+m+1)(l+-m)) f_{l,m-+1} *)
LadderOn(s, A, up) ==
   LET one(l, m) == IF up THEN (IF m = -l THEN <<F0, F0>>
                                ELSE LET f == RealCoef(s, A, l, m - 1)  g == FSqrt(FInt((l - m + 1) * (l + m))) IN <<FMul(g, f[1]), FMul(g, f[2])>>)
                    ELSE (IF m = l THEN <<F0, F0>>
                          ELSE LET f == RealCoef(s, A, l, m + 1)  g == FSqrt(FInt((l + m + 1) * (l - m))) IN <<FMul(g, f[1]), FMul(g, f[2])>>)
       all == TLCEval([i \in 1..((s.nl + 1) * (s.nl + 1)) |->
                LET l == LOfPos(i, s.nl) IN one(l, i - 1 - l * (l + 1))])
   IN  CSynthesis(s, TLCEval([k \in 1..(2 * Len(all)) |-> IF k % 2 = 1 THEN all[(k + 1) \div 2][1] ELSE all[k \div 2][2]]))
SphLadder(s, v, up) == LadderOn(s, LadderPart(s, v), up)
(* The gradient square a grid provides on arbitrary data: ladder results of
   order beyond nm are not representable and dropped.  On the ladder part it
   is the gradient square (SphereMC). *)
SphXCut(s, v) ==
   LET A == Analysis(s, v)
       u == TLCEval(LadderOn(s, A, TRUE))
       d == TLCEval(LadderOn(s, A, FALSE))
       p == TLCEval(Synthesis(s, CoefDphi(s, A)))
   IN  VAdd(VMul(p, p), VSub(VMul(TLCEval(Odd(u)), TLCEval(Odd(d))), VMul(TLCEval(Even(u)), TLCEval(Even(d)))))
SinSq(s) == LET st == Tab(s).st IN TLCEval([i \in 1..(s.nlat * s.nphi) |-> FSq(st[((i - 1) \div s.nphi) + 1])])
SphGradSq(s, v) ==
   LET A == LadderPart(s, v)
       dt == TLCEval(SynthesisDth(s, A))
       dp == TLCEval(Synthesis(s, CoefDphi(s, A)))
   IN  VAdd(VMul(dt, dt), VDiv(VMul(dp, dp), SinSq(s)))

------------------------------------------------------------------------------
(* rounding *)
SphRound(s) == FMul(FInt(32 * (s.nl + 2)), FEps)
SphTol(s, v) == FMul(SphRound(s), VMaxAbs(v))
SphLapTol(s, v) == FMul(FInt(s.nl * (s.nl + 1)), SphTol(s, v))
SphDphiTol(s, v) == FMul(FInt(s.nm + 1), SphTol(s, v))
SphLadderTol(s, v) == FMul(FInt(s.nl + 1), SphTol(s, v))
SphGradSqTol(s, v) == FMul(FInt(2 * (s.nl + 1) * (s.nl + 1)), FMul(VMaxAbs(v), SphTol(s, v)))
SphPowerTol(s, v) == FMul(FInt(4 * (s.nl + 1)), FMul(VMaxAbs(v), SphTol(s, v)))
(* synthesis: values from coefficients *)
SphSynTol(s, c) == FMul(SphRound(s), VSum(VAbs(c)))
=============================================================================
