-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* The three-dimensional grid: a radial grid in the compactified radius R  *)
(* times a sphere.  g = [n, lo, up, cl, nl, nm, nlat, nphi].               *)
(*                                                                         *)
(* Plain order of values: radius slowest, then theta, phi fastest.  The    *)
(* storage order is one of two layouts; GPlain/GIndex describe it.         *)
(* An operator is lifted from lines or shells; with it a bound on the      *)
(* rounding is lifted in the same way.                                     *)
(***************************************************************************)
EXTENDS F64, FiniteDiff, Chebyshev, Sphere, TLC, TLCExt

GN2(g) == g.nlat * g.nphi
GSize(g) == g.n * GN2(g)
GIndex(g, contig, ix, it, ip) == GN2(g) * ix + SphIndex(SphOf(g), contig, it, ip)
GTable(n, nlat, nphi) ==
   [i \in 1..(n * nlat * nphi) |->
      LET q == (i - 1) % (nlat * nphi)  ix == (i - 1) \div (nlat * nphi)
      IN  (nlat * nphi * ix) + (nlat * (q % nphi)) + (q \div nphi) + 1]
GTab(g) == TLCCache(TLCEval(GTable(g.n, g.nlat, g.nphi)), {<<g.n, g.nlat, g.nphi>>})
GPlain(g, contig, v) == IF contig THEN VGather(v, GTab(g)) ELSE v
GStored(g, contig, v) == IF contig THEN VScatter(v, GTab(g), v) ELSE v

(* shells and lines of a field in plain order *)
Shell(g, v, ix) == SubSeq(v, (ix - 1) * GN2(g) + 1, ix * GN2(g))
Shells(g, v) == VCut(v, GN2(g))
Lines(g, v) == VCut(VTrans(v, g.n, GN2(g)), g.n)
FromLines(g, ls) == VTrans(VFlat(ls), GN2(g), g.n)
OnShells(g, v, op(_)) == LET sh == TLCEval(Shells(g, v)) IN VFlat([i \in 1..g.n |-> op(sh[i])])
OnLines(g, v, op(_)) == LET ls == TLCEval(Lines(g, v)) IN FromLines(g, [i \in 1..GN2(g) |-> op(ls[i])])
(* a function of the radius only / of the angle only, on the whole grid *)
Radially(g, w) == VFlat([i \in 1..g.n |-> VConst(GN2(g), w[i])])
ByShell(g, v, op(_)) == Radially(g, LET sh == TLCEval(Shells(g, v)) IN [i \in 1..g.n |-> op(sh[i])])

(* coordinates *)
GR(g, cheb) == TLCEval(IF cheb THEN ChPts(g.n, g.lo, g.up) ELSE FDPts(g.n, g.lo, g.up))
(* r = R/(1 - R/L) *)
RtoR(cl, R) == FDiv(R, FSub(F1, FDiv(R, cl)))
Jac1(g, R) == FSq(FSub(F1, FDiv(R, g.cl)))
Jac2(g, R) == FMul(FDiv(FInt(-2), g.cl), FPowI(FSub(F1, FDiv(R, g.cl)), 3))
GJ1(g, cheb) == TLCCache(TLCEval(LET R == GR(g, cheb) IN [i \in 1..g.n |-> Jac1(g, R[i])]), {<<g.n, g.lo, g.up, g.cl, cheb>>})
GJ2(g, cheb) == TLCCache(TLCEval(LET R == GR(g, cheb) IN [i \in 1..g.n |-> Jac2(g, R[i])]), {<<g.n, g.lo, g.up, g.cl, cheb>>})
(* how far 1 - R/L may be off by the rounding of R: absolute *)
JacTol(g) == FMul(FMul(FInt(32), FEps), FDiv(FMax(FAbs(g.lo), FAbs(g.up)), FAbs(g.cl)))

(* operators, on plain-order fields *)
Dx(ob) == FDDx(ob.n, ob.lo, ob.up)
RoundFD == FMul(FInt(64), FEps)
LineD1(g, cheb, x)    == IF cheb THEN ChDer(g.n, g.lo, g.up, x) ELSE FDDer(g.n, Dx(g), x)
LineD1Tol(g, cheb, x) == IF cheb THEN VConst(g.n, ChDerTol(g.n, g.lo, g.up, x)) ELSE VScale(RoundFD, FDDerMag(g.n, Dx(g), x))
LineD2(g, cheb, x)    == IF cheb THEN ChDer(g.n, g.lo, g.up, TLCEval(ChDer(g.n, g.lo, g.up, x))) ELSE FDDer2(g.n, Dx(g), x)
LineD2Tol(g, cheb, x) ==
   IF cheb THEN VConst(g.n, FAdd(ChDerTol(g.n, g.lo, g.up, TLCEval(ChDer(g.n, g.lo, g.up, x))),
                                 FMul(FDiv(FInt(g.n * g.n), FAbs(ChJac(g.lo, g.up))), ChDerTol(g.n, g.lo, g.up, x))))
   ELSE VScale(RoundFD, FDDer2Mag(g.n, Dx(g), x))
LineFilter(g, cheb, x) ==
   LET y == TLCEval(IF cheb THEN ChFilter(g.n, x) ELSE FDFilter(g.n, x))
   IN  <<x[1]>> \o SubSeq(y, 2, g.n - 1) \o <<x[g.n]>>
LineFilterTol(g, cheb, x) ==
   LET y == TLCEval(IF cheb THEN VConst(g.n, ChTol(g.n, x)) ELSE VScale(RoundFD, FDFilterMag(g.n, x)))
   IN  <<F0>> \o SubSeq(y, 2, g.n - 1) \o <<F0>>

GdR(g, cheb, v)    == OnLines(g, v, LAMBDA x : LineD1(g, cheb, x))
GdRTol(g, cheb, v) == OnLines(g, v, LAMBDA x : LineD1Tol(g, cheb, x))
GdR2(g, cheb, v)    == OnLines(g, v, LAMBDA x : LineD2(g, cheb, x))
GdR2Tol(g, cheb, v) == OnLines(g, v, LAMBDA x : LineD2Tol(g, cheb, x))
J1(g, cheb) == Radially(g, GJ1(g, cheb))
J2(g, cheb) == Radially(g, GJ2(g, cheb))
Gdr(g, cheb, v) == VMul(J1(g, cheb), GdR(g, cheb, v))
(* J = (1-R/L)^2: relative error 2 JacTol/(1-R/L), absolute 2 (1-R/L) JacTol + JacTol^2 *)
J1Tol(g, cheb) == LET e == JacTol(g) IN
   VAdd(VScale(FMul(F2, e), VSqrt(VAbs(J1(g, cheb)))), VConst(GSize(g), FSq(e)))
J2Tol(g, cheb) == LET e == JacTol(g)  c == FDiv(FInt(6), FAbs(g.cl)) IN
   VScale(c, VAdd(VScale(e, VAdd(J1(g, cheb), VConst(GSize(g), FSq(e)))), VScale(FSq(e), VSqrt(J1(g, cheb)))))
GdrTol(g, cheb, v) ==
   VAdd(VMul(VAdd(J1(g, cheb), J1Tol(g, cheb)), GdRTol(g, cheb, v)), VMul(J1Tol(g, cheb), VAbs(GdR(g, cheb, v))))
Gddr(g, cheb, v) ==
   LET j == J1(g, cheb) IN
   VAdd(VMul(J2(g, cheb), GdR(g, cheb, v)), VMul(VMul(j, j), GdR2(g, cheb, v)))
GddrTol(g, cheb, v) ==
   LET j == TLCEval(J1(g, cheb))  dj == TLCEval(J1Tol(g, cheb))
       k == TLCEval(VAbs(J2(g, cheb)))  dk == TLCEval(J2Tol(g, cheb))
       d1 == TLCEval(VAbs(GdR(g, cheb, v)))   d2 == TLCEval(VAbs(GdR2(g, cheb, v)))
       e1 == TLCEval(GdRTol(g, cheb, v))      e2 == TLCEval(GdR2Tol(g, cheb, v))
       jj == TLCEval(VMul(VAdd(j, dj), VAdd(j, dj)))
   IN  VAdd(VAdd(VMul(VAdd(k, dk), e1), VMul(dk, d1)),
            VAdd(VMul(jj, e2), VMul(VSub(jj, VMul(j, j)), d2)))

GOnSph(g, v, op(_, _)) == OnShells(g, v, LAMBDA x : op(SphOf(g), x))
GSphTol(g, v, tol(_, _)) == ByShell(g, v, LAMBDA x : tol(SphOf(g), x))
Gdphi(g, v) == GOnSph(g, v, SphDphi)
Glap(g, v)  == GOnSph(g, v, SphLap)
GX(g, v)    == GOnSph(g, v, SphGradSq)
GShellFilter(g, v) == GOnSph(g, v, SphFilter)
GFilter(g, cheb, v) == OnLines(g, TLCEval(GShellFilter(g, v)), LAMBDA x : LineFilter(g, cheb, x))
(* rounding of the shell filter, spread by the radial one along each line *)
GFilterTol(g, cheb, v) ==
   LET y == TLCEval(GShellFilter(g, v))
       e == TLCEval(GSphTol(g, v, SphTol))
       most == FMul(FInt(4), VMaxAbs(e))
       spread(x) == IF cheb THEN <<x[1]>> \o VConst(g.n - 2, most) \o <<x[g.n]>>
                    ELSE [i \in 1..g.n |-> IF i <= 4 \/ i > g.n - 4 THEN x[i] ELSE FMul(F2, VMaxAbs(SubSeq(x, i - 4, i + 4)))]
   IN  VAdd(OnLines(g, y, LAMBDA x : LineFilterTol(g, cheb, x)), OnLines(g, e, spread))
(* power spectrum: nl entries per shell *)
GPower(g, v) == LET sh == TLCEval(Shells(g, v)) IN VFlat([i \in 1..g.n |-> SphPower(SphOf(g), sh[i])])
GPowerTol(g, v) == LET sh == TLCEval(Shells(g, v)) IN VFlat([i \in 1..g.n |-> VConst(g.nl, SphPowerTol(SphOf(g), sh[i]))])
(* Chebyshev coefficients, for each degree l, of the square root of the power *)
GNl(g, v) == VTrans(VFlat(LET rt == TLCEval(VCut(VTrans(VSqrt(VAbs(GPower(g, v))), g.n, g.nl), g.n))
                          IN  [l \in 1..g.nl |-> ChCoef(g.n, rt[l])]), g.nl, g.n)
GNlTol(g, v) == VConst(g.n * g.nl, FAdd(FMul(FInt(8), VMaxAbs(VSqrt(GPowerTol(g, v)))), ChTol(g.n, TLCEval(VSqrt(VAbs(GPower(g, v)))))))

(* diagnostics *)
GResidual(g, dt, fn, fnp1, p) ==
   LET d == VSub(p, VScale(FDiv(F1, dt), VSub(fnp1, fn)))
   IN  FSqrt(FDiv(VDot(d, d), FInt(Len(p))))
GResidualMag(g, dt, fn, fnp1, p) ==
   FAdd(VMaxAbs(p), FMul(FAbs(FDiv(F1, dt)), FAdd(VMaxAbs(fn), VMaxAbs(fnp1))))
GTotalVar(g, v) ==      \* v in plain order
   LET at(ix, it, ip) == v[(GN2(g) * ix) + (g.nphi * it) + ip + 1]
       pts == [q \in 1..((g.n - 1) * (g.nlat - 1) * (g.nphi - 1)) |->
                 LET ip == (q - 1) % (g.nphi - 1)
                     it == ((q - 1) \div (g.nphi - 1)) % (g.nlat - 1)
                     ix == (q - 1) \div ((g.nphi - 1) * (g.nlat - 1))
                     a == at(ix, it, ip)
                 IN FSqrt(FAdd(FAdd(FSq(FSub(at(ix + 1, it, ip), a)), FSq(FSub(at(ix, it + 1, ip), a))), FSq(FSub(at(ix, it, ip + 1), a))))]
   IN  FDiv(VSum(pts), FInt(GSize(g)))
=============================================================================
