-------------------------------- MODULE Kerr --------------------------------
(***************************************************************************)
(* A scalar field on the Kerr spacetime in horizon-penetrating coordinates *)
(* (t, r, theta, phi), with u = 1/r, S = 1 + a^2 u^2 cos^2(theta) and      *)
(* D = 1 - 2 m u + a^2 u^2 :                                               *)
(*   g^tt = -(1 + 2 m u/S)   g^tr = 2 m u/S      g^rr = D/S                *)
(*   g^rp = a u^2/S          g^thth = u^2/S      g^pp = u^2/(S sin^2)      *)
(*   sqrt(-g) = r^2 S sin(theta)                                           *)
(* Action: K(f)/2 (grad f)^2 + V(f); p is the time derivative of f.        *)
(* KerrMC.tla checks this inverse metric against the Kerr metric, the wave *)
(* operator against the divergence form, the energy density against the    *)
(* stress tensor, positivity and finiteness.                               *)
(* q = <<dt, m, a, km1, k0, k1, k2, V2, V3, V4>>                           *)
(***************************************************************************)
EXTENDS Grid

(* on one point: u and c = cos(theta)^2 *)
KS(a, u, c) == FAdd(F1, FMul(FSq(FMul(a, u)), c))
KD(m, a, u) == FAdd(FSub(F1, FMul(FMul(F2, m), u)), FSq(FMul(a, u)))
MinusGtt(m, a, u, c) == FAdd(F1, FDiv(FMul(FMul(F2, m), u), KS(a, u, c)))
Gtr(m, a, u, c) == FDiv(FMul(FMul(F2, m), u), KS(a, u, c))
Grr(m, a, u, c) == FDiv(KD(m, a, u), KS(a, u, c))
Grp(m, a, u, c) == FDiv(FMul(a, FSq(u)), KS(a, u, c))
Gang(m, a, u, c) == FDiv(FSq(u), KS(a, u, c))          \* multiplies the unit-sphere operators
(* d_mu (sqrt(-g) g^{mu nu})/sqrt(-g) for nu = t and nu = r *)
DivT(m, a, u, c) == FDiv(FMul(FMul(F2, m), FSq(u)), KS(a, u, c))
DivR(m, a, u, c) == FDiv(FMul(F2, FSub(u, FMul(m, FSq(u)))), KS(a, u, c))

(* 1/r at a compactified radius: 1/R = 1/r + 1/L *)
InvR(cl, R) == FSub(FDiv(F1, R), FDiv(F1, cl))
GU(g, cheb) == LET R == GR(g, cheb) IN [i \in 1..g.n |-> InvR(g.cl, R[i])]
(* every coefficient as a field on the grid (plain order) *)
KCoefs(g, cheb, m, a) ==
   LET u == TLCEval(GU(g, cheb))
       x == Tab(SphOf(g)).x
       at(op(_, _, _, _)) == TLCEval(VFlat([i \in 1..g.n |-> VFlat([j \in 1..g.nlat |-> VConst(g.nphi, op(m, a, u[i], FSq(x[j])))])]))
   IN [tt |-> at(MinusGtt), tr |-> at(Gtr), rr |-> at(Grr), rp |-> at(Grp), ang |-> at(Gang), dt |-> at(DivT), dr |-> at(DivR)]
KC(g, cheb, m, a) == TLCCache(TLCEval(KCoefs(g, cheb, m, a)), {<<g, cheb, m, a>>})

VPow2(f) == VMul(f, f)
(* a/w, a term that is not there when a = 0: f = -1 is then a value like any other *)
VOver(a, w) == IF FLe(FAbs(a), F0) THEN VConst(Len(w), F0) ELSE VDiv(VConst(Len(w), a), w)
KinF(q, f)  == VAdd(VAdd(VOver(q[4], VAdd(f, VConst(Len(f), F1))), VConst(Len(f), q[5])),
                    VAdd(VScale(q[6], f), VScale(FMul(FHalf, q[7]), VPow2(f))))
KinDF(q, f) == VAdd(VSub(VConst(Len(f), q[6]), VOver(q[4], VPow2(VAdd(f, VConst(Len(f), F1))))), VScale(q[7], f))
PotF(q, f)  == VMul(VPow2(f), VAdd(VConst(Len(f), FMul(FHalf, q[8])),
                    VAdd(VScale(FMul(FRat(1, 6), q[9]), f), VScale(FMul(FRat(1, 24), q[10]), VPow2(f)))))
PotDF(q, f) == VMul(f, VAdd(VConst(Len(f), q[8]), VAdd(VScale(FMul(FHalf, q[9]), f), VScale(FMul(FRat(1, 6), q[10]), VPow2(f)))))
(* the same with absolute values: bounds for rounding *)
KinMag(q, f) == VAdd(VAdd(VAbs(VOver(q[4], VAdd(f, VConst(Len(f), F1)))), VConst(Len(f), FAbs(q[5]))),
                     VAdd(VScale(FAbs(q[6]), VAbs(f)), VScale(FMul(FHalf, FAbs(q[7])), VPow2(f))))
KinDMag(q, f) == VAdd(VAdd(VConst(Len(f), FAbs(q[6])), VAbs(VOver(q[4], VPow2(VAdd(f, VConst(Len(f), F1)))))), VScale(FAbs(q[7]), VAbs(f)))
PotMag(q, f) == VMul(VPow2(f), VAdd(VConst(Len(f), FMul(FHalf, FAbs(q[8]))),
                    VAdd(VScale(FMul(FRat(1, 6), FAbs(q[9])), VAbs(f)), VScale(FMul(FRat(1, 24), FAbs(q[10])), VPow2(f)))))
PotDMag(q, f) == VMul(VAbs(f), VAdd(VConst(Len(f), FAbs(q[8])), VAdd(VScale(FMul(FHalf, FAbs(q[9])), VAbs(f)), VScale(FMul(FRat(1, 6), FAbs(q[10])), VPow2(f)))))

(* spatial derivatives of a state, with bounds on their rounding *)
LineNorm(g, cheb) == IF cheb THEN FDiv(FInt(g.n * g.n), FAbs(ChJac(g.lo, g.up))) ELSE FDiv(FInt(32), FAbs(Dx(g)))
GXCut(g, v) == GOnSph(g, v, SphXCut)
Derivs(g, cheb, f, p) ==
   LET dphi == TLCEval(Gdphi(g, f)) IN
   [f_r |-> TLCEval(Gdr(g, cheb, f)), p_r |-> TLCEval(Gdr(g, cheb, p)), f_rr |-> TLCEval(Gddr(g, cheb, f)),
    f_p |-> dphi, f_rp |-> TLCEval(Gdr(g, cheb, dphi)), lap |-> TLCEval(Glap(g, f)), X |-> TLCEval(GXCut(g, f))]
DerivTols(g, cheb, f, p, d) ==
   LET tp == TLCEval(GSphTol(g, f, SphDphiTol)) IN
   [f_r |-> TLCEval(GdrTol(g, cheb, f)), p_r |-> TLCEval(GdrTol(g, cheb, p)), f_rr |-> TLCEval(GddrTol(g, cheb, f)),
    f_p |-> tp,
    f_rp |-> TLCEval(VAdd(GdrTol(g, cheb, d.f_p), VScale(FMul(LineNorm(g, cheb), VMaxAbs(tp)), VAdd(J1(g, cheb), J1Tol(g, cheb))))),
    lap |-> TLCEval(GSphTol(g, f, SphLapTol)), X |-> TLCEval(GSphTol(g, f, SphGradSqTol))]

(* g^{mu nu} d_mu f d_nu f *)
GradSq4(c, p, d) ==
   VAdd(VSub(VMul(c.ang, d.X), VMul(c.tt, VMul(p, p))),
   VAdd(VScale(F2, VMul(c.tr, VMul(p, d.f_r))),
   VAdd(VMul(c.rr, VMul(d.f_r, d.f_r)), VScale(F2, VMul(c.rp, VMul(d.f_r, d.f_p))))))
GradSq4Mag(c, p, d) ==
   VAdd(VAdd(VMul(c.ang, VAbs(d.X)), VMul(c.tt, VMul(p, p))),
   VAdd(VScale(F2, VAbs(VMul(c.tr, VMul(p, d.f_r)))),
   VAdd(VAbs(VMul(c.rr, VMul(d.f_r, d.f_r))), VScale(F2, VAbs(VMul(c.rp, VMul(d.f_r, d.f_p)))))))
GradSq4Tol(c, p, d, e) ==
   VAdd(VMul(c.ang, e.X),
   VAdd(VScale(F2, VAbs(VMul(c.tr, VMul(p, e.f_r)))),
   VAdd(VScale(FInt(3), VAbs(VMul(c.rr, VMul(d.f_r, e.f_r)))),
        VScale(F2, VAdd(VAbs(VMul(c.rp, VMul(e.f_r, VAdd(VAbs(d.f_p), e.f_p)))), VAbs(VMul(c.rp, VMul(d.f_r, e.f_p))))))))
(* K box f + K'/2 (grad f)^2 - V' = 0 solved for d_t p.  KRHS = <<value, bound on rounding>> *)
KLinear(c, p, d) ==
   VAdd(VAdd(VMul(c.dt, p), VMul(c.dr, d.f_r)),
   VAdd(VAdd(VScale(F2, VMul(c.tr, d.p_r)), VMul(c.rr, d.f_rr)),
        VAdd(VScale(F2, VMul(c.rp, d.f_rp)), VMul(c.ang, d.lap))))
KLinearMag(c, p, d) ==
   VAdd(VAdd(VAbs(VMul(c.dt, p)), VAbs(VMul(c.dr, d.f_r))),
   VAdd(VAdd(VScale(F2, VAbs(VMul(c.tr, d.p_r))), VAbs(VMul(c.rr, d.f_rr))),
        VAdd(VScale(F2, VAbs(VMul(c.rp, d.f_rp))), VAbs(VMul(c.ang, d.lap)))))
KLinearTol(c, e) ==
   VAdd(VAbs(VMul(c.dr, e.f_r)),
   VAdd(VAdd(VScale(F2, VAbs(VMul(c.tr, e.p_r))), VAbs(VMul(c.rr, e.f_rr))),
        VAdd(VScale(F2, VAbs(VMul(c.rp, e.f_rp))), VAbs(VMul(c.ang, e.lap)))))
(* rounding of the coefficients at radius R is relative, except that 1/r and
   1 - r_+/r are differences: absolute errors of a few ulps of 1/R, 1/L *)
CoefTol(g) == FMul(FMul(FInt(64), FEps), FAdd(FDiv(F1, FMin(FAbs(g.lo), FAbs(g.up))), FDiv(F1, FAbs(g.cl))))
KRHS(g, cheb, q, f, p) ==
   LET c == KC(g, cheb, q[2], q[3])
       d == TLCEval(Derivs(g, cheb, f, p))
       e == TLCEval(DerivTols(g, cheb, f, p, d))
       k == TLCEval(KinF(q, f))
       km == TLCEval(VDiv(KinMag(q, f), VAbs(k)))
       h == TLCEval(VScale(FHalf, VDiv(KinDF(q, f), k)))
       hm == TLCEval(VMul(km, VScale(FHalf, VDiv(KinDMag(q, f), VAbs(k)))))
       lin == TLCEval(KLinear(c, p, d))
       val == TLCEval(VDiv(VSub(VAdd(lin, VMul(h, GradSq4(c, p, d))), VDiv(PotDF(q, f), k)), c.tt))
       r == FMul(FInt(64), FEps)
       M == FMul(CoefTol(g), FAdd(F1, FMul(FInt(4), FAdd(FAbs(q[2]), FAdd(FAbs(q[3]), FSq(q[3]))))))
       one == VConst(Len(f), F1)
       \* absolute change of the coefficients times what they multiply
       cc == VScale(M, VAdd(VAdd(VAbs(p), VAbs(d.f_r)), VAdd(VAdd(VAbs(d.p_r), VAbs(d.f_rr)), VAdd(VAbs(d.f_rp), VAbs(d.lap)))))
       cg == VScale(M, VMul(hm, VAdd(VMul(p, p), VAdd(VMul(d.f_r, d.f_r), VAdd(VAbs(VMul(d.f_r, d.f_p)), VAbs(d.X))))))
       tol == VAdd(VAdd(VAdd(KLinearTol(c, e), VMul(VAbs(h), GradSq4Tol(c, p, d, e))),
                        VScale(r, VAdd(KLinearMag(c, p, d), VAdd(VMul(hm, GradSq4Mag(c, p, d)), VMul(km, VDiv(PotDMag(q, f), VAbs(k))))))),
                   VAdd(VScale(M, VAbs(val)), VAdd(cc, cg)))
   IN  <<TLCEval(val), TLCEval(tol)>>

(* energy density seen by the normal of the slices: K ((n.df)^2 + (grad f)^2/2) + V,
   n.df = (-g^tt p - g^tr f_r)/sqrt(-g^tt) *)
KRho(g, cheb, q, f, p) ==
   LET c == KC(g, cheb, q[2], q[3])
       d == TLCEval(Derivs(g, cheb, f, p))
       n == TLCEval(VSub(VMul(c.tt, p), VMul(c.tr, d.f_r)))
   IN  VAdd(VMul(KinF(q, f), VAdd(VDiv(VMul(n, n), c.tt), VScale(FHalf, GradSq4(c, p, d)))), PotF(q, f))
KRhoTol(g, cheb, q, f, p) ==
   LET c == KC(g, cheb, q[2], q[3])
       d == TLCEval(Derivs(g, cheb, f, p))
       e == TLCEval(DerivTols(g, cheb, f, p, d))
       M == FMul(CoefTol(g), FAdd(F1, FMul(FInt(4), FAdd(FAbs(q[2]), FAdd(FAbs(q[3]), FSq(q[3]))))))
       mag == VMul(KinMag(q, f), VAdd(VMul(c.tt, VMul(p, p)), VAdd(VMul(c.tr, VMul(d.f_r, d.f_r)), GradSq4Mag(c, p, d))))
       cg == VScale(M, VMul(KinMag(q, f), VAdd(VMul(p, p), VAdd(VMul(d.f_r, d.f_r), VAdd(VAbs(VMul(d.f_r, d.f_p)), VAbs(d.X))))))
       der == VMul(KinMag(q, f), VScale(F2, VAdd(GradSq4Tol(c, p, d, e), VAbs(VMul(c.tr, VMul(d.f_r, e.f_r))))))
   IN  VAdd(VScale(FMul(FInt(64), FEps), VAdd(mag, PotMag(q, f))), VAdd(cg, der))

(* One classical Runge-Kutta step of length dt for f' = p, p' = rhs(f, p)
   from (f0, p0), with bounds on the rounding; rhs gives <<value, bound>>.
   StepMC.tla checks its order and that it needs the old level only. *)
RK4Of(dt, f0, p0, rhs(_, _)) ==
   LET hdt == FMul(FHalf, dt)
       k1 == TLCEval(rhs(f0, p0))
       f1 == TLCEval(VAxpy(hdt, p0, f0))   p1 == TLCEval(VAxpy(hdt, k1[1], p0))
       k2 == TLCEval(rhs(f1, p1))
       f2 == TLCEval(VAxpy(hdt, p1, f0))   p2 == TLCEval(VAxpy(hdt, k2[1], p0))
       k3 == TLCEval(rhs(f2, p2))
       f3 == TLCEval(VAxpy(dt, p2, f0))    p3 == TLCEval(VAxpy(dt, k3[1], p0))
       k4 == TLCEval(rhs(f3, p3))
       w(a, b, c, d) == VScale(FDiv(dt, FInt(6)), VAdd(VAdd(a, d), VScale(F2, VAdd(b, c))))
       e == TLCEval(VScale(FAbs(dt), VAdd(VAdd(k1[2], k2[2]), VAdd(k3[2], k4[2]))))
       wm(a, b, c, d) == VScale(FAbs(dt), VAdd(VAdd(VAbs(a), VAbs(d)), VAdd(VAbs(b), VAbs(c))))
       r == FMul(FInt(16), FEps)
   IN  [f |-> TLCEval(VAdd(f0, w(p0, p1, p2, p3))), p |-> TLCEval(VAdd(p0, w(k1[1], k2[1], k3[1], k4[1]))),
        ftol |-> TLCEval(VAdd(VScale(FAbs(dt), e), VScale(r, VAdd(VAbs(f0), wm(p0, p1, p2, p3))))),
        ptol |-> TLCEval(VAdd(e, VScale(r, VAdd(VAbs(p0), wm(k1[1], k2[1], k3[1], k4[1])))))]
RK4(g, cheb, q, f0, p0) == RK4Of(q[1], f0, p0, LAMBDA f, p : KRHS(g, cheb, q, f, p))
=============================================================================
