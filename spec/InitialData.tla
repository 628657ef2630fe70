----------------------------- MODULE InitialData -----------------------------
(***************************************************************************)
(* The compact harmonic pulse.  With x = (r-rl)/w, y = (ru-r)/w, w = ru-rl *)
(* the radial profile is x^4 y^4 exp(-1/x) exp(-2/y) between rl and ru and *)
(* zero elsewhere; its r-derivative is the profile times                   *)
(* (4/x - 4/y + 1/x^2 - 2/y^2)/w.  All in plain order.                     *)
(***************************************************************************)
EXTENDS Grid

(* areal radius of a grid point: anything beyond 1e12 counts as infinity *)
Far == FDec("1e12")
IDr(g, R) == LET r == RtoR(g.cl, R) IN IF FIsFinite(r) /\ FLe(F0, r) /\ FLt(r, Far) THEN r ELSE Far
IDr_err(g, r) == FMul(FMul(FInt(64), FEps), FMul(r, FAdd(F1, FDiv(r, FAbs(g.cl)))))
Inside(rl, ru, r) == FLt(rl, r) /\ FLt(r, ru)
Profile(rl, ru, r) ==
   IF ~Inside(rl, ru, r) THEN F0
   ELSE LET w == FSub(ru, rl)  x == FDiv(FSub(r, rl), w)  y == FDiv(FSub(ru, r), w)
        IN  FMul(FMul(FPowI(x, 4), FPowI(y, 4)), FExp(FNeg(FAdd(FDiv(F1, x), FDiv(F2, y)))))
LogSlope(rl, ru, r) ==
   LET w == FSub(ru, rl)  x == FDiv(FSub(r, rl), w)  y == FDiv(FSub(ru, r), w)
   IN  FDiv(FAdd(FSub(FDiv(FInt(4), x), FDiv(FInt(4), y)), FSub(FDiv(F1, FSq(x)), FDiv(F2, FSq(y)))), w)
LogSlopeMag(rl, ru, r) ==
   LET w == FSub(ru, rl)  x == FDiv(FSub(r, rl), w)  y == FDiv(FSub(ru, r), w)
   IN  FDiv(FAdd(FAdd(FDiv(FInt(4), x), FDiv(FInt(4), y)), FAdd(FDiv(F1, FSq(x)), FDiv(F2, FSq(y)))), w)
Slope(rl, ru, r) == IF Inside(rl, ru, r) THEN FMul(Profile(rl, ru, r), LogSlope(rl, ru, r)) ELSE F0
ProfileTol(g, rl, ru, r) ==
   IF ~Inside(rl, ru, r) THEN F0
   ELSE FMul(Profile(rl, ru, r), FAdd(FMul(FInt(64), FEps), FMul(LogSlopeMag(rl, ru, r), FAdd(IDr_err(g, r), FMul(FMul(FInt(8), FEps), FAdd(FAbs(rl), FAbs(ru)))))))
SlopeTol(g, rl, ru, r) ==
   IF ~Inside(rl, ru, r) THEN F0
   ELSE LET s == LogSlopeMag(rl, ru, r) IN
        FMul(Profile(rl, ru, r), FMul(s, FAdd(FMul(FInt(64), FEps), FMul(FMul(FInt(4), s), FAdd(IDr_err(g, r), FMul(FMul(FInt(8), FEps), FAdd(FAbs(rl), FAbs(ru))))))))

(* id = [dir, amp, rl, ru, l, m] *)
IDSign(dir) == CASE dir = "ingoing" -> F1 [] dir = "outgoing" -> FInt(-1) [] OTHER -> F0
Outer(g, rad, ang) == VFlat([i \in 1..g.n |-> VScale(rad[i], ang)])
IDFields(g, cheb, id) ==
   LET R == GR(g, cheb)
       r == TLCEval([i \in 1..g.n |-> IDr(g, R[i])])
       s == SphOf(g)
       Y == TLCEval(Synthesis(s, Unit(s, id.l, id.m)))
       Ymag == VConst(GN2(g), FMul(SphRound(s), F2))
       B == TLCEval([i \in 1..g.n |-> Profile(id.rl, id.ru, r[i])])
       S == TLCEval([i \in 1..g.n |-> FMul(IDSign(id.dir), Slope(id.rl, id.ru, r[i]))])
       BT == TLCEval([i \in 1..g.n |-> ProfileTol(g, id.rl, id.ru, r[i])])
       ST == TLCEval([i \in 1..g.n |-> IF IDSign(id.dir) = F0 THEN F0 ELSE SlopeTol(g, id.rl, id.ru, r[i])])
       f == TLCEval(Outer(g, B, Y))
       p == TLCEval(Outer(g, S, Y))
       ft == TLCEval(VAdd(Outer(g, BT, VAdd(VAbs(Y), Ymag)), Outer(g, B, Ymag)))
       pt == TLCEval(VAdd(Outer(g, ST, VAdd(VAbs(Y), Ymag)), Outer(g, VAbs(S), Ymag)))
       most == VMaxAbs(f)
       k == IF FLt(F0, most) THEN FDiv(id.amp, most) ELSE F1
       rel == IF FLt(F0, most) THEN FAdd(FMul(FInt(16), FEps), FDiv(FMul(F2, VMaxAbs(ft)), most)) ELSE F0
   IN  [f |-> TLCEval(VScale(k, f)), p |-> TLCEval(VScale(k, p)), most |-> most,
        ftol |-> TLCEval(VScale(FAbs(k), VAdd(ft, VScale(rel, VAbs(f))))),
        ptol |-> TLCEval(VScale(FAbs(k), VAdd(pt, VScale(rel, VAbs(p)))))]
=============================================================================
