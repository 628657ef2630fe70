------------------------------ MODULE PulseMC -------------------------------
(***************************************************************************)
(* The pulse profile of InitialData: zero outside, positive inside, zero   *)
(* with zero slope at both ends, its stated slope is its derivative; the   *)
(* fields are scaled to the amplitude, ingoing and outgoing data differ by *)
(* the sign of the rate only.                                              *)
(***************************************************************************)
EXTENDS InitialData
VARIABLES rl, w, i
MCInit == rl \in {-3, 0, 1, 5} /\ w \in {1, 3, 40} /\ i \in -2..34
MCNext == UNCHANGED <<rl, w, i>>
MCSpec == MCInit /\ [][MCNext]_<<rl, w, i>>
RL == FInt(rl)
RU == FInt(rl + w)
At == FAdd(RL, FRat(i * w, 32))
Hst == FRat(w, 100000)
Support == IF i <= 0 \/ i >= 32 THEN Profile(RL, RU, At) = F0 /\ Slope(RL, RU, At) = F0
           ELSE FLt(F0, Profile(RL, RU, At))
SlopeIsDerivative ==
   (i > 1 /\ i < 31) =>
      LET d == FDiv(FSub(Profile(RL, RU, FAdd(At, Hst)), Profile(RL, RU, FSub(At, Hst))), FMul(F2, Hst))
          s == Slope(RL, RU, At)
      IN  FNear(d, s, FAdd(FMul(FDec("1e-5"), FAbs(s)), FDiv(FMul(FDec("1e-5"), Profile(RL, RU, At)), FInt(w))))
FlatEnds ==
   \A e \in {FDec("1e-2"), FDec("5e-3")} :
      FLt(FMul(FInt(w), FAbs(Slope(RL, RU, FAdd(RL, FMul(e, FInt(w)))))), FDec("1e-20"))
(* the formula of the code, term by term *)
G1 == [n |-> 9, lo |-> FRat(3, 2), up |-> FInt(20), cl |-> FInt(20), nl |-> 2, nm |-> 1, nlat |-> 4, nphi |-> 3]
ID(d, a) == [dir |-> d, amp |-> a, rl |-> FRat(11, 5), ru |-> FInt(30), l |-> 2, m |-> 1]
ASSUME \A cheb \in BOOLEAN :
   LET x == TLCEval(IDFields(G1, cheb, ID("ingoing", FHalf)))
       y == TLCEval(IDFields(G1, cheb, ID("outgoing", FHalf)))
       z == TLCEval(IDFields(G1, cheb, ID("time_symmetric", FHalf)))
       n == TLCEval(IDFields(G1, cheb, ID("ingoing", FInt(-1))))
   IN /\ FNear(VMaxAbs(x.f), FHalf, FMul(FInt(4), FEps))
      /\ x.f = y.f /\ x.f = z.f
      /\ VFirstFar(x.p, VScale(FInt(-1), y.p), VConst(Len(x.p), F0)) = 0
      /\ VMaxAbs(z.p) = F0 /\ FLt(F0, VMaxAbs(x.p))
      /\ VFirstFar(n.f, VScale(FInt(-2), x.f), VConst(Len(x.f), FMul(FInt(4), FEps))) = 0
      /\ FLt(VMaxAbs(x.ftol), FDec("1e-10")) /\ FLt(VMaxAbs(x.ptol), FDec("1e-10"))
=============================================================================
