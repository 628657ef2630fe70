----------------------------- MODULE SymmetryMC -----------------------------
(***************************************************************************)
(* Every symmetry of module Symmetry is one of the specified equation:     *)
(* for grids, couplings, spins and states of several kinds the rate of     *)
(* change, the filter, the energy density and the Runge-Kutta step of the  *)
(* image are the image of the rate, filter, density and step; words undo   *)
(* and commute as the group does.  Wrong = TRUE adds "half", the mirror    *)
(* without the spin, which must be refuted.                                *)
(***************************************************************************)
EXTENDS Symmetry
CONSTANTS Wrong, Shapes
VARIABLES g, q, w, s, stage
Qs == { \* dt, m, a, km1, k0, k1, k2, V2, V3, V4
   <<FRat(1, 100), F1, FRat(9, 10), F0, F1, F0, F0, F0, F0, F0>>,
   <<FRat(1, 100), F1, F1, F0, F1, F0, F0, FRat(1, 2), F0, F0>>,
   <<FRat(1, 50), FRat(1, 2), FRat(-2, 5), F0, F1, FRat(1, 2), FRat(-1, 4), F1, FRat(3, 2), F2>>,
   <<FRat(1, 50), FRat(3, 2), F0, FRat(1, 2), F1, FRat(1, 4), F1, F1, FRat(-1, 2), F1>> }
Letters(g_) == {<<"turn", j>> : j \in 1..(g_.nphi - 1)} \cup {<<"flip", 0>>, <<"mirror", 0>>, <<"sign", 0>>, <<"size", 3>>, <<"size", -2>>}
               \cup (IF Wrong THEN {<<"half", 0>>} ELSE {})
G(n, l, m, dl, dp, up) == [n |-> n, lo |-> FRat(3, 2), up |-> FInt(up), cl |-> FInt(10), nl |-> l, nm |-> m, nlat |-> l + 1 + dl, nphi |-> 2 * m + 1 + dp]
AllShapes == IF Shapes = "few" THEN {G(9, 2, 1, 0, 1, 10), G(10, 2, 2, 1, 0, 8)}
             ELSE {G(n, l, m, dl, dp, up) : n \in {9, 12}, l \in 1..3, m \in 0..2, dl \in 0..1, dp \in 0..1, up \in {8, 10}}
MCInit == /\ g \in {h \in AllShapes : h.nm <= h.nl} /\ q \in Qs /\ s \in 1..2
          /\ env \in [cheb : BOOLEAN, contig : {FALSE}] /\ objs = <<>> /\ bufs = <<>> /\ files = <<>>
          /\ w = <<>> /\ stage = 0
MCNext == /\ stage < (IF s = 1 THEN 2 ELSE 1) /\ \E x \in Letters(g) :
               /\ (IF x[1] = "half" THEN TRUE ELSE Words(Append(w, x), q)) /\ (IF stage = 1 THEN x[1] # w[1][1] /\ x[1] # "half" /\ w[1][1] # "half" ELSE TRUE)
               /\ w' = Append(w, x)
          /\ stage' = stage + 1 /\ UNCHANGED <<g, q, s, SVars>>
MCSpec == MCInit /\ [][MCNext]_<<g, q, w, s, stage, SVars>>
(* a state without any symmetry of its own, of size below 1/2 *)
Wave(a, b) == [i \in 1..GSize(g) |-> FMul(FRat(a, 10), FSin(FDiv(FInt((i * i * b) + (7 * i)), FInt(40))))]
f == Wave(IF s = 1 THEN 4 ELSE 1, 3)
p == Wave(IF s = 1 THEN 3 ELSE 9, 5)
Half == w # <<>> /\ w[1][1] = "half"
W == IF Half THEN <<<<"mirror", 0>>>> ELSE w
MQ == IF Half THEN q ELSE MoveQ(W, q)
MG == MoveGrid(W, g)
Same(x, y, tol) == Near(x, y, VAdd(TLCEval(VScale(F2, tol)), VConst(Len(tol), FMul(FDec("1e-12"), FAdd(F1, VMaxAbs(y)))))) = 0
Commutes ==
   w # <<>> =>
   \E f1 \in {TLCEval(MoveF(W, g, f))} : \E p1 \in {TLCEval(MoveP(W, g, p))} :
      /\ \E a \in {KRHS(g, Cheb, q, f, p)} : \E b \in {KRHS(MG, Cheb, MQ, f1, p1)} :
            Same(b[1], TLCEval(MoveK(W, g, a[1])), b[2])
      /\ Same(TLCEval(GFilter(MG, Cheb, f1)), TLCEval(MoveF(W, g, TLCEval(GFilter(g, Cheb, f)))), TLCEval(GFilterTol(MG, Cheb, f1)))
      /\ Same(TLCEval(GFilter(MG, Cheb, p1)), TLCEval(MoveP(W, g, TLCEval(GFilter(g, Cheb, p)))), TLCEval(GFilterTol(MG, Cheb, p1)))
      /\ Same(TLCEval(KRho(MG, Cheb, MQ, f1, p1)), TLCEval(MoveRho(W, g, TLCEval(KRho(g, Cheb, q, f, p)))), TLCEval(KRhoTol(MG, Cheb, MQ, f1, p1)))
StepCommutes ==
   (Len(w) = 1 /\ s = 1) =>
   \E f1 \in {TLCEval(MoveF(W, g, f))} : \E p1 \in {TLCEval(MoveP(W, g, p))} :
      \E a \in {RK4(g, Cheb, q, f, p)} : \E b \in {RK4(MG, Cheb, MQ, f1, p1)} :
         /\ Same(b.f, TLCEval(MoveF(W, g, a.f)), VScale(FInt(1000), b.ftol))
         /\ Same(b.p, TLCEval(MoveP(W, g, a.p)), VScale(FInt(1000), b.ptol))
(* superposition and rest *)
Linearly ==
   (w = <<>> /\ s = 1) =>
      /\ Linear(q) =>
            \E h \in {Wave(2, 11)} : \E c \in {FInt(-3)} :
            \E x \in {KRHS(g, Cheb, q, f, p)} : \E y \in {KRHS(g, Cheb, q, h, f)} :
            \E z \in {KRHS(g, Cheb, q, TLCEval(VAxpy(c, h, f)), TLCEval(VAxpy(c, f, p)))} :
               Same(z[1], TLCEval(VAxpy(c, y[1], x[1])), VAdd(z[2], VAdd(x[2], VScale(FAbs(c), y[2]))))
      /\ \E v \in {IF Free(q) THEN FRat(1, 3) ELSE F0} : \E o \in {VConst(GSize(g), F0)} :
            \E x \in {KRHS(g, Cheb, q, VConst(GSize(g), v), o)} : Same(x[1], o, x[2])
(* the group *)
GroupLaws ==
   Len(w) = 1 =>
      LET x == w[1]
          back == CASE x[1] = "turn" -> <<"turn", g.nphi - x[2]>> [] x[1] = "size" -> <<"size", -x[2]>> [] OTHER -> x
      IN  x[1] # "half" =>
          /\ MoveF(<<x, back>>, g, f) = f /\ MoveP(<<x, back>>, g, p) = p /\ MoveQ(<<x, back>>, q) = q /\ MoveGrid(<<x, back>>, g) = g
          /\ x[1] = "turn" => MoveF(<<<<"mirror", 0>>, x, <<"mirror", 0>>>>, g, f) = MoveF(<<back>>, g, f)
          /\ \A y \in Letters(g) : (y[1] # "half" /\ {x[1], y[1]} # {"turn", "mirror"} /\ Words(<<x, y>>, q)) =>
                /\ MoveF(<<x, y>>, g, f) = MoveF(<<y, x>>, g, f) /\ MoveQ(<<x, y>>, q) = MoveQ(<<y, x>>, q)
=============================================================================
