------------------------------- MODULE KerrMC -------------------------------
(***************************************************************************)
(* Where the coefficients of module Kerr come from.  At rational points of *)
(* (m, a, r, theta):                                                       *)
(*  - the inverse metric is the inverse of the Kerr metric in horizon-     *)
(*    penetrating coordinates, and sqrt(-g) = Sigma sin(theta);            *)
(*  - the first-order coefficients are those of the divergence form        *)
(*    d_mu(sqrt(-g) g^{mu nu} d_nu f)/sqrt(-g) (differenced exactly: the   *)
(*    functions are quadratic in r);                                       *)
(*  - the slices are spacelike, g^rr is positive outside the horizon, zero *)
(*    on it; everything is finite at u = 0 and on the horizon;             *)
(*  - with K = 1, V = 0 the energy density is T_{mu nu} n^mu n^nu computed *)
(*    from the covariant metric, and not negative;                         *)
(*  - known solutions (the static multipoles l = 1, 2, 3 and one that      *)
(*    grows with time) satisfy the equation.                               *)
(***************************************************************************)
EXTENDS Kerr
VARIABLES pm, pa, pr, pt, gr      \* m = pm/2, a = pa/8*m, r = (index) , theta index, gradient index
Ms == {1, 4}
As == {-8, -3, 0, 5}
Grads == {<<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>>, <<1, -1, 0, 0>>, <<2, 1, 0, -3>>, <<-1, 2, 3, 1>>, <<1, 4, -2, 7>>}
m == FRat(pm, 2)
a == FMul(m, FRat(pa, 8))
MCInit == pm \in Ms /\ pa \in As /\ pr \in {0, 1, 3, 9} /\ pt \in 1..4 /\ gr \in Grads
MCNext == UNCHANGED <<pm, pa, pr, pt, gr>>
MCSpec == MCInit /\ [][MCNext]_<<pm, pa, pr, pt, gr>>
Hor == FAdd(m, FSqrt(FMul(FSub(m, a), FAdd(m, a))))
r == IF pr = 0 THEN Hor ELSE FMul(Hor, FAdd(F1, FRat(pr * pr * pr, 5)))
u == FDiv(F1, r)
c2 == FSq(FRat(pt - 1, 4))           \* cos^2
s2 == FSub(F1, c2)
si == FSqrt(s2)
Sig == FAdd(FSq(r), FMul(FSq(a), c2))
H == FDiv(FMul(FMul(F2, m), r), Sig)
(* covariant metric, order t r th ph *)
Cov == << <<FSub(H, F1), H, F0, FNeg(FMul(FMul(a, H), s2))>>,
          <<H, FAdd(F1, H), F0, FNeg(FMul(FMul(a, FAdd(F1, H)), s2))>>,
          <<F0, F0, Sig, F0>>,
          <<FNeg(FMul(FMul(a, H), s2)), FNeg(FMul(FMul(a, FAdd(F1, H)), s2)), F0,
            FMul(s2, FAdd(FAdd(FSq(r), FSq(a)), FMul(FMul(FSq(a), H), s2)))>> >>
Con == << <<FNeg(MinusGtt(m, a, u, c2)), Gtr(m, a, u, c2), F0, F0>>,
          <<Gtr(m, a, u, c2), Grr(m, a, u, c2), F0, Grp(m, a, u, c2)>>,
          <<F0, F0, Gang(m, a, u, c2), F0>>,
          <<F0, Grp(m, a, u, c2), F0, FDiv(Gang(m, a, u, c2), s2)>> >>
Small(x, size) == FLe(FAbs(x), FMul(FDec("1e-11"), FAdd(F1, size)))
Dot4(x, y) == FAdd(FAdd(FMul(x[1], y[1]), FMul(x[2], y[2])), FAdd(FMul(x[3], y[3]), FMul(x[4], y[4])))
InverseMetric ==
   \A i \in 1..4 : \A j \in 1..4 :
      Small(FSub(Dot4(Cov[i], Con[j]), IF i = j THEN F1 ELSE F0), FSq(r))
(* determinant of the t, r, ph block times g_thth is -Sigma^2 sin^2 *)
Det3(x) == FAdd(FSub(FMul(x[1][1], FSub(FMul(x[2][2], x[3][3]), FMul(x[2][3], x[3][2]))),
                     FMul(x[1][2], FSub(FMul(x[2][1], x[3][3]), FMul(x[2][3], x[3][1])))),
                FMul(x[1][3], FSub(FMul(x[2][1], x[3][2]), FMul(x[2][2], x[3][1]))))
Volume == LET b == [i \in 1..3 |-> [j \in 1..3 |-> Cov[IF i = 3 THEN 4 ELSE i][IF j = 3 THEN 4 ELSE j]]]
          IN Small(FAdd(FMul(Det3(b), Sig), FMul(FSq(Sig), s2)), FMul(FSq(Sig), s2))
(* d_r(Sigma g^rr)/Sigma, d_r(Sigma g^tr)/Sigma by a symmetric difference *)
SigAt(x) == FAdd(FSq(x), FMul(FSq(a), c2))
Diff(op(_)) == FDiv(FSub(op(FAdd(r, F1)), op(FSub(r, F1))), F2)
Divergence ==
   LET frr(x) == FMul(SigAt(x), Grr(m, a, FDiv(F1, x), c2))
       ftr(x) == FMul(SigAt(x), Gtr(m, a, FDiv(F1, x), c2))
       frp(x) == FMul(SigAt(x), Grp(m, a, FDiv(F1, x), c2))
   IN FLt(F1, r) => /\ Small(FSub(FDiv(Diff(frr), Sig), DivR(m, a, u, c2)), F1)
                    /\ Small(FSub(FDiv(Diff(ftr), Sig), DivT(m, a, u, c2)), F1)
                    /\ Small(Diff(frp), F1)
Signs == /\ FLe(F1, MinusGtt(m, a, u, c2))
         /\ (IF pr = 0 THEN Small(Grr(m, a, u, c2), F1) ELSE FLt(F0, Grr(m, a, u, c2)))
         /\ \A f \in {MinusGtt(m, a, F0, c2), Gtr(m, a, F0, c2), Grr(m, a, F0, c2), Grp(m, a, F0, c2), Gang(m, a, F0, c2), DivT(m, a, F0, c2), DivR(m, a, F0, c2)} : FIsFinite(f)
         /\ MinusGtt(m, a, F0, c2) = F1 /\ Grr(m, a, F0, c2) = F1 /\ Gtr(m, a, F0, c2) = F0 /\ Gang(m, a, F0, c2) = F0
(* energy density from the stress tensor: n^mu = -g^{t mu}/sqrt(-g^tt) *)
D(i) == FInt(gr[i])
Up(i) == Dot4(Con[i], <<D(1), D(2), D(3), D(4)>>)
Sq4 == FAdd(FAdd(FMul(D(1), Up(1)), FMul(D(2), Up(2))), FAdd(FMul(D(3), Up(3)), FMul(D(4), Up(4))))
N(i) == FDiv(FNeg(Con[1][i]), FSqrt(MinusGtt(m, a, u, c2)))
T(i, j) == FSub(FMul(D(i), D(j)), FMul(FHalf, FMul(Cov[i][j], Sq4)))
NNT == VSum([k \in 1..16 |-> LET i == ((k - 1) \div 4) + 1  j == ((k - 1) % 4) + 1 IN FMul(T(i, j), FMul(N(i), N(j)))])
One(x) == <<x>>
Cf == [tt |-> One(MinusGtt(m, a, u, c2)), tr |-> One(Gtr(m, a, u, c2)), rr |-> One(Grr(m, a, u, c2)), rp |-> One(Grp(m, a, u, c2)), ang |-> One(Gang(m, a, u, c2))]
Df == [f_r |-> One(D(2)), f_p |-> One(D(4)), X |-> One(FAdd(FSq(D(3)), FDiv(FSq(D(4)), s2)))]
Density == LET n == FSub(FMul(MinusGtt(m, a, u, c2), D(1)), FMul(Gtr(m, a, u, c2), D(2)))
           IN  FAdd(FDiv(FSq(n), MinusGtt(m, a, u, c2)), FMul(FHalf, GradSq4(Cf, One(D(1)), Df)[1]))
EnergyDensity == LET big == FAdd(FMul(FInt(100), FSq(r)), FInt(1000)) IN
   Small(FSub(NNT, Density), big) /\ FLe(FDec("-1e-11"), Density)
(* the formula used for the gradient square is g^{mu nu} d_mu f d_nu f *)
GradientSquare == Small(FSub(Sq4, GradSq4(Cf, One(D(1)), Df)[1]), FInt(200))

(* known solutions of the wave equation.  In the coefficients: c f_tt = this *)
Wave(f_r, f_rr, lap, p) ==
   FAdd(FAdd(FMul(DivT(m, a, u, c2), p), FMul(DivR(m, a, u, c2), f_r)), FAdd(FMul(Grr(m, a, u, c2), f_rr), FMul(Gang(m, a, u, c2), lap)))
(* static: (r-m) cos(theta); (3(r-m)^2 - (m^2-a^2)) P_2; (5(r-m)^3 - 3(m^2-a^2)(r-m)) P_3.  Growing in time: t - 2 m ln(r - r_inner) *)
KnownSolutions ==
   LET y == FSub(r, m)  k == FMul(FSub(m, a), FAdd(m, a))  in == FSub(FMul(F2, m), Hor)
       size == FMul(FInt(50), FMul(FMul(r, r), r)) IN
   /\ Small(Wave(F1, F0, FMul(FInt(-2), y), F0), size)
   /\ Small(Wave(FMul(FInt(6), y), FInt(6), FMul(FInt(-6), FSub(FMul(FInt(3), FSq(y)), k)), F0), size)
   /\ Small(Wave(FSub(FMul(FInt(15), FSq(y)), FMul(FInt(3), k)), FMul(FInt(30), y), FMul(FInt(-12), FSub(FMul(FInt(5), FMul(y, FSq(y))), FMul(FInt(3), FMul(k, y)))), F0), size)
   /\ (in # r => LET w == FDiv(FMul(FInt(-2), m), FSub(r, in)) IN
         Small(Wave(w, FDiv(FNeg(w), FSub(r, in)), F0, F1), FMul(FInt(20), FAdd(F1, FSq(w)))))

(* kinetic function and potential: derivatives match by a symmetric difference *)
Q == <<F1, F1, F0, FRat(1, 3), F2, FRat(-1, 2), FRat(3, 4), F2, FInt(-3), FInt(5)>>
Fs == [i \in 1..9 |-> FRat(i - 5, 8)]
Hh == FDec("1e-5")
ASSUME LET up == VAdd(Fs, VConst(9, Hh))  dn == VSub(Fs, VConst(9, Hh))
           dif(x, y) == VScale(FDiv(FHalf, Hh), VSub(x, y))
       IN /\ VFirstFar(dif(KinF(Q, up), KinF(Q, dn)), KinDF(Q, Fs), VConst(9, FDec("1e-7"))) = 0
          /\ VFirstFar(dif(PotF(Q, up), PotF(Q, dn)), PotDF(Q, Fs), VConst(9, FDec("1e-7"))) = 0
(* a static solution: with m = a = 0 and V2 = 0 a constant field stays, one with mass falls back *)
G1 == [n |-> 9, lo |-> F1, up |-> FInt(20), cl |-> FInt(20), nl |-> 2, nm |-> 1, nlat |-> 4, nphi |-> 3]
ASSUME \A cheb \in BOOLEAN : \A aa \in {F0, FHalf} :
   LET f == VConst(GSize(G1), FRat(1, 4))  z == VConst(GSize(G1), F0)
       q0 == <<F1, F1, aa, F0, F1, F0, F0, F0, F0, F0>>
       q1 == <<F1, F1, aa, F0, F2, F0, F0, F2, F0, F0>>
       k0 == KRHS(G1, cheb, q0, f, z)  k1 == KRHS(G1, cheb, q1, f, z)
       c == KCoefs(G1, cheb, F1, aa)
   IN /\ FLt(VMaxAbs(k0[1]), FDec("1e-9")) /\ VAllFinite(k0[2])
      /\ VFirstFar(VMul(k1[1], c.tt), VConst(GSize(G1), FRat(-1, 4)), VConst(GSize(G1), FDec("1e-9"))) = 0
=============================================================================
