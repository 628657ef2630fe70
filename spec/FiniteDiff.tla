---------------------------- MODULE FiniteDiff ----------------------------
(***************************************************************************)
(* The radial finite-difference operators on a uniform grid of n points.   *)
(*                                                                         *)
(* The weights are those of differentiating the interpolating polynomial   *)
(* through the points of the stencil, as integer multiples of 1/60 (first  *)
(* derivative) and 1/180 (second derivative).  FiniteDiffMC.tla derives    *)
(* them from Lagrange's formula and checks exactness, exhaustively.        *)
(***************************************************************************)
EXTENDS F64, FiniteSets, TLC

(* stencils: nodes relative to the first point of the stencil.
   At the d-th point from the end (d = 0,1,2) one-sided, else centred. *)
D1Left  == [d \in 0..2 |-> <<<<-147, 360, -450, 400, -225, 72, -10>>,
                             <<-10, -77, 150, -100, 50, -15, 2>>,
                             <<2, -24, -35, 80, -30, 8, -1>>>>[d + 1]]
D1Right == [d \in 0..2 |-> <<<<10, -72, 225, -400, 450, -360, 147>>,
                             <<-2, 15, -50, 100, -150, 77, 10>>,
                             <<1, -8, 30, -80, 35, 24, -2>>>>[d + 1]]
D1Mid   == <<-1, 9, -45, 0, 45, -9, 1>>
D2Left  == [d \in 0..2 |-> <<<<938, -4014, 7911, -9490, 7380, -3618, 1019, -126>>,
                             <<126, -70, -486, 855, -670, 324, -90, 11>>,
                             <<-11, 214, -378, 130, 85, -54, 16, -2>>>>[d + 1]]
D2Right == [d \in 0..2 |-> <<<<-126, 1019, -3618, 7380, -9490, 7911, -4014, 938>>,
                             <<11, -90, 324, -670, 855, -486, -70, 126>>,
                             <<-2, 16, -54, 85, 130, -378, 214, -11>>>>[d + 1]]
D2Mid   == <<2, -27, 270, -490, 270, -27, 2>>

(* eighth central difference *)
Diff8 == <<1, -8, 28, -56, 70, -56, 28, -8, 1>>

(* [start |-> 1-based first point, w |-> integer weights] of row i in 1..n *)
Row1(n, i) ==
   IF i <= 3 THEN [start |-> 1, w |-> D1Left[i - 1]]
   ELSE IF i > n - 3 THEN [start |-> n - 6, w |-> D1Right[n - i]]
   ELSE [start |-> i - 3, w |-> D1Mid]
Row2(n, i) ==
   IF i <= 3 THEN [start |-> 1, w |-> D2Left[i - 1]]
   ELSE IF i > n - 3 THEN [start |-> n - 7, w |-> D2Right[n - i]]
   ELSE [start |-> i - 3, w |-> D2Mid]

-----------------------------------------------------------------------------
(* in IEEE arithmetic *)
LOCAL FW(w, den) == TLCEval([j \in 1..Len(w) |-> FRat(w[j], den)])
F1L == TLCEval([d \in 0..2 |-> FW(D1Left[d], 60)])
F1M == FW(D1Mid, 60)
F1R == TLCEval([d \in 0..2 |-> FW(D1Right[d], 60)])
F2L == TLCEval([d \in 0..2 |-> FW(D2Left[d], 180)])
F2M == FW(D2Mid, 180)
F2R == TLCEval([d \in 0..2 |-> FW(D2Right[d], 180)])
A1L == TLCEval([d \in 0..2 |-> VAbs(F1L[d])])
A1M == VAbs(F1M)
A1R == TLCEval([d \in 0..2 |-> VAbs(F1R[d])])
A2L == TLCEval([d \in 0..2 |-> VAbs(F2L[d])])
A2M == VAbs(F2M)
A2R == TLCEval([d \in 0..2 |-> VAbs(F2R[d])])

FDDx(n, lo, up) == FDiv(FSub(up, lo), FInt(n - 1))
FDPts(n, lo, up) == [i \in 1..n |-> FAdd(lo, FMul(FDDx(n, lo, up), FInt(i - 1)))]

LOCAL Apply(n, v, L, M, R, k) ==    \* k = length of the one-sided stencils
   VConv(v, 1, 1, L[0]) \o VConv(v, 1, 1, L[1]) \o VConv(v, 1, 1, L[2])
   \o VConv(v, 1, n - 6, M)
   \o VConv(v, n - k + 1, n - k + 1, R[2]) \o VConv(v, n - k + 1, n - k + 1, R[1])
   \o VConv(v, n - k + 1, n - k + 1, R[0])

FDDer(n, dx, v)      == VScale(FDiv(F1, dx), Apply(n, v, F1L, F1M, F1R, 7))
FDDerMag(n, dx, v)   == VScale(FDiv(F1, dx), Apply(n, VAbs(v), A1L, A1M, A1R, 7))
FDDer2(n, dx, v)     == VScale(FDiv(F1, FSq(dx)), Apply(n, v, F2L, F2M, F2R, 8))
FDDer2Mag(n, dx, v)  == VScale(FDiv(F1, FSq(dx)), Apply(n, VAbs(v), A2L, A2M, A2R, 8))

LOCAL D8F == TLCEval([j \in 1..9 |-> FRat(Diff8[j], 256)])
LOCAL D8A == VAbs(D8F)
FDFilter(n, v) ==
   SubSeq(v, 1, 4) \o VSub(SubSeq(v, 5, n - 4), VConv(v, 1, n - 8, D8F)) \o SubSeq(v, n - 3, n)
(* size of the terms: 0 at the four points next to each end, which must not
   change at all *)
FDFilterMag(n, v) ==
   VConst(4, F0) \o VAdd(VAbs(SubSeq(v, 5, n - 4)), VConv(VAbs(v), 1, n - 8, D8A)) \o VConst(4, F0)
=============================================================================
