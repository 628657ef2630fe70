----------------------------- MODULE Chebyshev -----------------------------
(***************************************************************************)
(* The radial Chebyshev operators: n extrema of T_{n-1} on [lo, up], from  *)
(* up down to lo; coefficients a[1..n] of T_0 .. T_{n-1}.                  *)
(* ChebyshevMC.tla checks the derivative relation in exact arithmetic and  *)
(* the transforms for consistency.                                         *)
(***************************************************************************)
EXTENDS F64, TLC

ChJac(lo, up) == FMul(FHalf, FSub(up, lo))
ChMid(lo, up) == FMul(FHalf, FAdd(up, lo))
ChPts(n, lo, up) ==
   [i \in 1..n |-> FAdd(FMul(ChJac(lo, up), CosPiRat(i - 1, n - 1)), ChMid(lo, up))]

(* values at the points <-> coefficients of the interpolating polynomial *)
ChVals(n, a) == CosSums(a, n - 1, n - 1)
ChHalfEnds(n, v) == TLCEval([i \in 1..n |-> IF i \in {1, n} THEN FMul(FHalf, v[i]) ELSE v[i]])
ChCoef(n, v) ==
   LET s == TLCEval(CosSums(ChHalfEnds(n, v), n - 1, n - 1))
       c == FRat(2, n - 1)
   IN  ChHalfEnds(n, VScale(c, s))

(* coefficients of the derivative with respect to the variable in [-1, 1]:
   b_j = (2 - [j=0]) * sum over p > j with p+j odd of p a_p *)
ChDerCoef(n, a) ==
   LET w == [p \in 1..n |-> FMul(FInt(2 * (p - 1)), a[p])]
       t == VTail(TLCEval(w), 2)
   IN  [j \in 1..n |-> IF j = n THEN F0 ELSE IF j = 1 THEN FMul(FHalf, t[2]) ELSE t[j + 1]]
(* the operator provided discards the two highest modes *)
ChCut(n, a) == [k \in 1..n |-> IF k >= n - 1 THEN F0 ELSE a[k]]
ChDer(n, lo, up, v) ==
   VScale(FDiv(F1, ChJac(lo, up)),
          ChVals(n, TLCEval(ChDerCoef(n, TLCEval(ChCut(n, ChCoef(n, v)))))))

ChLowPass(n) == [k \in 1..n |-> FExp(FMul(FInt(-40), FPowI(FRat(k - 1, n), 16)))]
ChFilter(n, v) == ChVals(n, VMul(TLCEval(ChLowPass(n)), ChCoef(n, v)))

(* rounding: coefficients and values to a few ulps of the largest value
   times n; the derivative loses up to n^2 more in the highest modes *)
ChTol(n, v)  == FMul(FMul(FInt(16 * n + 128), FEps), VMaxAbs(v))
ChSumTol(n, a) == FMul(FMul(FInt(128), FEps), VSum(VAbs(a)))
ChDerTol(n, lo, up, v) ==
   FDiv(FMul(FMul(FInt(32 * n + 128), FMul(FInt(n * n), FEps)), VMaxAbs(v)), FAbs(ChJac(lo, up)))
=============================================================================
