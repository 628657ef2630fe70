---------------------------- MODULE ChebyshevMC ----------------------------
(***************************************************************************)
(* Exhaustive checks of the Chebyshev specification itself, for every n in *)
(* 3..MaxN and every mode p < n:                                           *)
(*  - the derivative relation, as an identity of integer polynomials:      *)
(*    d/dx T_p = sum_j b_j T_j with the b_j of ChDerCoef;                  *)
(*  - the transforms on each basis vector invert each other, the filter    *)
(*    factor is in (0,1], decreasing, 1 at the mean.                       *)
(***************************************************************************)
EXTENDS Chebyshev, Sequences
CONSTANT MaxN
VARIABLES n, p,
          T   \* T[k+1]: integer coefficients of T_k, k < n; index j is the x^(j-1) term
J == 1..(MaxN + 1)
DPoly(q) == [j \in J |-> IF j > MaxN THEN 0 ELSE j * q[j + 1]]
B(j) == IF j < p /\ (j + p) % 2 = 1 THEN (IF j = 0 THEN p ELSE 2 * p) ELSE 0
SumSeq(q) == LET F[i \in 0..Len(q)] == IF i = 0 THEN 0 ELSE q[i] + F[i - 1] IN F[Len(q)]
DerivativeIdentity ==
   \A j \in J : DPoly(T[p + 1])[j] = SumSeq([k \in 1..n |-> B(k - 1) * T[k][j]])
E == [k \in 1..n |-> IF k = p + 1 THEN F1 ELSE F0]
DerCoefMatches == ChDerCoef(n, E) = [j \in 1..n |-> FInt(B(j - 1))]
Small == FMul(FInt(64 * n), FEps)
Close(u, v) == VFirstFar(u, v, VConst(n, Small)) = 0
TransformPair == Close(ChCoef(n, ChVals(n, E)), E) /\ Close(ChVals(n, ChCoef(n, E)), E)
(* T_p(cos t) = cos(p t) *)
ModeValues == Close(ChVals(n, E), [i \in 1..n |-> CosPiRat(p * (i - 1), n - 1)])
LowPassOK == LET f == ChLowPass(n) IN
   /\ f[1] = F1 /\ FLt(F0, f[p + 1]) /\ FLe(f[p + 1], F1)
   /\ p > 0 => FLe(f[p + 1], f[p])
DerExact ==
   p <= n - 3 => VFirstFar(ChDer(n, FInt(-1), F1, ChVals(n, E)), ChVals(n, [j \in 1..n |-> FInt(B(j - 1))]),
                           VConst(n, ChDerTol(n, FInt(-1), F1, E))) = 0
Ends == LET x == ChPts(n, FInt(-3), FInt(5)) IN x[1] = FInt(5) /\ x[n] = FInt(-3) /\ \A i \in 1..(n - 1) : FLt(x[i + 1], x[i])
Mono(k) == [j \in J |-> IF j = k + 1 THEN 1 ELSE 0]
TNext == TLCEval([j \in J |-> (IF j = 1 THEN 0 ELSE 2 * T[n][j - 1]) - T[n - 1][j]])
Init == n = 2 /\ p = 1 /\ T = <<Mono(0), Mono(1)>>
Next == \/ p < n - 1 /\ p' = p + 1 /\ UNCHANGED <<n, T>>
        \/ p = n - 1 /\ n < MaxN /\ n' = n + 1 /\ p' = 0 /\ T' = Append(T, TNext)
Spec == Init /\ [][Next]_<<n, p, T>>
=============================================================================
