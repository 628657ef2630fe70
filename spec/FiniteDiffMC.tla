--------------------------- MODULE FiniteDiffMC ---------------------------
(***************************************************************************)
(* Exhaustive check, in exact arithmetic, that the stencils of FiniteDiff  *)
(* have the claimed properties: every row (all boundary rows, all interior *)
(* rows) of every grid size n in Sizes, on every monomial of degree up to  *)
(* 8.  32-bit TLC integers: values are compared modulo four primes whose   *)
(* product exceeds twice any value that can occur, so equality of residues *)
(* is equality.                                                            *)
(***************************************************************************)
EXTENDS FiniteDiff
CONSTANT Sizes
VARIABLES n, i, d
vars == <<n, i, d>>
Primes == {46337, 46327, 46309, 46307}
(* x^k mod p, for the few values that occur *)
PowTab == TLCEval([p \in Primes |-> TLCEval([x \in -8..8 |->
   LET F[k \in 0..8] == IF k = 0 THEN 1 ELSE (F[k - 1] * (x % p)) % p IN TLCEval([k \in 0..8 |-> F[k]])])])
(* sum_j w[j] * (start+j-1-i)^d  mod p *)
DotM(r, dd, ii, p) ==
   LET w == r.w  s == r.start - ii
       F[j \in 0..Len(w)] ==
          IF j = 0 THEN 0 ELSE (((w[j] % p) * PowTab[p][s + j - 1][dd]) + F[j - 1]) % p
   IN  F[Len(w)]
(* monomials are centred at the point itself: (x-x_i)^d *)
Exact1(dd) == IF dd = 1 THEN 60 ELSE 0
Exact2(dd) == IF dd = 2 THEN 360 ELSE 0
DerExact  == d <= 6 => \A p \in Primes : DotM(Row1(n, i), d, i, p) = Exact1(d) % p
Der2Exact == d <= 7 => \A p \in Primes : DotM(Row2(n, i), d, i, p) = Exact2(d) % p
(* the order is exactly six: degree 7 is not differentiated exactly *)
DerSharp  == d = 7 => \E p \in Primes : DotM(Row1(n, i), d, i, p) # 0
(* the filter leaves degree <= 7 alone, and removes the alternating mode *)
FilterExact ==
   (i \in 5..(n - 4) /\ d <= 7) => \A p \in Primes : DotM([start |-> i - 4, w |-> Diff8], d, i, p) = 0
RECURSIVE Alt(_)
Alt(j) == IF j > 9 THEN 0 ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * Diff8[j] + Alt(j + 1)
ASSUME FilterKillsAlternating == Alt(1) = 256
-----------------------------------------------------------------------------
(* the weights, from the Lagrange basis polynomials *)
ProdSet(f(_), S) ==
   LET F[T \in SUBSET S] == IF T = {} THEN 1
                            ELSE LET x == CHOOSE x \in T : TRUE IN f(x) * F[T \ {x}]
   IN  F[S]
SumSet(f(_), S) ==
   LET F[T \in SUBSET S] == IF T = {} THEN 0
                            ELSE LET x == CHOOSE x \in T : TRUE IN f(x) + F[T \ {x}]
   IN  F[S]

(* exact integer quotient *)
ExDiv(a, b) == LET q == IF b < 0 THEN (-a) \div (-b) ELSE a \div b
               IN  IF Assert(q * b = a, "inexact division") THEN q ELSE 0

(* 60 * (d/dx of the Lagrange basis polynomial of node j) at node a,
   for nodes lo..hi *)
LDer(lo, hi, a, j) ==
   LET N == lo..hi
       den == ProdSet(LAMBDA m : j - m, N \ {j})
       num == SumSet(LAMBDA k : ProdSet(LAMBDA m : a - m, N \ {j, k}), N \ {j})
   IN  ExDiv(60 * num, den)
(* 180 * second derivative *)
LDer2(lo, hi, a, j) ==
   LET N == lo..hi
       den == ProdSet(LAMBDA m : j - m, N \ {j})
       num == SumSet(LAMBDA k : SumSet(LAMBDA l : ProdSet(LAMBDA m : a - m, N \ {j, k, l}),
                                       N \ {j, k}), N \ {j})
   IN  ExDiv(180 * num, den)

ASSUME WeightsAreLagrange ==
   /\ \A e \in 0..2 : \A j \in 1..7 : D1Left[e][j] = LDer(0, 6, e, j - 1) /\ D1Right[e][j] = LDer(0, 6, 6 - e, j - 1)
   /\ \A j \in 1..7 : D1Mid[j] = LDer(0, 6, 3, j - 1) /\ D2Mid[j] = LDer2(0, 6, 3, j - 1)
   /\ \A e \in 0..2 : \A j \in 1..8 : D2Left[e][j] = LDer2(0, 7, e, j - 1) /\ D2Right[e][j] = LDer2(0, 7, 7 - e, j - 1)
-----------------------------------------------------------------------------
InRange == /\ Row1(n, i).start \in 1..n /\ Row1(n, i).start + Len(Row1(n, i).w) - 1 \in 1..n
           /\ Row2(n, i).start \in 1..n /\ Row2(n, i).start + Len(Row2(n, i).w) - 1 \in 1..n
           /\ i \in Row1(n, i).start .. (Row1(n, i).start + 6)
           /\ i \in Row2(n, i).start .. (Row2(n, i).start + Len(Row2(n, i).w) - 1)
Init == n \in Sizes /\ i = 1 /\ d = 0
NextDegree == d < 8 /\ d' = d + 1 /\ UNCHANGED <<n, i>>
NextPoint  == i < n /\ i' = i + 1 /\ d' = 0 /\ UNCHANGED n
Next == NextDegree \/ NextPoint
Spec == Init /\ [][Next]_vars
=============================================================================
