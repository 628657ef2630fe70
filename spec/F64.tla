-------------------------------- MODULE F64 --------------------------------
(***************************************************************************)
(* IEEE-754 binary64 numbers for TLC.                                      *)
(*                                                                         *)
(* TLC integers have 32 bits and TLC has no reals, so a number is the pair *)
(* <<hi, lo>> of the two (signed) 32-bit halves of its IEEE-754 encoding:  *)
(* that is how recorded values arrive from the implementation, bit exact.  *)
(* The operators below are the usual correctly rounded operations; their   *)
(* meaning is IEEE-754 (and, for the elementary functions, the real        *)
(* function to within an ulp), which TLA+ itself cannot express, so TLC    *)
(* evaluates them with tools/F64Overrides.java.  Bulk operators (VSum ...) *)
(* are defined here in terms of the scalar ones; the override is only a    *)
(* faster evaluation of that definition (F64Test.tla compares the two).    *)
(***************************************************************************)
EXTENDS Integers, Sequences

Word32 == (-2147483647 - 1) .. 2147483647
F64Type(x) == x[1] \in Word32 /\ x[2] \in Word32 /\ Len(x) = 2
Undef == CHOOSE x : x \notin {}

FInt(i)    == Undef    \* the integer i
FRat(p, q) == Undef    \* p/q, rounded once
FDec(s)    == Undef    \* the decimal literal in string s
FPi        == Undef
FAdd(a, b) == Undef
FSub(a, b) == Undef
FMul(a, b) == Undef
FDiv(a, b) == Undef
FNeg(a)    == Undef
FAbs(a)    == Undef
FSqrt(a)   == Undef
FExp(a)    == Undef
FLn(a)     == Undef
FLog10(a)  == Undef
FSin(a)    == Undef
FCos(a)    == Undef
FAcos(a)   == Undef
FPowI(a, k) == Undef   \* a^k for an integer k
FMax(a, b) == Undef
FMin(a, b) == Undef
FLt(a, b)  == Undef
FLe(a, b)  == Undef
FEq(a, b)  == Undef    \* numerical equality: 0 = -0, NaN # NaN
FIsFinite(a) == Undef
FIsNaN(a)  == Undef
FFloor(a)  == Undef    \* TLC integer
FShow(a)   == Undef    \* decimal string, for messages
FParse(s)  == Undef    \* the decimal number at the start of string s; NaN if there is none
FNumber(s) == Undef    \* the number that the whole string s is; NaN if it is not one
IParse(s)  == Undef    \* the decimal integer at the start of string s

VNumber(ss) == [i \in 1..Len(ss) |-> FNumber(ss[i])]

F0 == FInt(0)
F1 == FInt(1)
F2 == FInt(2)
FHalf == FRat(1, 2)
FSq(a) == FMul(a, a)
FEps == FPowI(F2, -52)
FTiny == FPowI(F2, -1022)

(* |a-b| <= tol, false when any of them is NaN *)
FNear(a, b, tol) == FLe(FAbs(FSub(a, b)), tol)

------------------------------------------------------------------------------
(* vectors: sequences of numbers *)
RECURSIVE VFold(_, _, _, _)
VFold(op(_, _), v, i, acc) ==
   IF i > Len(v) THEN acc ELSE VFold(op, v, i + 1, op(acc, v[i]))
VSum(v)    == VFold(FAdd, v, 1, F0)
VMaxAbs(v) == VFold(LAMBDA x, y : FMax(x, FAbs(y)), v, 1, F0)
VDot(u, v) == VSum([i \in 1..Len(u) |-> FMul(u[i], v[i])])
VAdd(u, v) == [i \in 1..Len(u) |-> FAdd(u[i], v[i])]
VSub(u, v) == [i \in 1..Len(u) |-> FSub(u[i], v[i])]
VMul(u, v) == [i \in 1..Len(u) |-> FMul(u[i], v[i])]
VScale(a, v) == [i \in 1..Len(v) |-> FMul(a, v[i])]
VAxpy(a, u, v) == [i \in 1..Len(u) |-> FAdd(FMul(a, u[i]), v[i])]
VConst(n, a) == [i \in 1..n |-> a]
VAllFinite(v) == \A i \in 1..Len(v) : FIsFinite(v[i])
(* the first index at which |u[i]-v[i]| > tol[i] (or is NaN); 0 if none *)
VFirstFar(u, v, tol) ==
   LET bad == {i \in 1..Len(u) : ~ FNear(u[i], v[i], tol[i])}
   IN  IF Len(u) # Len(v) \/ Len(u) # Len(tol) THEN -1
       ELSE IF bad = {} THEN 0 ELSE CHOOSE i \in bad : \A j \in bad : i <= j
(* the first index at which the bits of u and v differ; 0 if none *)
VFirstDiff(u, v) ==
   LET bad == {i \in 1..Len(u) : u[i] # v[i]}
   IN  IF Len(u) # Len(v) THEN -1
       ELSE IF bad = {} THEN 0 ELSE CHOOSE i \in bad : \A j \in bad : i <= j
(* cos(pi*k*i/N) for integers, with the angle reduced exactly *)
CosPiRat(k, N) == FCos(FDiv(FMul(FPi, FInt(k % (2 * N))), FInt(N)))
SinPiRat(k, N) == FSin(FDiv(FMul(FPi, FInt(k % (2 * N))), FInt(N)))
(* sum_{i=1..Len(v)} v[i]*cos(pi*((k*(i-1)) % (2N))/N) *)
CosSum(v, k, N) ==
   VSum([i \in 1..Len(v) |-> FMul(v[i], CosPiRat(k * (i - 1), N))])
(* the same with sines *)
SinSum(v, k, N) ==
   VSum([i \in 1..Len(v) |-> FMul(v[i], SinPiRat(k * (i - 1), N))])
(* table of cosine sums: the DCT-like matrix-vector products
   [k \in 0..K |-> sum_i v[i+1] cos(pi k i/N)], as a sequence indexed from 1 *)
CosSums(v, K, N) == [k \in 1..(K + 1) |-> CosSum(v, k - 1, N)]
MatVec(M, v) == [i \in 1..Len(M) |-> VDot(M[i], v)]
VAbs(v) == [i \in 1..Len(v) |-> FAbs(v[i])]
VMaxV(u, v) == [i \in 1..Len(u) |-> FMax(u[i], v[i])]
(* gather / scatter: idx is a sequence of 1-based positions *)
VGather(v, idx) == [k \in 1..Len(idx) |-> v[idx[k]]]
VScatter(v, idx, w) ==
   [i \in 1..Len(v) |-> IF \E k \in 1..Len(idx) : idx[k] = i
                        THEN w[CHOOSE k \in 1..Len(idx) : idx[k] = i /\ \A j \in 1..Len(idx) : idx[j] = i => j <= k]
                        ELSE v[i]]
(* sliding dot product: [i \in lo..hi |-> sum_j c[j] v[i-1+j]], from 1 *)
VConv(v, lo, hi, c) == [i \in 1..(hi - lo + 1) |-> VDot(c, SubSeq(v, lo + i - 1, lo + i - 2 + Len(c)))]
VDiv(u, v) == [i \in 1..Len(u) |-> FDiv(u[i], v[i])]
VSqrt(v) == [i \in 1..Len(v) |-> FSqrt(v[i])]
VAcos(v) == [i \in 1..Len(v) |-> FAcos(v[i])]
VExp(v) == [i \in 1..Len(v) |-> FExp(v[i])]
(* sum_i c[i]*M[i], a linear combination of vectors *)
VLin(c, M) == [j \in 1..Len(M[1]) |-> VSum([i \in 1..Len(c) |-> FMul(c[i], M[i][j])])]
(* v is a table of R rows of N values: per row the sum of values times
   cos(2*pi*m*k/N), k = 0..N-1, and the same with sines *)
RowCos(v, R, N, m) == [j \in 1..R |-> CosSum(SubSeq(v, ((j - 1) * N) + 1, j * N), 2 * m, N)]
RowSin(v, R, N, m) == [j \in 1..R |-> SinSum(SubSeq(v, ((j - 1) * N) + 1, j * N), 2 * m, N)]
(* the table re[j]*cos(2*pi*m*k/N) - im[j]*sin(2*pi*m*k/N) *)
RowSyn(re, im, m, N) ==
   [i \in 1..(Len(re) * N) |->
      LET j == ((i - 1) \div N) + 1  k == (i - 1) % N
      IN  FSub(FMul(re[j], CosPiRat(2 * m * k, N)), FMul(im[j], SinPiRat(2 * m * k, N)))]
(* the rows of length N of v; rows joined; R rows of C columns -> C rows of R columns *)
VCut(v, N) == [i \in 1..(Len(v) \div N) |-> SubSeq(v, ((i - 1) * N) + 1, i * N)]
RECURSIVE VFlatTo(_, _)
VFlatTo(rows, k) == IF k = 0 THEN <<>> ELSE VFlatTo(rows, k - 1) \o rows[k]
VFlat(rows) == VFlatTo(rows, Len(rows))
VTrans(v, R, C) == [i \in 1..(R * C) |-> v[(((i - 1) % R) * C) + ((i - 1) \div R) + 1]]
(* strided tail sums: element i is v[i] + v[i+s] + v[i+2s] + ... *)
VTail(v, s) == [i \in 1..Len(v) |-> VSum([k \in 1..(((Len(v) - i) \div s) + 1) |-> v[i + (k - 1) * s]])]
=============================================================================
