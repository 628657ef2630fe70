------------------------------ MODULE F64Test ------------------------------
(* The accelerated bulk operators of F64 agree with their definitions.      *)
EXTENDS F64, TLC
VARIABLE n
u(k) == TLCEval([i \in 1..k |-> FRat(7*i*i - 3*i*k, 2*i + 1)])
w(k) == TLCEval([i \in 1..k |-> FSin(FInt(i*k))])
RECURSIVE Fold(_, _, _, _)
Fold(op(_, _), v, i, acc) == IF i > Len(v) THEN acc ELSE Fold(op, v, i+1, op(acc, v[i]))
Sum(v) == Fold(FAdd, v, 1, F0)
Agree ==
   LET a == u(n)  b == w(n)  I == 1..n IN
   /\ VSum(a) = Sum(a)
   /\ VMaxAbs(a) = Fold(LAMBDA x, y : FMax(x, FAbs(y)), a, 1, F0)
   /\ VDot(a, b) = Sum(TLCEval([i \in I |-> FMul(a[i], b[i])]))
   /\ VAdd(a, b) = [i \in I |-> FAdd(a[i], b[i])]
   /\ VSub(a, b) = [i \in I |-> FSub(a[i], b[i])]
   /\ VMul(a, b) = [i \in I |-> FMul(a[i], b[i])]
   /\ VScale(b[1], a) = [i \in I |-> FMul(b[1], a[i])]
   /\ VAxpy(b[1], a, b) = [i \in I |-> FAdd(FMul(b[1], a[i]), b[i])]
   /\ VConst(n, b[1]) = [i \in I |-> b[1]]
   /\ VAllFinite(a) /\ ~VAllFinite(Append(a, FDiv(F1, F0)))
   /\ VFirstFar(a, a, VConst(n, F0)) = 0
   /\ VFirstFar(a, [a EXCEPT ![n] = FAdd(@, F1)], VConst(n, FHalf)) = n
   /\ VFirstFar(a, [a EXCEPT ![n] = FDiv(F0, F0)], VConst(n, FHalf)) = n
   /\ VFirstDiff(a, a) = 0 /\ VFirstDiff(a, [a EXCEPT ![1] = FAdd(@, F1)]) = 1
   /\ VFirstDiff(a, Append(a, F0)) = -1
   /\ \A k \in 0..6 : FNear(CosSum(a, k, n), Sum(TLCEval([i \in I |-> FMul(a[i], CosPiRat(k*(i-1), n))])), FMul(FRat(1, 1000000000), FAdd(F1, VMaxAbs(a))))
   /\ \A i \in I : F64Type(a[i])
   /\ \A k \in 0..6 : FNear(SinSum(a, k, n), Sum(TLCEval([i \in I |-> FMul(a[i], SinPiRat(k*(i-1), n))])), FMul(FRat(1, 1000000000), FAdd(F1, VMaxAbs(a))))
   /\ CosSums(a, 3, n) = <<CosSum(a, 0, n), CosSum(a, 1, n), CosSum(a, 2, n), CosSum(a, 3, n)>>
   /\ MatVec(<<a, b>>, b) = <<VDot(a, b), VDot(b, b)>>
   /\ VAbs(a) = [i \in I |-> FAbs(a[i])] /\ VMaxV(a, b) = [i \in I |-> FMax(a[i], b[i])]
   /\ LET t == VTail(a, 2) IN n >= 5 => FNear(t[n - 4], FAdd(a[n], FAdd(a[n - 2], a[n - 4])), FMul(FInt(8), FMul(FEps, VMaxAbs(a)))) /\ t[n] = a[n] /\ t[n-1] = a[n-1]
   /\ VGather(a, <<n, 1>>) = <<a[n], a[1]>>
   /\ VScatter(a, <<1, n>>, <<b[n], b[1]>>) = (IF n = 1 THEN <<b[1]>> ELSE [a EXCEPT ![1] = b[n], ![n] = b[1]])
   /\ n >= 5 => VConv(a, 2, n - 2, <<b[1], b[2], b[3]>>) = [i \in 1..(n-3) |-> VDot(<<b[1], b[2], b[3]>>, <<a[i+1], a[i+2], a[i+3]>>)]
   /\ VDiv(a, b) = [i \in I |-> FDiv(a[i], b[i])] /\ VSqrt(VAbs(a)) = [i \in I |-> FSqrt(FAbs(a[i]))]
   /\ VAcos(VScale(FRat(1, 1000000), a)) = [i \in I |-> FAcos(FMul(FRat(1, 1000000), a[i]))] /\ VExp(VScale(FRat(1, 1000000), a)) = [i \in I |-> FExp(FMul(FRat(1, 1000000), a[i]))]
   /\ LET r == VLin(<<b[1], a[1]>>, <<a, b>>) IN \A i \in I : FNear(r[i], FAdd(FMul(b[1], a[i]), FMul(a[1], b[i])), FMul(FInt(8), FMul(FEps, FAdd(FAbs(FMul(b[1], a[i])), FAbs(FMul(a[1], b[i]))))))
   /\ VCut(a \o b, n) = <<a, b>> /\ VFlat(<<a, <<>>, b>>) = a \o b
   /\ VTrans(a \o b, 2, n) = [i \in 1..(2 * n) |-> IF i % 2 = 1 THEN a[(i + 1) \div 2] ELSE b[i \div 2]]
   /\ VTrans(VTrans(a \o b, n, 2), 2, n) = a \o b
   /\ \A k \in 0..3 : /\ RowCos(a \o b, 2, n, k) = <<CosSum(a, 2 * k, n), CosSum(b, 2 * k, n)>>
                      /\ \A j \in 1..2 : FNear(RowSin(a \o b, 2, n, k)[j], SinSum(<<a, b>>[j], 2 * k, n), FMul(FInt(64 * n), FMul(FEps, FAdd(VMaxAbs(a), VMaxAbs(b)))))
                      /\ LET q == RowSyn(a, b, k, 5) IN Len(q) = 5 * n /\ \A i \in I, j \in 0..4 :
                            FNear(q[5 * (i - 1) + j + 1], FSub(FMul(a[i], CosPiRat(2 * k * j, 5)), FMul(b[i], SinPiRat(2 * k * j, 5))), FMul(FInt(64), FMul(FEps, FAdd(FAbs(a[i]), FAbs(b[i])))))
   /\ FParse("-12.5e1xyz") = FInt(-125) /\ FIsNaN(FParse("x1")) /\ IParse("42.0") = 42 /\ IParse("-7") = -7
   /\ FParse("0.1") = FDec("0.1") /\ FAdd(FDec("0.1"), FDec("0.2")) # FDec("0.3") /\ FFloor(FDec("-1.5")) = -2
Init == n = 1
Next == n < 24 /\ n' = n + 1
Spec == Init /\ [][Next]_n
=============================================================================
