--------------------------------- MODULE Csv ---------------------------------
(***************************************************************************)
(* What a table written to disk holds.  A file is                          *)
(*   [head: the header lines, each a sequence of cells,                    *)
(*    width: cells per row, want, tol: the numbers of all rows in order    *)
(*    and how far the printed numbers may be from them,                    *)
(*    sure: for each row, whether it has to be there (a point whose radius *)
(*    is on a bound to rounding may be there or not)].                     *)
(* CsvMC.tla checks Fits on small tables, and that names never collide.    *)
(***************************************************************************)
EXTENDS Grid

Kinds == [RPsl |-> <<"R", "l", "log(value)">>, NPsl |-> <<"n", "l", "log(value)">>, XYZ |-> <<"x", "y", "z", "value">>]
CsvName(w, name, k) ==
   IF w = "plain" THEN name \o "_" \o ToString(k) \o ".csv"
   ELSE name \o "_" \o w \o "_" \o ToString(k) \o ".csv"
(* sixteen significant digits *)
Print16(x) == FMul(FMul(FRat(28, 10), FEps), FAbs(x))
VPrint16(v) == VScale(FMul(FRat(28, 10), FEps), VAbs(v))
Floor10 == FDec("1e-16")
LogOf(p) == IF FLt(p, Floor10) THEN FInt(-16) ELSE FLog10(p)
(* log(p)/log(10) in floating point *)
LogTol(v) == VAdd(VPrint16(v), VScale(FMul(FInt(3), FEps), VAdd(VAbs(v), VConst(Len(v), F1))))

Zip3(a, b, c) == VTrans(VFlat(<<a, b, c>>), 3, Len(a))
Zip4(a, b, c, d) == VTrans(VFlat(<<a, b, c, d>>), 4, Len(a))
Zero(n) == VConst(n, F0)
HeadLines(w, coords) == IF coords /\ w # "plain" THEN <<Kinds[w]>> ELSE <<>>

(* one value per line *)
PlainTable(v) == [head |-> <<>>, width |-> 1, want |-> v, tol |-> VPrint16(v), sure |-> [i \in 1..Len(v) |-> TRUE]]
(* (radius, degree, log10 of the power) or (mode, degree, log10 of the coefficient), in storage order *)
SpectrumTable(g, w, coords, first, firsttol, ps) ==
   LET n == g.n * g.nl
       l == TLCEval([i \in 1..n |-> FInt((i - 1) % g.nl)])
       x == TLCEval([i \in 1..n |-> first[((i - 1) \div g.nl) + 1]])
       v == TLCEval([i \in 1..n |-> LogOf(ps[i])])
   IN  [head |-> HeadLines(w, coords), width |-> 3, want |-> Zip3(x, l, v),
        tol |-> Zip3(TLCEval(VAdd(VPrint16(x), VConst(n, firsttol))), Zero(n), TLCEval(LogTol(v))),
        sure |-> [i \in 1..n |-> TRUE]]
(* points with vmin < |v| < vmax and rmin < R < rmax.  X, Y, Z, R, v in storage order *)
Between(lo, x, hi) == FLt(lo, x) /\ FLt(x, hi)
PointTable(coords, X, Y, Z, R, ct, q, v) ==
   LET N == Len(v)
       e == FMul(FInt(4), ct)
       may(i) == Between(q[1], FAbs(v[i]), q[2]) /\ Between(FSub(q[3], e), R[i], FAdd(q[4], e))
       must(i) == Between(FAdd(q[3], e), R[i], FSub(q[4], e))
       pick == SelectSeq([i \in 1..N |-> i], may)
       col(c) == TLCEval([k \in 1..Len(pick) |-> c[pick[k]]])
       n == Len(pick)
       want == TLCEval(Zip4(col(X), col(Y), col(Z), col(v)))
       cc == VConst(n, ct)
   IN  [head |-> HeadLines("XYZ", coords), width |-> 4, want |-> want,
        tol |-> VAdd(VPrint16(want), Zip4(cc, cc, cc, Zero(n))),
        sure |-> [k \in 1..n |-> must(pick[k])]]

------------------------------------------------------------------------------
(* does a text, given as the cells of its lines, hold the table? *)
RowOf(v, w, i) == SubSeq(v, ((i - 1) * w) + 1, i * w)
RowIs(T, i, row) == Len(row) = T.width /\ VFirstFar(VNumber(row), RowOf(T.want, T.width, i), RowOf(T.tol, T.width, i)) = 0
RECURSIVE Align(_, _, _, _)
Align(T, rows, i, j) ==
   IF i > Len(T.sure) THEN j > Len(rows)
   ELSE IF j <= Len(rows) /\ RowIs(T, i, rows[j]) THEN Align(T, rows, i + 1, j + 1)
   ELSE ~T.sure[i] /\ Align(T, rows, i + 1, j)
AllSure(T) == \A i \in 1..Len(T.sure) : T.sure[i]
Joined(rows) == LET w == Len(rows[1]) IN [i \in 1..(Len(rows) * w) |-> rows[((i - 1) \div w) + 1][((i - 1) % w) + 1]]
Fits(T, lines) ==
   /\ Len(lines) >= Len(T.head) /\ SubSeq(lines, 1, Len(T.head)) = T.head
   /\ LET rows == SubSeq(lines, Len(T.head) + 1, Len(lines)) IN
      IF ~AllSure(T) THEN Align(T, rows, 1, 1)
      ELSE /\ Len(rows) = Len(T.sure)
           /\ \A i \in 1..Len(rows) : Len(rows[i]) = T.width
           /\ rows = <<>> \/ VFirstFar(TLCEval(VNumber(TLCEval(Joined(rows)))), T.want, VAdd(T.tol, VConst(Len(T.tol), FTiny))) = 0
(* the first row that does not fit, for messages *)
BadRow(T, lines) ==
   IF Len(lines) < Len(T.head) \/ SubSeq(lines, 1, Len(T.head)) # T.head THEN <<"header", lines>>
   ELSE LET rows == SubSeq(lines, Len(T.head) + 1, Len(lines))
            bad == {i \in 1..Len(rows) : i > Len(T.sure) \/ ~RowIs(T, i, rows[i])}
        IN  IF bad = {} THEN <<"rows", Len(rows), "not", Len(T.sure)>>
            ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j IN
                 <<"row", i, rows[i], IF i > Len(T.sure) THEN <<>> ELSE [k \in 1..T.width |-> FShow(RowOf(T.want, T.width, i)[k])]>>
=============================================================================
