-------------------------------- MODULE CsvMC --------------------------------
(***************************************************************************)
(* Small tables, exhaustively: a text fits its table exactly when it has   *)
(* the header asked for and its rows are the sure rows with any choice of  *)
(* the unsure ones, in order; and no two different (kind, name, number)    *)
(* share a file name as long as names do not themselves end in a kind.     *)
(***************************************************************************)
EXTENDS Csv, FiniteSets, TLC
VARIABLES T, lines, coords, names
vars == <<T, lines, coords, names>>
N == 3
Val(i) == FInt(i)
Txt(i) == <<ToString(10 * i), ToString(i)>>
Table(sure, h) == [head |-> IF h THEN <<<<"a", "b">>>> ELSE <<>>, width |-> 2,
                   want |-> VFlat([i \in 1..N |-> <<FInt(10 * i), FInt(i)>>]), tol |-> VConst(2 * N, F0), sure |-> sure]
(* texts: a header or none, then up to four rows out of the three *)
Texts == {h \o r : h \in {<<>>, <<<<"a", "b">>>>, <<<<"a">>>>}, r \in UNION {[1..k -> {Txt(1), Txt(2), Txt(3)}] : k \in 0..4}}
Stems == {"f", "rho", "f_1", "out/f"}
Triples == Stems \X {"plain", "RPsl", "NPsl", "XYZ"} \X {0, 1, 11, 111}
Init == /\ coords \in BOOLEAN /\ \E s \in [1..N -> BOOLEAN] : T = Table(s, coords)
        /\ lines = <<>> /\ names = {}
PickText == /\ lines = <<>> /\ lines' \in (Texts \ {<<>>}) /\ UNCHANGED <<T, coords, names>>
(* writing outputs one after another *)
Write == /\ lines = <<>> /\ coords /\ AllSure(T) /\ Cardinality(names) < 2
         /\ \E x \in Triples : names' = names \cup {x}
         /\ UNCHANGED <<T, lines, coords>>
Next == PickText \/ Write
Spec == Init /\ [][Next]_vars
(* what Fits should mean: some increasing choice of rows containing the sure ones *)
Chosen(S) == LET q == SelectSeq([i \in 1..N |-> i], LAMBDA i : i \in S) IN [k \in 1..Len(q) |-> Txt(q[k])]
Meaning == \E S \in SUBSET (1..N) : {i \in 1..N : T.sure[i]} \subseteq S /\ lines = T.head \o Chosen(S)
FitsIsMeaning == Fits(T, lines) <=> Meaning
NoClash == \A x, y \in names : x # y => CsvName(x[2], x[1], x[3]) # CsvName(y[2], y[1], y[3])
Inv == FitsIsMeaning /\ NoClash
=============================================================================
