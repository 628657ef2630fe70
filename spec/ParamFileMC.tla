----------------------------- MODULE ParamFileMC -----------------------------
(* Small files, exhaustively: a file grows line by line over a small        *)
(* alphabet, and what is read obeys the promises of the parameter file.     *)
EXTENDS ParamFile
CONSTANTS Lines          \* number of lines
VARIABLES file
Chars == {"a", "b", " ", "1"}
LineSet == UNION {[1..k -> Chars] : k \in 0..4}
K == {"a", "b", "ab", "a1"}
\* lines worth having: those that start with a letter or a blank
Init == file = <<>>
Add == Len(file) < Lines /\ \E x \in LineSet : file' = Append(file, x)
Next == Add
Spec == Init /\ [][Next]_file
Val(f, k) == Find(f, k)
(* a key is found exactly when some line is the key, or starts with the key and a blank *)
Starts(line, k) == NameOf(line) = k
FoundIff == \A k \in K : Val(file, k).found <=> \E i \in 1..Len(file) : Starts(file[i], k)
(* the name is followed by a blank or by nothing, and holds no blank *)
NameShape == \A i \in 1..Len(file) : LET c == Cut(file[i]) IN
   (c = Len(file[i]) + 1 \/ file[i][c] = Blank) /\ \A j \in 1..(c - 1) : file[i][j] # Blank
WordShape == \A i \in 1..Len(file) : LET w == WordAfter(file[i]) IN
   w = "" => \A j \in (Cut(file[i]) + 1)..Len(file[i]) : file[i][j] \in White
(* a line added after the first match changes nothing, and lines that name something else never matter *)
FirstCounts == [][\A k \in K : Val(file, k).found => Val(file', k) = Val(file, k)]_file
OthersDoNot == [][\A k \in K : NameOf(file'[Len(file')]) # k => Val(file', k) = Val(file, k)]_file
(* the order of lines of different names does not matter *)
Swapped(f) == <<f[2], f[1]>>
OrderFree == Len(file) = 2 => (NameOf(file[1]) # NameOf(file[2]) => \A k \in K : Val(Swapped(file), k) = Val(file, k))
=============================================================================
