------------------------------ MODULE ParamFile ------------------------------
(***************************************************************************)
(* Reading the parameter file.  A file is a sequence of lines, a line a    *)
(* sequence of one-character strings.  A line names a parameter by the     *)
(* text before its first blank and gives as its value the first word after *)
(* that blank; the first line naming a parameter counts.                   *)
(* ParamFileMC.tla checks this reading on small files.                     *)
(***************************************************************************)
EXTENDS F64, FiniteSets

Blank == " "
White == {" ", "\t", "\r"}
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
(* position of the first blank, one past the end if there is none *)
Cut(line) == LET b == {i \in 1..Len(line) : line[i] = Blank} IN IF b = {} THEN Len(line) + 1 ELSE Least(b)
RECURSIVE Text(_)
Text(cs) == IF cs = <<>> THEN "" ELSE Head(cs) \o Text(Tail(cs))
NameOf(line) == Text(SubSeq(line, 1, Cut(line) - 1))
WordAfter(line) ==
   LET rest == SubSeq(line, Cut(line) + 1, Len(line))
       ink == {i \in 1..Len(rest) : rest[i] \notin White}
   IN  IF ink = {} THEN ""
       ELSE LET a == Least(ink)
                end == {i \in a..Len(rest) : rest[i] \in White}
            IN  Text(SubSeq(rest, a, IF end = {} THEN Len(rest) ELSE Least(end) - 1))
Missing == [found |-> FALSE]
(* names: the names of the lines *)
FindIn(file, names, key) ==
   LET at == {i \in 1..Len(file) : names[i] = key}
   IN  IF at = {} THEN Missing ELSE [found |-> TRUE, word |-> WordAfter(file[Least(at)])]
Names(file) == [i \in 1..Len(file) |-> NameOf(file[i])]
Find(file, key) == FindIn(file, Names(file), key)

(* the parameters of the program and how their words are understood *)
IntKeys == {"nx", "nl", "nm", "nlat", "nphi", "l_ang", "m_ang"}
\* the numbers of steps may not fit in an integer of TLC
RealKeys == {"nt", "t_step_save", "dt", "compactification_length", "Rmax", "Rmin", "black_hole_mass", "black_hole_spin",
             "km1", "k0", "k1", "k2", "V2", "V3", "V4", "amp", "rl", "ru"}
WordKeys == {"initial_data_type", "initial_data_direction"}
Keys == IntKeys \cup RealKeys \cup WordKeys
Absent(file) == LET n == {NameOf(file[i]) : i \in 1..Len(file)} IN {k \in Keys : k \notin n}
(* what a reader reports for every key: wrong keys *)
Misread(file, names, got) ==
   {k \in IntKeys : got[k] # IParse(FindIn(file, names, k).word)} \cup
   {k \in RealKeys : ~FEq(got[k], FParse(FindIn(file, names, k).word))} \cup
   {k \in WordKeys : got[k] # FindIn(file, names, k).word}
=============================================================================
