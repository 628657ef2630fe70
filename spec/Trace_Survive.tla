---------------------------- MODULE Trace_Survive ----------------------------
(* What the real program has on the disk at every transform it makes, and   *)
(* what it leaves when it is killed at one of them.                         *)
EXTENDS Survive, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<disk, at, t, l>>
T == Traces[t]
Ev == T[l]
Is(e) == l <= Len(T) /\ Ev.e = e /\ l' = l + 1 /\ t' = t
Sizes(fs) == [n \in {fs[i][1] : i \in 1..Len(fs)} |-> fs[CHOOSE i \in 1..Len(fs) : fs[i][1] = n][2]]
(* the first event says what the run was, the one of kind "end" what it left *)
B == T[1]
E == T[CHOOSE i \in 1..Len(T) : T[i].e = "end"]
Final == Sizes(E.files)
Js == 0..((B.nt - 1) \div B.s)
Name(x, j) == x \o "_RPsl_" \o ToString(j) \o ".csv"
Out == [j \in Js |-> {Name("f", j), Name("rho", j)}]
(* about a step's worth of transforms: the run's over its number of steps *)
AStep == E.at \div (B.nt - 1) + 1
Births(j) == {T[i].at : i \in {k \in 2..Len(T) : T[k].e \in {"disk", "end"} /\ Begun(Sizes(T[k].files), Out, j)}}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Least(x, y) == IF x < y THEN x ELSE y
First == Least(Min(Births(0)), 3 * AStep)
(* an output is whole soon after it was begun, and soon after the step it is of:
   steps come at an even pace, what outputs cost makes up one step at most *)
Due == [j \in Js |-> Least(Min(Births(j)) + 2 * AStep, First + ((E.at - First) * j * B.s) \div (B.nt - 1) + 3 * AStep)]
All == {Name(x, j) : x \in {"f", "rho"}, j \in Js}
Begin == Is("begin") /\ (\E i \in 1..Len(T) : T[i].e = "end") /\ All \subseteq DOMAIN Final /\ UNCHANGED SurviveVars
Disk == (Is("disk") \/ Is("end")) /\ Change(Sizes(Ev.files), Ev.at, Out, Final, Due)
(* killed at Ev.at: tables are compared by their lines and cells, as the last digits of a
   number may differ from run to run *)
Left == [n \in {Ev.files[i][1] : i \in 1..Len(Ev.files)} |-> LET f == Ev.files[CHOOSE i \in 1..Len(Ev.files) : Ev.files[i][1] = n] IN <<f[2], f[3]>>]
Tables == [n \in All |-> LET f == E.tables[CHOOSE i \in 1..Len(E.tables) : E.tables[i][1] = n] IN <<f[2], f[3]>>]
KilledAt == /\ Is("killed")
            /\ InTime(Left, Ev.at, Out, Tables, Due) /\ Orderly(Left, Out, Tables)
            /\ UNCHANGED SurviveVars
TInit == SurviveInit /\ t \in 1..Len(Traces) /\ l = 1
TNext == Begin \/ Disk \/ KilledAt \/ (l > Len(T) /\ UNCHANGED vars)
TSpec == TInit /\ [][TNext]_vars
Where == IF l > Len(T) THEN [trace |-> t, at |-> l]
         ELSE IF Ev.e \notin {"disk", "end", "killed"} THEN [trace |-> t, at |-> l, event |-> Ev]
         ELSE LET d == IF Ev.e = "killed" THEN Left ELSE Sizes(Ev.files)
                  f == IF Ev.e = "killed" THEN Tables ELSE Final IN
              [trace |-> t, at |-> l, event |-> Ev.e, moment |-> Ev.at, of |-> E.at,
               there |-> DOMAIN d, not_whole |-> {n \in DOMAIN d \cap DOMAIN f : d[n] # f[n]},
               shrunk |-> IF Ev.e = "killed" THEN {} ELSE {n \in DOMAIN disk : n \notin DOMAIN d \/ d[n] < disk[n]},
               late |-> {j \in Js : (IF Ev.e = "killed" THEN Ev.at ELSE Ev.at - 1) > Due[j] /\ ~Whole(IF Ev.e = "killed" THEN d ELSE disk, Out, j, f)}]
=============================================================================
