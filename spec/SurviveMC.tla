------------------------------ MODULE SurviveMC ------------------------------
(* A program that saves tables of Rows rows every Every steps, in one of     *)
(* several ways; it may be killed at any moment:                             *)
(*   closed  each table is written and closed before anything else           *)
(*   held    tables are closed when the next output begins                   *)
(*   open    tables stay open until the end                                  *)
(*   late    output j is written when output j+1 is due                      *)
(*   anew    a table is begun anew (emptied) when its file exists            *)
EXTENDS Survive
CONSTANTS Tables, Rows, Every, Steps, Way
VARIABLES step, todo, buf, alive
vars == <<disk, at, step, todo, buf, alive>>
Js == 0..(Steps \div Every)
Out == [j \in Js |-> {<<t, j>> : t \in Tables}]
Final == [f \in Tables \X Js |-> Rows]
Due == [j \in Js |-> (j * Every)]                  \* before another step has been taken
Files(j) == {<<t, j>> : t \in Tables}
Init == SurviveInit /\ step = 0 /\ todo = Files(0) /\ buf = <<>> /\ alive = TRUE
Size(f) == (IF f \in DOMAIN disk THEN disk[f] ELSE 0) + (IF f \in DOMAIN buf THEN buf[f] ELSE 0)
Put(g, k, v) == (k :> v) @@ g
Drop(g, S) == [x \in DOMAIN g \ S |-> g[x]]
Flushed(S) == [f \in DOMAIN disk \cup (S \cap DOMAIN buf) |-> IF f \in S THEN Size(f) ELSE disk[f]]
(* a row goes into the buffer; the buffer may go to the disk *)
Row == \E f \in todo : /\ \A g \in todo : g[2] >= f[2]
                       /\ Size(f) < Rows /\ buf' = Put(buf, f, (IF f \in DOMAIN buf THEN buf[f] ELSE 0) + 1)
                       /\ UNCHANGED <<disk, at, step, todo, alive>>
Flush == \E f \in DOMAIN buf : buf[f] > 0 /\ disk' = Flushed({f}) /\ buf' = Put(buf, f, 0) /\ UNCHANGED <<at, step, todo, alive>>
Close(S) == disk' = Flushed(S) /\ buf' = Drop(buf, S)
Done == \E f \in todo : /\ Size(f) = Rows /\ todo' = todo \ {f}
                        /\ IF Way \in {"closed", "late", "anew"} THEN Close({f}) ELSE UNCHANGED <<disk, buf>>
                        /\ UNCHANGED <<at, step, alive>>
Step == /\ todo = {} /\ step < Steps /\ step' = step + 1 /\ at' = step + 1
        /\ LET j == (step + 1) \div Every IN
           IF (step + 1) % Every # 0 THEN UNCHANGED <<todo, disk, buf>>
           ELSE /\ todo' = Files(IF Way = "late" THEN j - 1 ELSE j)
                /\ IF Way = "held" THEN Close(DOMAIN buf)
                   ELSE IF Way = "anew" THEN disk' = [f \in DOMAIN disk |-> IF f \in Files(j - 1) THEN 0 ELSE disk[f]] /\ UNCHANGED buf
                   ELSE UNCHANGED <<disk, buf>>
        /\ UNCHANGED alive
End == /\ todo = {} /\ step = Steps /\ DOMAIN buf # {} /\ Close(DOMAIN buf) /\ UNCHANGED <<at, step, todo, alive>>
Kill == alive' = FALSE /\ UNCHANGED <<disk, at, step, todo, buf>>      \* the buffers are lost
Next == alive /\ (Row \/ Flush \/ Done \/ Step \/ End \/ Kill)
Spec == Init /\ [][Next]_vars
(* wherever it is killed *)
Survives == InTime(disk, at, Out, Final, Due) /\ Orderly(disk, Out, Final)
OnlyGrows == [][Grows(disk')]_vars
=============================================================================
