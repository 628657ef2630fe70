-------------------------------- MODULE RunMC --------------------------------
(***************************************************************************)
(* The loop of the program against the schedule of Run: for all nt and s   *)
(* up to Most it stops, has taken nt-1 steps, and output j shows the state *)
(* after j*s steps.  A state of a field is the number of steps it is away  *)
(* from the initial data.  Outputs in `blocked' cannot be written: they are *)
(* named instead and the run goes on.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Most, MostBlocked     \* at most so many outputs that cannot be written
VARIABLES nt, s, pc, itm, old, new, saves, idx, blocked, named
vars == <<nt, s, pc, itm, old, new, saves, idx, blocked, named>>
Outputs(n, k) == [j \in 0..((n - 1) \div k) |-> j * k]
Init == /\ nt \in 1..Most /\ s \in 1..(Most + 2)
        /\ pc = "start" /\ itm = 0 /\ old = 0 /\ new = 0 /\ saves = <<>> /\ idx = 0
        /\ blocked \in {b \in SUBSET (0..(Most - 1)) : Cardinality(b) <= MostBlocked} /\ named = {}
Write(k) == IF k \in blocked THEN named' = named \cup {k} /\ UNCHANGED saves
            ELSE saves' = Append(saves, <<k, new>>) /\ UNCHANGED named
First == /\ pc = "start" /\ Write(0) /\ itm' = 1 /\ pc' = "loop"
         /\ UNCHANGED <<nt, s, old, new, idx, blocked>>
Step == /\ pc = "loop" /\ itm < nt /\ new' = old + 1 /\ pc' = "save"
        /\ UNCHANGED <<nt, s, itm, old, saves, idx, blocked, named>>
Save == /\ pc = "save"
        /\ IF itm % s = 0 THEN idx' = idx + 1 /\ Write(idx + 1) ELSE UNCHANGED <<idx, saves, named>>
        /\ pc' = "shift" /\ UNCHANGED <<nt, s, itm, old, new, blocked>>
Shift == /\ pc = "shift" /\ old' = new /\ itm' = itm + 1 /\ pc' = "loop" /\ UNCHANGED <<nt, s, new, saves, idx, blocked, named>>
Stop == /\ pc = "loop" /\ itm >= nt /\ pc' = "end" /\ UNCHANGED <<nt, s, itm, old, new, saves, idx, blocked, named>>
Next == First \/ Step \/ Save \/ Shift \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AsScheduled == \A i \in 1..Len(saves) : saves[i][2] = Outputs(nt, s)[saves[i][1]]
Saved == {saves[i][1] : i \in 1..Len(saves)}
Complete == pc = "end" => /\ Saved = DOMAIN Outputs(nt, s) \ blocked /\ named = DOMAIN Outputs(nt, s) \cap blocked
                          /\ new = nt - 1 /\ old = nt - 1
(* no state is saved before it is reached, none twice *)
Distinct == \A i, j \in 1..Len(saves) : i # j => saves[i][1] # saves[j][1] /\ saves[i][2] # saves[j][2]
Ends == <>(pc = "end")
=============================================================================
