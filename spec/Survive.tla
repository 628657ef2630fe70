------------------------------- MODULE Survive -------------------------------
(***************************************************************************)
(* What a run that is stopped at any moment leaves behind.  The state is   *)
(* what the operating system holds (disk: file -> size); what the program  *)
(* still has in its own buffers is lost.  Tables only grow, an output is   *)
(* whole before the next one begins, and soon after it was begun: before   *)
(* the run has gone on by more than a few further steps.                   *)
(* SurviveMC.tla checks ways of writing tables against it; Trace_Survive   *)
(* checks what the real program has on the disk at every transform it      *)
(* makes, and what is left when it is killed there.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES disk, at            \* at: how far the run has come (in some unit of work)
SurviveVars == <<disk, at>>
SurviveInit == disk = <<>> /\ at = 0
Grows(new) == DOMAIN disk \subseteq DOMAIN new /\ \A f \in DOMAIN disk : disk[f] <= new[f]
(* out[j]: the tables of output j; final[f]: size of a whole table *)
Whole(d, out, j, final) == \A f \in out[j] : f \in DOMAIN d /\ d[f] = final[f]
Begun(d, out, j) == out[j] \cap DOMAIN d # {}
Orderly(d, out, final) == \A j \in DOMAIN out : (j + 1 \in DOMAIN out /\ Begun(d, out, j + 1)) => Whole(d, out, j, final)
(* due[j]: when output j has to be whole *)
InTime(d, now, out, final, due) == \A j \in DOMAIN out : now > due[j] => Whole(d, out, j, final)
(* the disk is `new' from now on; until just before it was as it was *)
Change(new, now, out, final, due) ==
   /\ now >= at /\ Grows(new)
   /\ InTime(disk, now - 1, out, final, due) /\ Orderly(new, out, final)
   /\ disk' = new /\ at' = now
=============================================================================
