------------------------------- MODULE LaunchMC -------------------------------
(***************************************************************************)
(* The procedure of a launch, step by step, over repeated launches of one  *)
(* or several Sim objects, with failures: a taken directory, a missing     *)
(* executable, a run that ends with an error, a launcher that is stopped.  *)
(* Checked: a directory is never used twice, a run finds its own parameter *)
(* file and the executable of its launch, launches do not touch each       *)
(* other's directories, the working directory is home between launches.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Dirs, Launches
VARIABLES fs,       \* directory -> what it holds, for the directories made
          n,        \* launches begun
          pc, dir, cwd, bin, runs, env
vars == <<fs, n, pc, dir, cwd, bin, runs, env>>
Home == "home"
Nothing == [params |-> 0, exe |-> 0, out |-> 0, job |-> 0]
Init == /\ fs \in UNION {[S -> {Nothing}] : S \in SUBSET Dirs} /\ Cardinality(DOMAIN fs) <= 1
        /\ n = 0 /\ pc = "idle" /\ dir = "none" /\ cwd = Home /\ bin = 1 /\ runs = <<>> /\ env = 0
Start == /\ pc = "idle" /\ n < Launches /\ n' = n + 1 /\ \E d \in Dirs : dir' = d
         /\ pc' = "mkdir" /\ UNCHANGED <<fs, cwd, bin, runs, env>>
Refuse == /\ pc = "mkdir" /\ dir \in DOMAIN fs /\ pc' = "idle" /\ UNCHANGED <<fs, n, dir, cwd, bin, runs, env>>
Mkdir == /\ pc = "mkdir" /\ dir \notin DOMAIN fs /\ fs' = fs @@ (dir :> Nothing) /\ pc' = "build" /\ UNCHANGED <<n, dir, cwd, bin, runs, env>>
(* recompiling makes a new executable *)
Build == /\ pc = "build" /\ (bin' = bin \/ bin' = n + 1) /\ pc' = "params" /\ UNCHANGED <<fs, n, dir, cwd, runs, env>>
Params == /\ pc = "params" /\ fs' = [fs EXCEPT ![dir].params = n] /\ pc' = "copy" /\ UNCHANGED <<n, dir, cwd, bin, runs, env>>
Copy == /\ pc = "copy" /\ bin # 0 /\ fs' = [fs EXCEPT ![dir].exe = bin] /\ pc' = "enter" /\ UNCHANGED <<n, dir, cwd, bin, runs, env>>
NoExe == /\ pc = "copy" /\ pc' = "idle" /\ UNCHANGED <<fs, n, dir, cwd, bin, runs, env>>
Enter == /\ pc = "enter" /\ env' = n /\ cwd' = dir /\ pc' = "run"
         /\ (fs' = fs \/ fs' = [fs EXCEPT ![dir].job = n])
         /\ UNCHANGED <<n, dir, bin, runs>>
Run == /\ pc = "run" /\ runs' = Append(runs, [launch |-> n, cwd |-> cwd, params |-> fs[cwd].params, exe |-> fs[cwd].exe, asked |-> bin, env |-> env])
       /\ fs' = [fs EXCEPT ![cwd].out = n] /\ pc' = "leave" /\ UNCHANGED <<n, dir, cwd, bin, env>>
Leave == /\ pc = "leave" /\ cwd' = Home /\ pc' = "idle" /\ UNCHANGED <<fs, n, dir, bin, runs, env>>
Next == Start \/ Refuse \/ Mkdir \/ Build \/ Params \/ Copy \/ NoExe \/ Enter \/ Run \/ Leave
Spec == Init /\ [][Next]_vars /\ WF_vars(Refuse \/ Mkdir \/ Build \/ Params \/ Copy \/ NoExe \/ Enter \/ Run \/ Leave)
RunsComplete == \A i \in 1..Len(runs) : runs[i].params = runs[i].launch /\ runs[i].exe = runs[i].asked /\ runs[i].env = runs[i].launch
OneEach == \A i, j \in 1..Len(runs) : i # j => runs[i].launch # runs[j].launch /\ runs[i].cwd # runs[j].cwd
(* what a directory holds comes from one launch *)
NotMixed == \A d \in DOMAIN fs : \A a, b \in {fs[d].params, fs[d].out, fs[d].job} \ {0} : a = b
HomeBetween == pc = "idle" => cwd = Home
Untouched == [][\A d \in DOMAIN fs : d # dir => fs'[d] = fs[d]]_vars
NeverReused == [][pc = "mkdir" /\ dir \in DOMAIN fs => fs' = fs /\ runs' = runs]_vars
Ends == []<>(pc = "idle")
=============================================================================
