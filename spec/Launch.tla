-------------------------------- MODULE Launch --------------------------------
(***************************************************************************)
(* The launcher: what it derives from the settings, and what a launch      *)
(* leaves behind.  LaunchMC.tla checks the procedure of a launch against   *)
(* the rules here, over repeated launches that may fail at every step.     *)
(***************************************************************************)
EXTENDS ParamFile, TLC

Rel(a, b, ulps) == FNear(a, b, FAdd(FMul(FMul(FInt(ulps), FEps), FMax(FAbs(a), FAbs(b))), FTiny))
Max3(a, b, c) == FMax(a, FMax(b, c))

(* derived parameters.  S: the settings, D: the same after deriving *)
Horizon(S) == FAdd(S.black_hole_mass, FSqrt(FMul(FSub(S.black_hole_mass, S.black_hole_spin), FAdd(S.black_hole_mass, S.black_hole_spin))))
(* m^2-a^2 cannot be had better than to a rounding of m^2 *)
HorizonTol(S) ==
   LET m == S.black_hole_mass  e == FMul(FMul(FInt(4), FEps), FSq(m))  root == FSub(Horizon(S), m)
   IN  FAdd(FMul(FMul(FInt(4), FEps), m), IF FLt(F0, root) THEN FMin(FSqrt(e), FDiv(e, root)) ELSE FSqrt(e))
Compact(r, L) == FDiv(r, FAdd(F1, FDiv(r, L)))
Dt(S, cheb) ==
   LET six(n) == FDiv(FInt(6), FSq(n)) IN
   IF cheb THEN six(Max3(S.nx, S.nlat, S.nphi))
   ELSE FMin(six(FMax(S.nlat, S.nphi)), FDiv(S.cfl, FSub(S.nx, F1)))
(* n is the whole part of x, up to the rounding of x *)
WholePart(n, x) ==
   LET slack == FMul(FMul(FInt(8), FEps), FAbs(x))
   IN  FLe(n, FAdd(x, slack)) /\ FLt(FSub(x, slack), FAdd(n, F1))
(* exact for whole numbers *)
Quotient(s, n, k) == FLe(F1, s) /\ FLe(FMul(s, k), n) /\ FLt(n, FMul(FAdd(s, F1), k))
Derived == {"horizon", "rl", "ru", "Rmin", "Rmax", "dt", "nt", "t_step_save"}
Wrong(S, D, cheb) ==
   IF ~(Derived \subseteq DOMAIN D) THEN Derived \ DOMAIN D ELSE
   (IF FNear(D.horizon, Horizon(S), HorizonTol(S)) THEN {} ELSE {"horizon"}) \cup
   (IF Rel(D.rl, FMul(D.horizon, S.rl_0), 4) THEN {} ELSE {"rl"}) \cup
   (IF Rel(D.ru, FMul(D.horizon, S.ru_0), 4) THEN {} ELSE {"ru"}) \cup
   (IF Rel(D.Rmin, Compact(D.horizon, S.compactification_length), 8) THEN {} ELSE {"Rmin"}) \cup
   (IF FEq(D.Rmax, S.compactification_length) THEN {} ELSE {"Rmax"}) \cup
   (IF Rel(D.dt, Dt(S, cheb), 8) THEN {} ELSE {"dt"}) \cup
   (IF WholePart(D.nt, FDiv(FMul(S.evolve_time, S.black_hole_mass), D.dt)) THEN {} ELSE {"nt"}) \cup
   (IF Quotient(D.t_step_save, D.nt, S.num_saved_times) \/ (FLt(D.nt, S.num_saved_times) /\ FEq(D.t_step_save, F1)) THEN {} ELSE {"t_step_save"})
(* settings that came out different *)
Altered(B, A) == {k \in DOMAIN B.r \ (Derived \cup {"output_dir"}) : k \notin DOMAIN A.r \/ A.r[k] # B.r[k]} \cup
                 {k \in DOMAIN B.w \ {"output_dir", "output_stem", "parameter_file", "output_file", "run_str"} : k \notin DOMAIN A.w \/ A.w[k] # B.w[k]}

(* what the executable will read equals the settings *)
Handed(A, names, file, got) ==
   {k \in Keys : k \notin {names[i] : i \in 1..Len(names)}} \cup
   {k \in IntKeys : k \notin DOMAIN A.i \/ got[k] # A.i[k] \/ IParse(FindIn(file, names, k).word) # A.i[k]} \cup
   {k \in RealKeys : k \notin DOMAIN A.r \/ ~FEq(got[k], A.r[k]) \/ ~FEq(FParse(FindIn(file, names, k).word), A.r[k])} \cup
   {k \in WordKeys : k \notin DOMAIN A.w \/ got[k] # A.w[k] \/ FindIn(file, names, k).word # A.w[k]}

(* one run: in its directory, of the copy of the chosen executable, with the
   parameter file and the directory it was given, and the threads asked for *)
RanAsAsked(run, dir, A) ==
   [exe     |-> run.exe = dir \o "/" \o A.w.bin_name,
    chosen  |-> run.bin = A.w.bin_name /\ run.fresh,
    cwd     |-> run.cwd = dir,
    args    |-> Len(run.args) = 2 /\ run.args[1] = dir \o "/params.txt" /\ run.args[2] = dir,
    threads |-> run.threads = ToString(A.i.num_threads),
    levels  |-> run.levels = ToString(A.i.num_omp_levels),
    kept    |-> run.kept]
JobAsAsked(job, dir, A) ==
   [script |-> job.dir = dir /\ job.readable /\ job.cwd = dir,
    asks   |-> job.time = A.w.walltime /\ job.mem = A.w.memory /\ job.mail = A.w.email]
AllTrue(r) == \A k \in DOMAIN r : r[k]

(* where a launch must put its directory; "" if the name is made up *)
Place(ev) == IF ev.how # "given" THEN "" ELSE (IF ev.mode = "home" THEN "/home/Output" ELSE ev.stem) \o ev.asked
Taken(ev) == ev.how = "given" /\ Place(ev) \in {ev.dirs_before[i] : i \in 1..Len(ev.dirs_before)}
(* a name made up holds the main parameters, so that launches of different runs do not get into each other's way *)
HasNumber(ns, x) == \E i \in 1..Len(ns) : FEq(FParse(ns[i]), x)
MadeUp(ev) ==
   /\ ev.parent = (IF ev.mode = "home" THEN "/home/Output" ELSE ev.stem)
   /\ \A k \in {"nx", "nl", "nm"} : HasNumber(ev.numbers, FInt(ev.after.i[k]))
   /\ \A k \in {"black_hole_mass", "black_hole_spin"} : HasNumber(ev.numbers, ev.after.r[k])
(* the outcome of a launch, as named parts that must all hold *)
Refused(ev) == [raised |-> ev.raised # "", nothing |-> Len(ev.touched) = 0 /\ Len(ev.made) = 0, norun |-> Len(ev.runs) = 0 /\ Len(ev.jobs) = 0, back |-> ev.cwd_back]
Broken(ev) == [raised |-> ev.raised # "", elsewhere |-> Len(ev.touched) = 0, norun |-> Len(ev.runs) = 0 /\ Len(ev.jobs) = 0, back |-> ev.cwd_back]
Carried(ev) ==
   LET A == ev.after IN
   [quiet     |-> ev.raised = "",
    fresh     |-> ev.dir_new /\ (ev.how = "given" => ev.dir = Place(ev)),
    madeup    |-> ev.how = "auto" => MadeUp(ev),
    elsewhere |-> Len(ev.touched) = 0,
    back      |-> ev.cwd_back,
    copied    |-> ev.copied,
    derived   |-> Wrong(A.r, A.r, A.cheb) = {} /\ Altered(ev.before, A) = {},
    \* the run script chooses the executable of its radial method
    method    |-> ev.script => A.w.bin_name = (IF A.cheb THEN "default_cheb.run" ELSE "default_fd.run"),
    onerun    |-> Len(ev.runs) = 1 /\ Len(ev.jobs) = (IF ev.mode = "home" THEN 0 ELSE 1)]
   @@ (IF Len(ev.runs) = 1 THEN RanAsAsked(ev.runs[1], ev.dir, A) @@
          ("params" :> (ev.read.outcome = "read" /\ \E n \in {Names(ev.read.file)} : Handed(A, n, ev.read.file, ev.read.got) = {})) ELSE <<>>)
   @@ (IF Len(ev.jobs) = 1 THEN JobAsAsked(ev.jobs[1], ev.dir, A) ELSE <<>>)
=============================================================================
