-------------------------------- MODULE Life --------------------------------
(***************************************************************************)
(* The life of everything that is made, used and released: transform plans *)
(* of FFTW, configurations of SHTns and FFTW's memory.                     *)
(*                                                                         *)
(* A plan is made for arrays of given lengths and is used, while it        *)
(* exists, on arrays that are at least as long, that are one array or two  *)
(* as when it was planned, and that are aligned as then (unless it was     *)
(* planned for any alignment).  Planning writes to its arrays, so they     *)
(* must be long enough as well.  A configuration is used while it exists   *)
(* and has its mesh of points, on arrays that hold all points and all      *)
(* coefficients and are aligned to 16 bytes.  What exists is released      *)
(* once; releasing anything else is not a step.  Cleaning up FFTW (or      *)
(* resetting SHTns) makes every plan undefined, so it is done only when    *)
(* there is none.  When no object of the program is left, nothing is held. *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC
VARIABLES plans,   \* id -> [nin, nout, ain, aout, any, inplace]
          cfgs,    \* id -> "made" or "ready"
          mem,     \* ids of memory
          past,    \* greatest id so far
          held     \* objects of the program
LifeVars == <<plans, cfgs, mem, past, held>>
LifeInit == plans = <<>> /\ cfgs = <<>> /\ mem = {} /\ past = 0 /\ held = {}
Fresh(i) == i > past /\ past' = i
Less(f, i) == [k \in DOMAIN f \ {i} |-> f[k]]

Plan(i, nin, nout, ain, aout, any, inplace, hin, hout) ==
   /\ Fresh(i)
   /\ hin >= nin /\ hout >= nout
   /\ plans' = (i :> [nin |-> nin, nout |-> nout, ain |-> ain, aout |-> aout, any |-> any, inplace |-> inplace]) @@ plans
   /\ UNCHANGED <<cfgs, mem, held>>
CanRun(p, ain, aout, inplace, hin, hout) ==
   /\ hin >= p.nin /\ hout >= p.nout
   /\ inplace = p.inplace
   /\ p.any = 0 => ain = p.ain /\ aout = p.aout
Execute(i, ain, aout, inplace, hin, hout) ==
   /\ i \in DOMAIN plans
   /\ CanRun(plans[i], ain, aout, inplace, hin, hout)
   /\ UNCHANGED LifeVars
Unplan(i) == /\ i \in DOMAIN plans
             /\ plans' = Less(plans, i)
             /\ UNCHANGED <<cfgs, mem, past, held>>
CleanUp == plans = <<>> /\ cfgs = <<>> /\ UNCHANGED LifeVars

Configure(i) == Fresh(i) /\ cfgs' = (i :> "made") @@ cfgs /\ UNCHANGED <<plans, mem, held>>
Mesh(i) == i \in DOMAIN cfgs /\ cfgs' = [cfgs EXCEPT ![i] = "ready"] /\ UNCHANGED <<plans, mem, past, held>>
Transform(i, nspat, nspec, hspat, hspec, aspat, aspec) ==
   /\ i \in DOMAIN cfgs /\ cfgs[i] = "ready"
   /\ hspat >= nspat /\ hspec >= nspec
   /\ aspat = 0 /\ aspec = 0
   /\ UNCHANGED LifeVars
Unconfigure(i) == i \in DOMAIN cfgs /\ cfgs' = Less(cfgs, i) /\ UNCHANGED <<plans, mem, past, held>>

Get(i) == Fresh(i) /\ mem' = mem \cup {i} /\ UNCHANGED <<plans, cfgs, held>>
Give(i) == i \in mem /\ mem' = mem \ {i} /\ UNCHANGED <<plans, cfgs, past, held>>

Nothing == plans = <<>> /\ cfgs = <<>> /\ mem = {}
Born(o) == held' = held \cup {o} /\ UNCHANGED <<plans, cfgs, mem, past>>
Gone(o) == /\ held' = held \ {o}
           /\ held' = {} => Nothing
           /\ UNCHANGED <<plans, cfgs, mem, past>>
Done == /\ Nothing
        /\ held' = {} /\ UNCHANGED <<plans, cfgs, mem, past>>
=============================================================================
