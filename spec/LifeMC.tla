------------------------------- MODULE LifeMC -------------------------------
(***************************************************************************)
(* Objects that work through a transform plan, made, used and destroyed in *)
(* every order, under several ways of owning the plan:                     *)
(*   own      each object has a plan of its own (what the code does)       *)
(*   counted  objects of one size share a plan, counting its users         *)
(*   shared   objects of one size share a plan; whoever made it destroys it*)
(*   largest  there is one plan, made anew when a larger object comes      *)
(*   copied   an object may be a copy of another, plan and all             *)
(*   cleaner  own, and the destructor also cleans up FFTW                  *)
(* With own and counted every step the program takes is a step of Life     *)
(* and nothing is held when no object is left; with the others not.        *)
(***************************************************************************)
EXTENDS Life
CONSTANTS Objs, Sizes, Way
VARIABLES size, plan, maker, count, wrong
vars == <<plans, cfgs, mem, past, held, size, plan, maker, count, wrong>>
Init == LifeInit /\ size = <<>> /\ plan = <<>> /\ maker = <<>> /\ count = <<>> /\ wrong = FALSE
Fits(i, n) == i \in DOMAIN plans /\ CanRun(plans[i], 0, 0, 0, n, n)
P(n) == [nin |-> n, nout |-> n, ain |-> 0, aout |-> 0, any |-> 0, inplace |-> 0]
Shared == Way \in {"counted", "shared"}
(* o comes into being with plan i; planned says whether the plan is new *)
Birth(o, n, i, planned) ==
   /\ held' = held \cup {o} /\ size' = (o :> n) @@ size /\ plan' = (o :> i) @@ plan
   /\ maker' = (IF planned THEN (i :> o) ELSE <<>>) @@ maker
   /\ count' = (i :> (IF i \in DOMAIN count /\ ~planned THEN count[i] + 1 ELSE 1)) @@ count
   /\ past' = IF planned THEN i ELSE past
   /\ UNCHANGED <<cfgs, mem, wrong>>
Usable(n) == {i \in DOMAIN plans : IF Way = "largest" THEN plans[i].nin >= n ELSE plans[i].nin = n}
Make(o, n) ==
   /\ o \notin DOMAIN size
   /\ IF (Shared \/ Way = "largest") /\ Usable(n) # {}
      THEN Birth(o, n, CHOOSE i \in Usable(n) : TRUE, FALSE) /\ UNCHANGED plans
      ELSE Birth(o, n, past + 1, TRUE) /\ plans' = (past + 1 :> P(n)) @@ plans
Copy(o, q) ==
   /\ Way = "copied" /\ o \notin DOMAIN size /\ q \in held
   /\ Birth(o, size[q], plan[q], FALSE) /\ UNCHANGED plans
Use(o) ==
   /\ o \in held
   /\ wrong' = (wrong \/ ~Fits(plan[o], size[o]))
   /\ UNCHANGED <<plans, cfgs, mem, past, held, size, plan, maker, count>>
Releases(o) == LET i == plan[o] IN
   CASE Way = "counted" -> count[i] = 1
     [] Way \in {"shared", "largest"} -> maker[i] = o
     [] OTHER -> TRUE
Destroy(o) ==
   /\ o \in held /\ held' = held \ {o}
   /\ plans' = IF Way = "cleaner" THEN <<>> ELSE IF Releases(o) THEN Less(plans, plan[o]) ELSE plans
   /\ count' = [count EXCEPT ![plan[o]] = IF @ > 0 THEN @ - 1 ELSE 0]
   /\ wrong' = \/ wrong
               \/ Releases(o) /\ plan[o] \notin DOMAIN plans
               \/ Way = "cleaner" /\ Less(plans, plan[o]) # <<>>
               \/ held' = {} /\ plans' # <<>>
   /\ UNCHANGED <<cfgs, mem, past, size, plan, maker>>
Next == \/ \E o \in Objs, n \in Sizes : Make(o, n)
        \/ \E o, q \in Objs : Copy(o, q)
        \/ \E o \in held : Use(o) \/ Destroy(o)
Spec == Init /\ [][Next]_vars
Right == ~wrong
=============================================================================
