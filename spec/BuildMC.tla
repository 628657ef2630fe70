------------------------------- MODULE BuildMC -------------------------------
(* Every history of builds, with builds that fail half way and objects of   *)
(* other flags left behind; make may keep or delete the objects it made.    *)
EXTENDS Build
CONSTANTS Units, CleanFirst
VARIABLES objs, exes, pc, fl, sound, old
vars == <<objs, exes, pc, fl, sound, old>>
Names == {ChebName, FdName}
Fl == {Flags(a, b) : a, b \in {"yes", "no"}}
Ideal(name) == CASE name = ChebName -> Flags("yes", "yes") [] name = FdName -> Flags("no", "yes")
(* objects of the units, exactly: an executable is what its objects are *)
Content(parts) == LET one(S, k) == {parts[o][k] : o \in S \cap Units} IN
   Flags(IF Cardinality(one(OnRadial, "cheb")) = 1 THEN CHOOSE x \in one(OnRadial, "cheb") : TRUE ELSE "?",
         IF Cardinality(one(OnLayout, "contig")) = 1 THEN CHOOSE x \in one(OnLayout, "contig") : TRUE ELSE "?")
Parts(f) == [o \in Units |-> IF o \in DOMAIN objs THEN objs[o] ELSE f]
Init == objs = <<>> /\ exes = <<>> /\ pc = "idle" /\ fl = Unsure /\ sound = TRUE /\ old = <<>>
(* one make: of it any object it made may stay; or it fails half way *)
Make(name, f, next) ==
   \/ /\ \E S \in SUBSET (Units \ DOMAIN objs) : objs' = [o \in DOMAIN objs \cup S |-> Parts(f)[o]]
      /\ exes' = Put(exes, name, Content(Parts(f))) /\ pc' = next /\ UNCHANGED <<sound, old>>
   \/ /\ \E S \in SUBSET (Units \ DOMAIN objs) : objs' = [o \in DOMAIN objs \cup S |-> Parts(f)[o]]
      /\ pc' = next /\ sound' = FALSE /\ UNCHANGED <<exes, old>>
Clean(next) == objs' = (IF CleanFirst THEN <<>> ELSE objs) /\ pc' = next /\ UNCHANGED <<exes, sound, old>>
User == /\ pc \in {"idle", "configured", "recompiled"} /\ sound' = TRUE /\ old' = exes
        /\ \/ pc' = "config1" /\ UNCHANGED <<objs, exes, fl>>
           \/ \E n \in Names : pc' = "recompile1" /\ fl' = Ideal(n) /\ UNCHANGED <<objs, exes>>
           \/ \E n \in Names, f \in Fl : /\ pc' = "idle" /\ exes' = Put(exes, n, Content(Parts(f))) /\ UNCHANGED fl
                                          /\ \E S \in SUBSET (Units \ DOMAIN objs) : objs' = [o \in DOMAIN objs \cup S |-> Parts(f)[o]]
           \/ \E o \in Units, f \in Fl : pc' = "idle" /\ objs' = Put(objs, o, IF o \in DOMAIN objs THEN objs[o] ELSE f) /\ UNCHANGED <<exes, fl>>
           \/ pc' = "idle" /\ objs' = <<>> /\ UNCHANGED <<exes, fl>>
           \/ pc' = "idle" /\ exes' = <<>> /\ UNCHANGED <<objs, fl>>
Next == \/ User
        \/ pc = "config1" /\ Clean("config2") /\ UNCHANGED fl
        \/ pc = "config2" /\ Make(ChebName, Ideal(ChebName), "config3") /\ UNCHANGED fl
        \/ pc = "config3" /\ Clean("config4") /\ UNCHANGED fl
        \/ pc = "config4" /\ Make(FdName, Ideal(FdName), "configured") /\ UNCHANGED fl
        \/ pc = "recompile1" /\ Clean("recompile2") /\ UNCHANGED fl
        \/ pc = "recompile2" /\ Make(IF fl = Ideal(ChebName) THEN ChebName ELSE FdName, fl, "recompiled") /\ UNCHANGED fl
Spec == Init /\ [][Next]_vars
Configured == (pc = "configured" /\ sound) => \A n \in Names : n \in DOMAIN exes /\ exes[n] = Right(n)
Recompiled == (pc = "recompiled" /\ sound) =>
   \E n \in Names : /\ fl = Ideal(n) /\ n \in DOMAIN exes /\ exes[n] = Right(n)
                    \* no other executable changes
                    /\ \A m \in Names \ {n} : Only(exes, {m}) = Only(old, {m})
(* the rule that Trace_Build uses for a plain make is sound *)
RuleSound == \A f \in Fl : LET L == Linked(objs, f)  C == Content(Parts(f)) IN
                \A k \in {"cheb", "contig"} : L[k] = "?" \/ L[k] = C[k]
=============================================================================
