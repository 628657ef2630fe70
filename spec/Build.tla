-------------------------------- MODULE Build --------------------------------
(***************************************************************************)
(* Building the executables.  make keeps objects that are there, whatever  *)
(* flags they were compiled with, so what an executable does depends on    *)
(* everything that was built and left before.  BuildMC.tla checks that     *)
(* cleaning first, as config.py and the launcher do, makes the executables *)
(* right after every history; Trace_Build.tla checks the real commands.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
(* the flags of a compilation; "?" where they are not known *)
Flags(cheb, contig) == [cheb |-> cheb, contig |-> contig]
Unsure == Flags("?", "?")
(* the objects that are compiled differently *)
OnRadial == {"grid", "io", "initial_data", "scalar_eom", "main"}
OnLayout == OnRadial \cup {"sphere"}
All == OnLayout \cup {"params", "cheb", "finite_diff", "field"}
(* what an executable is that make links with flags fl where objs are there *)
Agree(objs, on, k, fl) == \A o \in DOMAIN objs \cap on : objs[o][k] = fl[k]
Linked(objs, fl) == Flags(IF Agree(objs, OnRadial, "cheb", fl) THEN fl.cheb ELSE "?",
                          IF Agree(objs, OnLayout, "contig", fl) THEN fl.contig ELSE "?")
Put(f, k, v) == (k :> v) @@ f
Only(f, S) == [x \in DOMAIN f \cap S |-> f[x]]
ChebName == "default_cheb.run"
FdName == "default_fd.run"
Right(name) == IF name = ChebName THEN Flags("yes", "yes") ELSE Flags("no", "yes")
=============================================================================
