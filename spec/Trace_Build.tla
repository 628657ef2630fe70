----------------------------- MODULE Trace_Build -----------------------------
(* The executables there are after every real command are those Build says. *)
EXTENDS Build, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, objs, exes
vars == <<t, l, objs, exes>>
Ev == Traces[t][l]
Is(e) == l <= Len(Traces[t]) /\ Ev.e = e /\ l' = l + 1 /\ t' = t
Set(s) == {s[i] : i \in 1..Len(s)}
TInit == t \in 1..Len(Traces) /\ l = 1 /\ objs = <<>> /\ exes = <<>>
Yes(b) == IF b THEN "yes" ELSE "no"
Asked == Flags(Yes(Ev.cheb), Yes(Ev.contig))
(* what an executable does, as far as it is known what it should *)
Does(x, m) == /\ (m.cheb # "?" => x.method = (IF m.cheb = "yes" THEN "cheb" ELSE "fd"))
              /\ (m.contig # "?" => x.layout = (IF m.contig = "yes" THEN "theta" ELSE "phi"))
              /\ (m.cheb # "?" /\ m.contig # "?" => x.pure)
Seen == {x.name : x \in Set(Ev.exes)}
As(want) == [fine |-> \A x \in Set(Ev.exes) : x.name \in DOMAIN want => Does(x, want[x.name]),
             there |-> \A n \in DOMAIN want : want[n] # Unsure => n \in Seen]
AllTrue(r) == \A k \in DOMAIN r : r[k]
(* objects that were there keep their flags, unless the command may have made them anew *)
Stay(f) == [o \in Set(Ev.objs) |-> IF o \in DOMAIN objs THEN objs[o] ELSE f]
Anew(f) == [o \in Set(Ev.objs) |-> IF o \in DOMAIN objs /\ objs[o] # f THEN Unsure ELSE f]
Wants ==
   CASE Ev.e = "start" -> [n \in Seen |-> Unsure]
     [] Ev.e = "config" -> (ChebName :> IF Ev.hit THEN Unsure ELSE Right(ChebName)) @@ (FdName :> IF Ev.hit THEN Unsure ELSE Right(FdName)) @@ exes
     [] Ev.e = "make" -> Put(exes, Ev.name, IF Ev.hit THEN Unsure ELSE Linked(objs, Asked))
     [] Ev.e = "recompile" -> Put(exes, Ev.name, IF Ev.hit THEN Unsure ELSE Flags(Yes(Ev.cheb), "yes"))
     [] Ev.e = "launch" -> IF Ev.again THEN Put(exes, Ev.name, IF Ev.hit THEN Unsure ELSE Flags(Yes(Ev.cheb), "yes")) ELSE exes
     [] Ev.e = "cleanall" -> Only(exes, Seen)
     [] OTHER -> exes
Left ==
   CASE Ev.e = "start" -> [o \in Set(Ev.objs) |-> Unsure]
     [] Ev.e = "config" -> IF Ev.hit THEN Anew(Unsure) ELSE Anew(Right(FdName))
     [] Ev.e = "recompile" \/ (Ev.e = "launch" /\ Ev.again) -> Anew(Flags(Yes(Ev.cheb), "yes"))
     [] Ev.e \in {"make", "object"} -> [o \in Set(Ev.objs) |-> IF o \in DOMAIN objs /\ objs[o] # Asked THEN Unsure ELSE Asked]
     [] OTHER -> Stay(Unsure)
(* the run that a launch made *)
Run(want) ==
   IF Ev.e # "launch" \/ Ev.hit \/ Ev.name \notin DOMAIN want THEN <<>>
   ELSE LET m == want[Ev.name] IN
        [launched |-> m # Unsure => Ev.said = "", copied |-> m # Unsure => Ev.copied,
         method |-> m.cheb # "?" => Ev.ran.method = (IF m.cheb = "yes" THEN "cheb" ELSE "fd"),
         pure |-> m.cheb # "?" /\ m.contig # "?" => Ev.ran.pure]
Steps == {"start", "config", "make", "object", "clean", "cleanall", "tests", "touch", "launch", "recompile"}
Step == /\ \E e \in Steps : Is(e)
        /\ AllTrue(As(Wants)) /\ AllTrue(Run(Wants))
        /\ exes' = Wants /\ objs' = Left
TNext == Step \/ (l > Len(Traces[t]) /\ UNCHANGED vars)
TSpec == TInit /\ [][TNext]_vars
Show(r) == {k \in DOMAIN r : ~r[k]}
Where == IF l > Len(Traces[t]) THEN [trace |-> t, at |-> l]
         ELSE IF Ev.e \notin Steps THEN [trace |-> t, at |-> l, event |-> Ev]
         ELSE [trace |-> t, at |-> l, event |-> Ev.e, name |-> IF Ev.e = "start" THEN "" ELSE Ev.name, wrong |-> Show(As(Wants)) \cup Show(Run(Wants)), exes |-> Ev.exes, want |-> Wants]
=============================================================================
