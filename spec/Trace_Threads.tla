---------------------------- MODULE Trace_Threads ----------------------------
(* What a call returns is a function of what it was given: not of the number *)
(* of threads, of how deep parallel regions nest, or of who ran when.        *)
(* (Sums over the grid, which may differ by rounding, are not looked at here *)
(* but in Trace_System.)                                                     *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES bufs,   \* name -> vector
          memo,   \* what was asked -> what was returned
          t, l
vars == <<bufs, memo, t, l>>
Ev == Traces[t][l]
Is(e) == l <= Len(Traces[t]) /\ Ev.e = e /\ l' = l + 1 /\ t' = t
TInit == bufs = <<>> /\ memo = <<>> /\ t \in 1..Len(Traces) /\ l = 1
Function(asked, got) == /\ \A m \in DOMAIN memo : m = asked => memo[m] = got
                        /\ memo' = IF asked \in DOMAIN memo THEN memo ELSE (asked :> got) @@ memo
Asked == CASE Ev.e = "call" -> [what |-> Ev.op, of |-> Ev.o, given |-> <<bufs[Ev.a]>>]
           [] Ev.e = "ylm"  -> [what |-> "ylm", of |-> Ev.o, given |-> <<Ev.l, Ev.m>>]
           [] Ev.e = "id"   -> [what |-> "id", of |-> Ev.o, given |-> <<Ev.dir, Ev.amp, Ev.rl, Ev.ru, Ev.l, Ev.m>>]
           [] Ev.e = "setk" -> [what |-> "setk", of |-> Ev.o, given |-> <<Ev.sf, Ev.sp>>]
           [] Ev.e = "rho"  -> [what |-> "rho", of |-> Ev.o, given |-> <<Ev.sf, Ev.sp>>]
           [] Ev.e = "step" -> [what |-> "step", of |-> Ev.o, given |-> <<Ev.fn, Ev.pn>>]
Got == CASE Ev.e = "call" -> <<Ev.res>>
         [] Ev.e = "ylm"  -> <<Ev.res>>
         [] Ev.e = "id"   -> <<Ev.f, Ev.p>>
         [] Ev.e = "setk" -> <<Ev.rf, Ev.rp>>
         [] Ev.e = "rho"  -> <<Ev.res>>
         [] Ev.e = "step" -> <<Ev.fnp1, Ev.pnp1>>
Calls == {"call", "ylm", "id", "setk", "rho", "step"}
TNext ==
   \/ Is("put") /\ bufs' = (Ev.b :> Ev.v) @@ bufs /\ UNCHANGED memo
   \/ Is("call") /\ Function(Asked, Got) /\ bufs' = (Ev.b :> Ev.res) @@ (Ev.a :> Ev.sa) @@ bufs
   \/ \E e \in Calls \ {"call"} : Is(e) /\ Function(Asked, Got) /\ UNCHANGED bufs
   \/ /\ l <= Len(Traces[t]) /\ Ev.e \notin Calls \cup {"put", "crash"}
      /\ l' = l + 1 /\ t' = t /\ UNCHANGED <<bufs, memo>>
   \/ l > Len(Traces[t]) /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_vars
Where == IF l > Len(Traces[t]) THEN [trace |-> t, at |-> l]
         ELSE IF Ev.e \in Calls THEN [trace |-> t, at |-> l, event |-> Ev.e, what |-> Asked.what, of |-> Ev.o, note |-> "differs from what the same call returned before"]
         ELSE IF Ev.e = "crash" THEN [trace |-> t, at |-> l, event |-> Ev.how \o " " \o Ev.said]
         ELSE [trace |-> t, at |-> l, event |-> Ev.e]
=============================================================================
