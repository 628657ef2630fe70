----------------------------- MODULE Trace_Life -----------------------------
(* Every call of FFTW and SHTns that the real code was seen to make, in a  *)
(* history of objects or in a run of the program, is a step of Life.       *)
EXTENDS Life, Sequences, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<plans, cfgs, mem, past, held, t, l>>
Ev == Traces[t][l]
Is(e) == l <= Len(Traces[t]) /\ Ev.e = e /\ l' = l + 1 /\ t' = t
(* the program counts what it makes over all its histories *)
TInit == LifeInit /\ t \in 1..Len(Traces) /\ l = 1
TNext ==
   \/ Is("plan")    /\ Plan(Ev.id, Ev.nin, Ev.nout, Ev.ain, Ev.aout, Ev.any, Ev.inplace, Ev.hin, Ev.hout)
   \/ Is("run")     /\ Execute(Ev.id, Ev.ain, Ev.aout, Ev.inplace, Ev.hin, Ev.hout)
   \/ Is("unplan")  /\ Unplan(Ev.id)
   \/ Is("cleanup") /\ CleanUp
   \/ Is("cfg")     /\ Configure(Ev.id)
   \/ Is("mesh")    /\ Mesh(Ev.id)
   \/ Is("sht")     /\ Transform(Ev.id, Ev.nspat, Ev.nspec, Ev.hspat, Ev.hspec, Ev.aspat, Ev.aspec)
   \/ Is("uncfg")   /\ Unconfigure(Ev.id)
   \/ Is("alloc")   /\ Get(Ev.id)
   \/ Is("free")    /\ Give(Ev.id)
   \/ Is("mark")    /\ CASE Ev.k = "new" -> Born(Ev.o)
                         [] Ev.k = "del" -> Gone(Ev.o)
                         [] OTHER -> UNCHANGED LifeVars
   \/ Is("end")     /\ Done
   \/ l > Len(Traces[t]) /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_vars
Where == IF l > Len(Traces[t]) THEN [trace |-> t, at |-> l]
         ELSE [trace |-> t, at |-> l, event |-> Ev, plans |-> DOMAIN plans, configurations |-> cfgs, memory |-> Cardinality(mem), objects |-> held]
=============================================================================
