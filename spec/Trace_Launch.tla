---------------------------- MODULE Trace_Launch ----------------------------
(* Every recorded derivation and launch is one that Launch allows. *)
EXTENDS Launch, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<t, l>>
Ev == Traces[t][l]
Is(e) == l <= Len(Traces[t]) /\ Ev.e = e /\ l' = l + 1 /\ t' = t
TInit == t \in 1..Len(Traces) /\ l = 1
Derive == /\ Is("derive") /\ Ev.raised = ""
          /\ Wrong(Ev.before.r, Ev.after.r, Ev.before.cheb) = {} /\ Altered(Ev.before, Ev.after) = {}
          /\ {"nt", "t_step_save"} \subseteq {Ev.whole[i] : i \in 1..Len(Ev.whole)}
Go == /\ Is("launch") /\ ~Ev.failing /\ ~Taken(Ev)
      /\ AllTrue(Carried(Ev))
(* the directory exists: no launch, and nothing of it is touched *)
Refuse == /\ Is("launch") /\ (Taken(Ev) \/ Ev.how = "maybe") /\ AllTrue(Refused(Ev))
(* there is no executable to run *)
Fail == /\ Is("launch") /\ Ev.failing /\ ~Taken(Ev) /\ AllTrue(Broken(Ev))
TNext == Is("begin") \/ Derive \/ Go \/ Refuse \/ Fail \/ (l > Len(Traces[t]) /\ UNCHANGED vars)
TSpec == TInit /\ [][TNext]_vars
Show(r) == {k \in DOMAIN r : ~r[k]}
Where == IF l > Len(Traces[t]) THEN [trace |-> t, at |-> l]
         ELSE [trace |-> t, at |-> l, event |-> Ev.e, raised |-> Ev.raised,
               wrong |-> IF Ev.e = "derive" THEN Wrong(Ev.before.r, Ev.after.r, Ev.before.cheb) \cup Altered(Ev.before, Ev.after)
                         ELSE IF Ev.e # "launch" THEN {"?"}
                         ELSE IF Taken(Ev) THEN {"taken"} \cup Show(Refused(Ev)) ELSE IF Ev.failing THEN {"failing"} \cup Show(Broken(Ev)) ELSE Show(Carried(Ev))]
=============================================================================
