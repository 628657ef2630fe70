---------------------------- MODULE Trace_Params ----------------------------
(* Every parameter file handed to the real reader is read as ParamFile says. *)
EXTENDS ParamFile, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<t, l>>
Ev == Traces[t][l]
Is(e) == l <= Len(Traces[t]) /\ Ev.e = e /\ l' = l + 1 /\ t' = t
TInit == t \in 1..Len(Traces) /\ l = 1
(* a complete file is read exactly; an incomplete one stops the program, which names a missing key *)
(* a complete file is read exactly; an incomplete one stops the program, which names a missing key *)
TNext == \/ Is("params") /\ \E told \in {{Ev.told[i] : i \in 1..Len(Ev.told)}} : \E n \in {Names(Ev.file)} :
              LET gone == {k \in Keys : k \notin {n[i] : i \in 1..Len(n)}} IN
              IF gone = {} THEN Ev.outcome = "read" /\ Misread(Ev.file, n, Ev.got) = {}
              ELSE Ev.outcome = "stopped" /\ told \cap gone # {}
         \/ l > Len(Traces[t]) /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_vars
Where == IF l > Len(Traces[t]) THEN [trace |-> t, at |-> l]
         ELSE [trace |-> t, at |-> l, event |-> Ev.e, outcome |-> IF Ev.e = "params" THEN Ev.outcome ELSE "",
               absent |-> IF Ev.e = "params" THEN Absent(Ev.file) ELSE {},
               misread |-> IF Ev.e = "params" /\ Ev.outcome = "read" /\ Absent(Ev.file) = {} THEN Misread(Ev.file, Names(Ev.file), Ev.got) ELSE {}]
=============================================================================
