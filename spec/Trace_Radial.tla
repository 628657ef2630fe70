---------------------------- MODULE Trace_Radial ----------------------------
(* Every recorded history of the real operators is a behaviour of Radial.  *)
EXTENDS Radial, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<objs, bufs, t, l>>
Ev == Traces[t][l]
Is(e) == l <= Len(Traces[t]) /\ Ev.e = e /\ l' = l + 1 /\ t' = t
TInit == RInit /\ t \in 1..Len(Traces) /\ l = 1
TNext ==
   \/ Is("new")  /\ Make(Ev.o, Ev.kind, Ev.n, Ev.lo, Ev.up)
   \/ Is("del")  /\ Drop(Ev.o)
   \/ Is("put")  /\ Put(Ev.b, Ev.v)
   \/ Is("call") /\ Call(Ev.o, Ev.op, Ev.a, Ev.b, Ev.res, Ev.sa)
   \/ Is("pts")  /\ Report(Ev.o, Ev.n, Ev.lo, Ev.up, Ev.pts)
   \/ Is("look") /\ Look(Ev.all)
   \/ l > Len(Traces[t]) /\ UNCHANGED vars      \* the whole trace was accepted
TSpec == TInit /\ [][TNext]_vars
(* shown instead of the state when a trace is rejected *)
Where == IF l > Len(Traces[t]) THEN [trace |-> t, at |-> l]
         ELSE IF Ev.e = "call" /\ Ev.o \in DOMAIN objs /\ Ev.a \in DOMAIN bufs /\ Len(bufs[Ev.a]) = objs[Ev.o].n /\ Ev.op \in Ops(objs[Ev.o].kind)
         THEN LET w == WhereWrong(objs[Ev.o], Ev.op, bufs[Ev.a], Ev.res) IN
              [trace |-> t, at |-> l, event |-> "call " \o Ev.op \o " of " \o objs[Ev.o].kind, n |-> objs[Ev.o].n,
               wrong_at |-> w,
               got |-> IF w > 0 THEN FShow(Ev.res[w]) ELSE "",
               allowed |-> IF w > 0 THEN FShow(Ideal(objs[Ev.o], Ev.op, bufs[Ev.a])[w]) ELSE ""]
         ELSE [trace |-> t, at |-> l, event |-> Ev.e]
=============================================================================
