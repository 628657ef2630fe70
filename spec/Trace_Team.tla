----------------------------- MODULE Trace_Team -----------------------------
(* What the threads of every parallel region of the real code were seen to *)
(* read and write is a behaviour of Team.                                  *)
EXTENDS Team, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<live, uses, t, l>>
Ev == Traces[t][l]
Is(e) == l <= Len(Traces[t]) /\ Ev.e = e /\ l' = l + 1 /\ t' = t
TInit == TeamInit /\ t \in 1..Len(Traces) /\ l = 1
Set(s) == {s[i] : i \in 1..Len(s)}
TNext ==
   \/ Is("begin")   /\ UNCHANGED TeamVars
   \/ Is("fork")    /\ Fork(Ev.s, Ev.r, Set(Ev.m))
   \/ Is("acc")     /\ Access(Ev.s, Set(Ev.rd), Set(Ev.wr), Set(Ev.l))
   \/ Is("barrier") /\ Barrier(Ev.r)
   \/ Is("join")    /\ Join(Ev.r)
   \/ l > Len(Traces[t]) /\ live = <<>> /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_vars
Cells == Traces[t][1].cells
Where == IF l > Len(Traces[t]) THEN [trace |-> t, at |-> l]
         ELSE IF Ev.e # "acc" THEN [trace |-> t, at |-> l, event |-> Ev.e]
         ELSE LET x == Race(Ev.s, Set(Ev.rd), Set(Ev.wr), Set(Ev.l)) IN
              [trace |-> t, at |-> l, event |-> "access", strand |-> Ev.s,
               race_on |-> IF x = {} THEN "" ELSE Cells[CHOOSE c \in x : TRUE],
               others |-> IF x = {} THEN {} ELSE UNION {At(p[1], CHOOSE c \in x : TRUE) : p \in AroundPairs(Ev.s)}]
=============================================================================
