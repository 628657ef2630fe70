-------------------------------- MODULE Team --------------------------------
(***************************************************************************)
(* Teams of threads working on one memory.                                 *)
(*                                                                         *)
(* A strand is one member of one parallel region.  A region is forked by a *)
(* strand (0: the program itself) and has members, which may fork regions  *)
(* of their own; a barrier separates what its members do before from what  *)
(* they do after; joining ends it.                                         *)
(*                                                                         *)
(* Between two barriers a cell of memory is used in one of three ways: by  *)
(* one member only, by any number of members that only read it, or by      *)
(* members that all hold a common lock.  A use that fits none of these is  *)
(* not a step.  Work done inside a region counts, for every region around  *)
(* it, as work of the member it was done for.                              *)
(*                                                                         *)
(* TeamMC shows what this buys: when one schedule of a computation keeps   *)
(* to the rule, every schedule does and all of them leave the same values. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES live,    \* region -> [by: the strand that forked it, members: set of strands]
          uses     \* region -> cell -> set of <<member, "r" or "w", locks>> since its last barrier
TeamVars == <<live, uses>>
TeamInit == live = <<>> /\ uses = <<>>

Program == 0
Region(s) == CHOOSE r \in DOMAIN live : s \in live[r].members
(* the regions around strand s with the member that works there for s *)
AroundPairs(s) == LET RECURSIVE up(_)
                      up(x) == IF x = Program THEN {} ELSE {<<Region(x), x>>} \cup up(live[Region(x)].by)
                  IN  up(s)
Alive(s) == s = Program \/ \E r \in DOMAIN live : s \in live[r].members

Fork(s, r, ms) ==
   /\ Alive(s) /\ r \notin DOMAIN live /\ ms # {}
   /\ \A q \in DOMAIN live : ms \cap live[q].members = {} /\ live[q].by # s
   /\ live' = (r :> [by |-> s, members |-> ms]) @@ live
   /\ uses' = (r :> <<>>) @@ uses

Fits(m, k, L, u) == \/ u[1] = m
                    \/ k = "r" /\ u[2] = "r"
                    \/ L \cap u[3] # {}
At(r, c) == IF c \in DOMAIN uses[r] THEN uses[r][c] ELSE {}
FitsAll(s, c, k, L) == \A p \in AroundPairs(s) : \A u \in At(p[1], c) : Fits(p[2], k, L, u)
Race(s, R, W, L) == {c \in R : ~FitsAll(s, c, "r", L)} \cup {c \in W : ~FitsAll(s, c, "w", L)}
Note(r, m, R, W, L) ==
   [c \in DOMAIN uses[r] \cup R \cup W |->
      At(r, c) \cup (IF c \in R THEN {<<m, "r", L>>} ELSE {}) \cup (IF c \in W THEN {<<m, "w", L>>} ELSE {})]
Record(s, R, W, L) ==
   LET ps == AroundPairs(s) IN
   uses' = [r \in DOMAIN uses |-> IF \E p \in ps : p[1] = r THEN Note(r, (CHOOSE p \in ps : p[1] = r)[2], R, W, L) ELSE uses[r]]
Access(s, R, W, L) ==
   /\ Alive(s)
   /\ Race(s, R, W, L) = {}
   /\ Record(s, R, W, L)
   /\ UNCHANGED live
Barrier(r) == /\ r \in DOMAIN live
              /\ \A q \in DOMAIN live : live[q].by \notin live[r].members
              /\ uses' = [uses EXCEPT ![r] = <<>>]
              /\ UNCHANGED live
Join(r) == /\ r \in DOMAIN live
           /\ \A q \in DOMAIN live : live[q].by \notin live[r].members
           /\ live' = [q \in DOMAIN live \ {r} |-> live[q]]
           /\ uses' = [q \in DOMAIN uses \ {r} |-> uses[q]]
=============================================================================
