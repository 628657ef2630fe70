------------------------------- MODULE TeamMC -------------------------------
(* Every computation of a small team in every schedule, next to the same    *)
(* computation done in one fixed order.  Instructions: read a cell into the *)
(* register; write a value made of the register into a cell; write into the *)
(* cell that the register chooses.  In the Tree, member 2 of the outer      *)
(* region forks a region of its own.  With a barrier, everybody does half   *)
(* of its instructions before it.                                           *)
EXTENDS Team, Integers
CONSTANTS Leaves, Cells, K, Tree, Half, ClearAtBarrier
VARIABLES prog, mem, acc, pc, half, race, ref
vars == <<live, uses, prog, mem, acc, pc, half, race, ref>>
Instr == ({"get", "put"} \X Cells) \cup {<<"putx", 0>>}
Formed == IF Tree THEN (1 :> [by |-> 0, members |-> {1, 2}]) @@ (2 :> [by |-> 2, members |-> {3, 4}])
                  ELSE 1 :> [by |-> 0, members |-> Leaves]
Target(i, a) == IF i[1] = "putx" THEN (a % Cardinality(Cells)) + 1 ELSE i[2]
Reads(i) == IF i[1] = "get" THEN {i[2]} ELSE {}
Writes(i, a) == IF i[1] = "get" THEN {} ELSE {Target(i, a)}
New(s, k, a) == 5 * a + 3 * s + k
(* the same in one order: leaf after leaf, half after half *)
Order(ph) == LET n == Cardinality(Leaves) IN
             LET leaf(i) == CHOOSE s \in Leaves : Cardinality({x \in Leaves : x < s}) = i IN
             [i \in 1..(n * (ph[2] - ph[1] + 1)) |-> <<leaf((i - 1) \div (ph[2] - ph[1] + 1)), ph[1] + ((i - 1) % (ph[2] - ph[1] + 1))>>]
Paths(s) == IF Tree /\ s \in {3, 4} THEN {<<1, 2>>, <<2, s>>} ELSE {<<1, s>>}
Clash(x, s, R, W) ==      \* x: what was used in this half: <<leaf, cell, kind>>
   \E u \in x : \E p \in Paths(u[1]) : \E q \in Paths(s) :
      p[1] = q[1] /\ p[2] # q[2] /\ ((u[2] \in R /\ u[3] = "w") \/ u[2] \in W)
RECURSIVE Play(_, _, _)
Play(pg, st, todo) ==
   IF todo = <<>> THEN st
   ELSE LET s == todo[1][1]  i == pg[s][todo[1][2]]  R == Reads(i)  W == Writes(i, st.acc[s]) IN
        Play(pg, [mem |-> IF i[1] = "get" THEN st.mem ELSE [st.mem EXCEPT ![Target(i, st.acc[s])] = New(s, todo[1][2], st.acc[s])],
                  acc |-> IF i[1] = "get" THEN [st.acc EXCEPT ![s] = st.mem[i[2]]] ELSE st.acc,
                  used |-> st.used \cup {<<s, c, "r">> : c \in R} \cup {<<s, c, "w">> : c \in W},
                  race |-> st.race \/ Clash(st.used, s, R, W)], Tail(todo))
M0 == [c \in Cells |-> c - 1]
A0 == [s \in Leaves |-> 0]
Reference(pg) ==
   LET a == Play(pg, [mem |-> M0, acc |-> A0, used |-> {}, race |-> FALSE], Order(<<1, IF Half > 0 THEN Half ELSE K>>))
   IN  IF Half > 0 THEN Play(pg, [a EXCEPT !.used = {}], Order(<<Half + 1, K>>)) ELSE a
Init == /\ prog \in [Leaves -> [1..K -> Instr]]
        /\ live = Formed /\ uses = [r \in DOMAIN Formed |-> <<>>]
        /\ mem = M0 /\ acc = A0 /\ pc = [s \in Leaves |-> 1] /\ half = (IF Half > 0 THEN 1 ELSE 2) /\ race = FALSE
        /\ \E x \in {Reference(prog)} : ref = [mem |-> x.mem, acc |-> x.acc, race |-> x.race]
Can(s) == pc[s] <= K /\ (half = 2 \/ pc[s] <= Half)
Do(s) == /\ Can(s)
         /\ LET i == prog[s][pc[s]]  R == Reads(i)  W == Writes(i, acc[s]) IN
            /\ race' = (race \/ Race(s, R, W, {}) # {})
            /\ Record(s, R, W, {})
            /\ mem' = IF i[1] = "get" THEN mem ELSE [mem EXCEPT ![Target(i, acc[s])] = New(s, pc[s], acc[s])]
            /\ acc' = IF i[1] = "get" THEN [acc EXCEPT ![s] = mem[i[2]]] ELSE acc
         /\ pc' = [pc EXCEPT ![s] = @ + 1]
         /\ UNCHANGED <<live, prog, half, ref>>
Meet == /\ half = 1 /\ \A s \in Leaves : pc[s] = Half + 1
        /\ half' = 2 /\ UNCHANGED <<prog, mem, acc, pc, race, ref>>
        /\ IF ClearAtBarrier THEN Barrier(1) ELSE UNCHANGED TeamVars
Next == Meet \/ \E s \in Leaves : Do(s)
Spec == Init /\ [][Next]_vars
Done == \A s \in Leaves : pc[s] = K + 1
(* one schedule decides for all *)
OneDecides == Done => race = ref.race
SameValues == (Done /\ ~ref.race) => mem = ref.mem /\ acc = ref.acc
=============================================================================
