------------------------------ MODULE LayoutMC ------------------------------
(***************************************************************************)
(* The two memory layouts of Grid and the row positions of System, for     *)
(* every small shape: every point has one slot and every slot one point;   *)
(* rows that differ in a fixed index are disjoint and together are         *)
(* everything; storing and loading are inverse permutations.               *)
(***************************************************************************)
EXTENDS System
CONSTANTS MaxN, MaxT, MaxP
VARIABLE g
Shape(n, t, p, l) == [n |-> n, lo |-> F1, up |-> F2, cl |-> F2, nl |-> l, nm |-> 0, nlat |-> t, nphi |-> p]
MCInit == /\ \E n \in 1..MaxN, t \in 1..MaxT, p \in 1..MaxP, l \in 1..2 : g = Shape(n, t, p, l)
          /\ env \in [cheb : {FALSE}, contig : BOOLEAN] /\ objs = <<>> /\ bufs = <<>> /\ files = <<>>
MCNext == UNCHANGED <<g, SVars>>
MCSpec == MCInit /\ [][MCNext]_<<g, SVars>>
Triples == (0..(g.n - 1)) \X (0..(g.nlat - 1)) \X (0..(g.nphi - 1))
Slots == {GIndex(g, Fast, q[1], q[2], q[3]) : q \in Triples}
OneSlotEach == Slots = 0..(GSize(g) - 1) /\ Cardinality(Triples) = GSize(g)
AsSet(s) == {s[i] : i \in 1..Len(s)}
Rows(w) ==   \* all rows of one kind, with the entries each must have
   CASE w = "R"  -> [k \in (0..(g.nlat - 1)) \X (0..(g.nphi - 1)) |-> RowPos(g, w, k[1], k[2])]
     [] w = "th" -> [k \in (0..(g.n - 1)) \X (0..(g.nphi - 1)) |-> RowPos(g, w, k[1], k[2])]
     [] w = "ph" -> [k \in (0..(g.n - 1)) \X (0..(g.nlat - 1)) |-> RowPos(g, w, k[1], k[2])]
     [] w = "R_th" -> [k \in 0..(g.nphi - 1) |-> RowPos(g, w, k, 0)]
     [] w = "R_ph" -> [k \in 0..(g.nlat - 1) |-> RowPos(g, w, k, 0)]
     [] w = "th_ph" -> [k \in 0..(g.n - 1) |-> RowPos(g, w, k, 0)]
     [] w = "n" -> [k \in 0..(g.nl - 1) |-> RowPos(g, w, k, 0)]
     [] w = "l" -> [k \in 0..(g.n - 1) |-> RowPos(g, w, k, 0)]
RowsPartition ==
   \A w \in {"R", "th", "ph", "R_th", "R_ph", "th_ph", "n", "l"} :
      LET rs == Rows(w) IN
      /\ UNION {AsSet(rs[k]) : k \in DOMAIN rs} = 1..(IF w \in {"n", "l"} THEN g.n * g.nl ELSE GSize(g))
      /\ \A k1 \in DOMAIN rs : \A k2 \in DOMAIN rs : k1 # k2 => AsSet(rs[k1]) \cap AsSet(rs[k2]) = {}
      /\ \A k1 \in DOMAIN rs : Cardinality(AsSet(rs[k1])) = Len(rs[k1])
PlainStored ==
   LET v == [i \in 1..GSize(g) |-> FInt(i)] IN
   /\ GStored(g, Fast, GPlain(g, Fast, v)) = v
   /\ GPlain(g, Fast, GStored(g, Fast, v)) = v
   /\ \A q \in Triples : GPlain(g, Fast, v)[(GN2(g) * q[1]) + (g.nphi * q[2]) + q[3] + 1] = v[GIndex(g, Fast, q[1], q[2], q[3]) + 1]
(* a line of the plain order is the row R, a shell the plane th_ph *)
LinesAreRows ==
   LET v == [i \in 1..GSize(g) |-> FInt(i)]  ls == Lines(g, GPlain(g, Fast, v)) IN
   /\ \A k \in (0..(g.nlat - 1)) \X (0..(g.nphi - 1)) : ls[(g.nphi * k[1]) + k[2] + 1] = VGather(v, RowPos(g, "R", k[1], k[2]))
   /\ FromLines(g, ls) = GPlain(g, Fast, v)
   /\ \A i \in 1..g.n : AsSet(Shell(g, GPlain(g, Fast, v), i)) = {v[x] : x \in AsSet(RowPos(g, "th_ph", i - 1, 0))}
(* writing a row, then reading it, and nothing else changed *)
WriteRead ==
   \A w \in {"R", "th", "ph"} : LET rs == Rows(w) IN \A k \in DOMAIN rs :
      LET v == [i \in 1..GSize(g) |-> FInt(i)]  x == [j \in 1..Len(rs[k]) |-> FInt(-j)]
          y == VScatter(v, rs[k], x)
      IN  VGather(y, rs[k]) = x /\ \A i \in (1..GSize(g)) \ AsSet(rs[k]) : y[i] = v[i]
=============================================================================
