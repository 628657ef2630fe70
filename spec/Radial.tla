------------------------------- MODULE Radial -------------------------------
(***************************************************************************)
(* Radial operator objects and the vectors they are applied to.            *)
(*                                                                         *)
(* State: the live operator objects and named vectors.  Every action is a  *)
(* public call.  A call is a relation between the state before, its        *)
(* arguments and the value it returns: the result is any value within      *)
(* rounding of the ideal one, so an implementation is free to order its    *)
(* arithmetic as it likes, and not free to do anything else.               *)
(*                                                                         *)
(* Named deviations of the implementation from the ideal operators:        *)
(*  - the Chebyshev derivative discards the two highest modes (ChCut);     *)
(*  - the Chebyshev backward transform may overwrite its argument (ToPo).  *)
(***************************************************************************)
EXTENDS F64, FiniteDiff, Chebyshev, Grid, TLC

VARIABLES objs,   \* name -> [kind, n, lo, up], the live operator objects
          bufs    \* name -> vector

RVars == <<objs, bufs>>
RInit == objs = <<>> /\ bufs = <<>>

Make(o, kind, n, lo, up) ==
   /\ o \notin DOMAIN objs /\ kind \in {"fd", "cheb"}
   /\ objs' = (o :> [kind |-> kind, n |-> n, lo |-> lo, up |-> up]) @@ objs
   /\ UNCHANGED bufs
Drop(o) ==
   /\ o \in DOMAIN objs
   /\ objs' = [x \in DOMAIN objs \ {o} |-> objs[x]]
   /\ UNCHANGED bufs
Put(b, v) == bufs' = (b :> v) @@ bufs /\ UNCHANGED objs

(* what an operator may return for vector v *)
Ideal(ob, op, v) ==
   CASE ob.kind = "fd"   /\ op = "der"    -> FDDer(ob.n, Dx(ob), v)
     [] ob.kind = "fd"   /\ op = "der2"   -> FDDer2(ob.n, Dx(ob), v)
     [] ob.kind = "fd"   /\ op = "filter" -> FDFilter(ob.n, v)
     [] ob.kind = "cheb" /\ op = "der"    -> ChDer(ob.n, ob.lo, ob.up, v)
     [] ob.kind = "cheb" /\ op = "filter" -> ChFilter(ob.n, v)
     [] ob.kind = "cheb" /\ op = "toch"   -> ChCoef(ob.n, v)
     [] ob.kind = "cheb" /\ op = "topo"   -> ChVals(ob.n, v)
(* how far from that it may be by rounding *)
Slack(ob, op, v) ==
   CASE ob.kind = "fd"   /\ op = "der"    -> VScale(RoundFD, FDDerMag(ob.n, Dx(ob), v))
     [] ob.kind = "fd"   /\ op = "der2"   -> VScale(RoundFD, FDDer2Mag(ob.n, Dx(ob), v))
     [] ob.kind = "fd"   /\ op = "filter" -> VScale(RoundFD, FDFilterMag(ob.n, v))
     [] ob.kind = "cheb" /\ op = "der"    -> VConst(ob.n, ChDerTol(ob.n, ob.lo, ob.up, v))
     [] ob.kind = "cheb" /\ op = "filter" -> VConst(ob.n, ChTol(ob.n, v))
     [] ob.kind = "cheb" /\ op = "toch"   -> VConst(ob.n, ChTol(ob.n, v))
     [] ob.kind = "cheb" /\ op = "topo"   -> VConst(ob.n, ChSumTol(ob.n, v))
Ops(kind) == IF kind = "fd" THEN {"der", "der2", "filter"} ELSE {"der", "filter", "toch", "topo"}
(* 0: admissible; otherwise the first position that is not *)
WhereWrong(ob, op, v, res) ==
   VFirstFar(res, TLCEval(Ideal(ob, op, v)), VAdd(VConst(ob.n, FTiny), TLCEval(Slack(ob, op, v))))
Admissible(ob, op, v, res) == WhereWrong(ob, op, v, res) = 0

(* apply operator op of object o to vector a, result into vector b; sa is
   the value of a afterwards *)
Call(o, op, a, b, res, sa) ==
   /\ o \in DOMAIN objs /\ op \in Ops(objs[o].kind) /\ a \in DOMAIN bufs
   /\ Len(bufs[a]) = objs[o].n
   /\ Admissible(objs[o], op, bufs[a], res)
   /\ IF a = b THEN op = "filter"
      ELSE IF op = "topo" THEN Len(sa) = objs[o].n     \* ToPo: argument may be overwritten
      ELSE sa = bufs[a]
   /\ bufs' = (b :> res) @@ (a :> sa) @@ bufs
   /\ UNCHANGED objs

(* the points, size and bounds an object reports *)
Points(ob) == IF ob.kind = "fd" THEN FDPts(ob.n, ob.lo, ob.up) ELSE ChPts(ob.n, ob.lo, ob.up)
PointTol(ob) == FMul(FMul(FInt(8), FEps), FMax(FAbs(ob.lo), FAbs(ob.up)))
Ordered(ob, p) ==
   \A i \in 1..(ob.n - 1) : IF ob.kind = "fd" THEN FLt(p[i], p[i + 1]) ELSE FLt(p[i + 1], p[i])
Report(o, n, lo, up, pts) ==
   /\ o \in DOMAIN objs
   /\ n = objs[o].n /\ lo = objs[o].lo /\ up = objs[o].up
   /\ VFirstFar(pts, TLCEval(Points(objs[o])), VConst(n, PointTol(objs[o]))) = 0
   /\ Ordered(objs[o], pts)
   /\ UNCHANGED RVars
(* looking at everything changes nothing *)
Look(all) ==
   /\ \A b \in DOMAIN all : b \in DOMAIN bufs /\ all[b] = bufs[b]
   /\ \A b \in DOMAIN bufs : b \in DOMAIN all
   /\ UNCHANGED RVars
=============================================================================
