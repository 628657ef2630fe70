------------------------------- MODULE System -------------------------------
(***************************************************************************)
(* The whole computational core as one state machine.                      *)
(*                                                                         *)
(* State: which variant was built (radial method, memory layout), the live *)
(* objects (radial operators, spheres, grids, equations of motion, fields  *)
(* with their four storage levels), named vectors, and the output files.   *)
(* Every action is one public call with what it was given and what it      *)
(* returned; what the code may return is any value within rounding of the  *)
(* ideal one, and nothing that is not named in an action changes.          *)
(*                                                                         *)
(* Named deviations from the ideal operators: ChCut and ToPo of Radial,    *)
(* and SphXCut of Sphere (the gradient square drops ladder results beyond  *)
(* the resolved orders).                                                   *)
(***************************************************************************)
EXTENDS Radial, Kerr, InitialData, Csv

VARIABLES env,     \* [cheb, contig]
          files    \* file name -> the table it holds (module Csv)
SVars == <<objs, bufs, env, files>>

SInit == RInit /\ env = [cheb |-> FALSE, contig |-> FALSE] /\ files = <<>>
Start(cheb, contig) == env' = [cheb |-> cheb, contig |-> contig] /\ UNCHANGED <<objs, bufs, files>>
Cheb == env.cheb
Fast == env.contig
RKind == IF Cheb THEN "cheb" ELSE "fd"

(* object life cycle *)
New(o, ob) == /\ o \notin DOMAIN objs
              /\ objs' = (o :> ob) @@ objs
              /\ UNCHANGED <<bufs, env, files>>
Delete(o) == Drop(o) /\ UNCHANGED <<env, files>>
PutBuf(b, v) == Put(b, v) /\ UNCHANGED <<env, files>>
LookAll(all) == Look(all) /\ UNCHANGED <<env, files>>
RadialCall(o, op, a, b, res, sa) == Call(o, op, a, b, res, sa) /\ UNCHANGED <<env, files>>
RadialReport(o, n, lo, up, pts) == Report(o, n, lo, up, pts) /\ UNCHANGED <<env, files>>

Near(u, v, tol) == VFirstFar(u, v, VAdd(tol, VConst(Len(tol), FTiny)))
Const(n, t) == VConst(n, t)

------------------------------------------------------------------------------
(* sphere and grid operators: [val, tol] in the order of the result *)
SReal(s) == s.nlat * s.nphi
(* position order of an interleaved complex field *)
CPlain(s, v) == Weave(Plain(s, Fast, TLCEval(Even(v))), Plain(s, Fast, TLCEval(Odd(v))))
CStored(s, v) == Weave(Stored(s, Fast, TLCEval(Even(v))), Stored(s, Fast, TLCEval(Odd(v))))
SphOps == {"lap", "dphi", "X", "filter", "power", "raise", "lower", "toylm", "tosph", "ctoylm", "ctosph"}
SphInLen(s, op) == CASE op = "tosph" -> 2 * NYlm(s)
                     [] op = "ctoylm" -> 2 * SReal(s)
                     [] op = "ctosph" -> 2 * (s.nl + 1) * (s.nl + 1)
                     [] OTHER -> SReal(s)
SphIdeal(s, op, a) ==
   LET v == TLCEval(IF op \in {"tosph", "ctosph", "ctoylm"} THEN a ELSE Plain(s, Fast, a)) IN
   CASE op = "lap"    -> Stored(s, Fast, TLCEval(SphLap(s, v)))
     [] op = "dphi"   -> Stored(s, Fast, TLCEval(SphDphi(s, v)))
     [] op = "X"      -> Stored(s, Fast, TLCEval(SphGradSq(s, v)))
     [] op = "filter" -> Stored(s, Fast, TLCEval(SphFilter(s, v)))
     [] op = "power"  -> SphPower(s, v)
     [] op = "raise"  -> CStored(s, TLCEval(SphLadder(s, v, TRUE)))
     [] op = "lower"  -> CStored(s, TLCEval(SphLadder(s, v, FALSE)))
     [] op = "toylm"  -> Flat(s, Analysis(s, v))
     [] op = "tosph"  -> Stored(s, Fast, TLCEval(Synthesis(s, Unflat(s, v))))
     [] op = "ctoylm" -> CAnalysis(s, TLCEval(CPlain(s, v)))
     [] op = "ctosph" -> CStored(s, TLCEval(CSynthesis(s, v)))
SphSlack(s, op, v) ==
   LET n == SReal(s) IN
   CASE op = "lap"    -> Const(n, SphLapTol(s, v))
     [] op = "dphi"   -> Const(n, SphDphiTol(s, v))
     [] op = "X"      -> Const(n, SphGradSqTol(s, v))
     [] op = "filter" -> Const(n, SphTol(s, v))
     [] op = "power"  -> Const(s.nl, SphPowerTol(s, v))
     [] op \in {"raise", "lower"} -> Const(2 * n, SphLadderTol(s, v))
     [] op = "toylm"  -> Const(2 * NYlm(s), FMul(FInt(4), SphTol(s, v)))
     [] op = "tosph"  -> Const(n, SphSynTol(s, v))
     [] op = "ctoylm" -> Const(2 * (s.nl + 1) * (s.nl + 1), FMul(FInt(8), SphTol(s, v)))
     [] op = "ctosph" -> Const(2 * n, FMul(F2, SphSynTol(s, v)))
(* the ladder operators and the gradient square are asked for ladder data only *)
SphAsked(s, op, a) ==
   op \in {"raise", "lower", "X"} =>
      FLe(OutsideLadder(s, TLCEval(Plain(s, Fast, a))), FMul(FInt(4), SphTol(s, a)))

GridOps == {"dR", "dr", "ddr", "dphi", "lap", "X", "filter", "power"} \cup (IF Cheb THEN {"nl"} ELSE {})
GridIdeal(g, op, a) ==
   LET v == TLCEval(GPlain(g, Fast, a)) IN
   CASE op = "dR"     -> GStored(g, Fast, TLCEval(GdR(g, Cheb, v)))
     [] op = "dr"     -> GStored(g, Fast, TLCEval(Gdr(g, Cheb, v)))
     [] op = "ddr"    -> GStored(g, Fast, TLCEval(Gddr(g, Cheb, v)))
     [] op = "dphi"   -> GStored(g, Fast, TLCEval(Gdphi(g, v)))
     [] op = "lap"    -> GStored(g, Fast, TLCEval(Glap(g, v)))
     [] op = "X"      -> GStored(g, Fast, TLCEval(GX(g, v)))
     [] op = "filter" -> GStored(g, Fast, TLCEval(GFilter(g, Cheb, v)))
     [] op = "power"  -> GPower(g, v)
     [] op = "nl"     -> GNl(g, v)
GridSlack(g, op, a) ==
   LET v == TLCEval(GPlain(g, Fast, a)) IN
   CASE op = "dR"     -> GStored(g, Fast, TLCEval(GdRTol(g, Cheb, v)))
     [] op = "dr"     -> GStored(g, Fast, TLCEval(GdrTol(g, Cheb, v)))
     [] op = "ddr"    -> GStored(g, Fast, TLCEval(GddrTol(g, Cheb, v)))
     [] op = "dphi"   -> GStored(g, Fast, TLCEval(GSphTol(g, v, SphDphiTol)))
     [] op = "lap"    -> GStored(g, Fast, TLCEval(GSphTol(g, v, SphLapTol)))
     [] op = "X"      -> GStored(g, Fast, TLCEval(GSphTol(g, v, SphGradSqTol)))
     [] op = "filter" -> GStored(g, Fast, TLCEval(GFilterTol(g, Cheb, v)))
     [] op = "power"  -> GPowerTol(g, v)
     [] op = "nl"     -> GNlTol(g, v)
GridAsked(g, op, a) ==
   op = "X" => LET sh == TLCEval(Shells(g, TLCEval(GPlain(g, Fast, a)))) IN
               \A i \in 1..g.n : FLe(OutsideLadder(SphOf(g), sh[i]), FMul(FInt(4), SphTol(SphOf(g), sh[i])))

SysWrong(ob, op, v, res) ==
   IF ob.kind = "sphere" THEN Near(res, TLCEval(SphIdeal(SphOf(ob), op, v)), TLCEval(SphSlack(SphOf(ob), op, v)))
   ELSE Near(res, TLCEval(GridIdeal(ob, op, v)), TLCEval(GridSlack(ob, op, v)))
SysOps(ob) == IF ob.kind = "sphere" THEN SphOps ELSE IF ob.kind = "grid" THEN GridOps ELSE {}
SysInLen(ob, op) == IF ob.kind = "sphere" THEN SphInLen(SphOf(ob), op) ELSE GSize(ob)
(* a call outside what is promised does not happen in a behaviour: it would
   be a mistake of the test script *)
SysCall(o, op, a, b, res, sa) ==
   /\ o \in DOMAIN objs /\ a \in DOMAIN bufs /\ op \in SysOps(objs[o])
   /\ Len(bufs[a]) = SysInLen(objs[o], op)
   /\ Assert(IF objs[o].kind = "sphere" THEN SphAsked(SphOf(objs[o]), op, bufs[a]) ELSE GridAsked(objs[o], op, bufs[a]),
             <<"script error: not ladder data", o, op>>)
   /\ SysWrong(objs[o], op, bufs[a], res) = 0
   /\ IF a = b THEN op = "filter" ELSE sa = bufs[a]
   /\ bufs' = (b :> res) @@ (a :> sa) @@ bufs
   /\ UNCHANGED <<objs, env, files>>

(* a harmonic as a field *)
YlmIdeal(ob, l, m) == LET s == SphOf(ob) IN Stored(s, Fast, TLCEval(Synthesis(s, Unit(s, l, m))))
Ylm(o, l, m, b, res) ==
   /\ o \in DOMAIN objs /\ objs[o].kind \in {"sphere", "grid"} /\ m <= l /\ l <= objs[o].nl /\ m <= objs[o].nm
   /\ Near(res, TLCEval(YlmIdeal(objs[o], l, m)), Const(GN2(objs[o]), FMul(F2, SphRound(SphOf(objs[o]))))) = 0
   /\ bufs' = (b :> res) @@ bufs
   /\ UNCHANGED <<objs, env, files>>

------------------------------------------------------------------------------
(* what objects report about themselves *)
AngTol == FMul(FInt(32), FEps)
SphReport(o, e) ==
   /\ o \in DOMAIN objs /\ objs[o].kind = "sphere"
   /\ LET s == SphOf(objs[o]) IN
      /\ e.nlat = s.nlat /\ e.nphi = s.nphi /\ e.nsph = s.nlat * s.nphi /\ e.nylm = NYlm(s)
      /\ Near(e.th, TLCEval(Theta(s)), Const(s.nlat, FMul(FInt(8), AngTol))) = 0
      /\ Near(e.ph, TLCEval(Phi(s)), Const(s.nphi, AngTol)) = 0
      /\ e.ix = [i \in 1..(s.nlat * s.nphi) |-> SphIndex(s, Fast, (i - 1) \div s.nphi, (i - 1) % s.nphi)]
   /\ UNCHANGED SVars

(* r = R/(1-R/L), anything at least 1e12 in size where R is L: to rounding, or to 1e-16 *)
ArealOK(cl, R, r) ==
   LET gap == FSub(F1, FDiv(R, cl))
       e == FMul(FInt(4), FEps)
       far == FLe(FDec("1e12"), FAbs(r)) /\ FIsFinite(r)
       isL == FLe(FAbs(gap), FMul(F2, FEps))
       there == FLe(FAbs(FSub(R, cl)), FDec("2e-16"))
   IN  (* IF, not \/ : this is part of an action *)
       IF isL THEN far
       ELSE IF there /\ far THEN TRUE
       ELSE FLe(FAbs(FSub(FMul(r, gap), R)), FMul(FMul(e, FAbs(R)), FAdd(F1, FDiv(F1, FAbs(gap)))))
(* everything that is looked up point by point, evaluated once *)
GridCoords(g, cheb) ==
   LET th == TLCEval(Theta(SphOf(g)))
       ph == TLCEval(Phi(SphOf(g)))
   IN [R |-> GR(g, cheb), th |-> th, ph |-> ph,
       sn |-> TLCEval([j \in 1..g.nlat |-> FSin(th[j])]), cs |-> TLCEval([j \in 1..g.nlat |-> FCos(th[j])]),
       sp |-> TLCEval([k \in 1..g.nphi |-> FSin(ph[k])]), cp |-> TLCEval([k \in 1..g.nphi |-> FCos(ph[k])])]
Col(t, k) == TLCEval([i \in 1..Len(t) |-> t[i][k]])
Shaped(t, n, k) == Len(t) = n /\ \A i \in 1..n : Len(t[i]) = k
(* c: the coordinates, N: the number of points, e: what was reported *)
CoordsAgree(g, c, e, N, at, rt, ct) ==
   LET ixof(i) == ((i - 1) \div GN2(g)) + 1
       itof(i) == (((i - 1) % GN2(g)) \div g.nphi) + 1
       ipof(i) == ((i - 1) % g.nphi) + 1
   IN
   /\ Near(Col(e.R3, 1), TLCEval([i \in 1..N |-> c.R[ixof(i)]]), Const(N, rt)) = 0
   /\ Near(Col(e.R3, 2), TLCEval([i \in 1..N |-> c.th[itof(i)]]), Const(N, at)) = 0
   /\ Near(Col(e.R3, 3), TLCEval([i \in 1..N |-> c.ph[ipof(i)]]), Const(N, at)) = 0
   /\ Near(Col(e.X3, 1), TLCEval([i \in 1..N |-> FMul(c.R[ixof(i)], FMul(c.sn[itof(i)], c.cp[ipof(i)]))]), Const(N, ct)) = 0
   /\ Near(Col(e.X3, 2), TLCEval([i \in 1..N |-> FMul(c.R[ixof(i)], FMul(c.sn[itof(i)], c.sp[ipof(i)]))]), Const(N, ct)) = 0
   /\ Near(Col(e.X3, 3), TLCEval([i \in 1..N |-> FMul(c.R[ixof(i)], c.cs[itof(i)])]), Const(N, ct)) = 0
   /\ Near(Col(e.T2, 1), TLCEval([i \in 1..GN2(g) |-> c.th[itof(i)]]), Const(GN2(g), at)) = 0
   /\ Near(Col(e.T2, 2), TLCEval([i \in 1..GN2(g) |-> c.ph[ipof(i)]]), Const(GN2(g), at)) = 0
   /\ Near(Col(e.L2, 1), TLCEval([i \in 1..(g.n * g.nl) |-> c.R[((i - 1) \div g.nl) + 1]]), Const(g.n * g.nl, rt)) = 0
GridReport(o, e) ==
   /\ o \in DOMAIN objs /\ objs[o].kind = "grid"
   /\ \E g \in {objs[o]} : \E N \in {GSize(objs[o])} :
      /\ e.n = g.n /\ e.nl = g.nl /\ e.nm = g.nm /\ e.nlat = g.nlat /\ e.nphi = g.nphi
      /\ e.cl = g.cl /\ e.lo = g.lo /\ e.up = g.up
      \* every point has its slot, and the slots are all of 0..N-1
      /\ e.i3 = [i \in 1..N |-> GIndex(g, Fast, (i - 1) \div GN2(g), ((i - 1) % GN2(g)) \div g.nphi, (i - 1) % g.nphi)]
      /\ e.i2 = [i \in 1..GN2(g) |-> SphIndex(SphOf(g), Fast, (i - 1) \div g.nphi, (i - 1) % g.nphi)]
      /\ e.irth = [i \in 1..(g.n * g.nlat) |-> i - 1]
      /\ e.irph = [i \in 1..(g.n * g.nphi) |-> i - 1]
      /\ e.irl = [i \in 1..(g.n * g.nl) |-> i - 1]
      \* coordinates by index triple
      /\ Shaped(e.R3, N, 3) /\ Shaped(e.X3, N, 3) /\ Shaped(e.T2, GN2(g), 2) /\ Shaped(e.L2, g.n * g.nl, 2)
      /\ \E c \in {GridCoords(g, Cheb)} : \E at \in {FMul(FInt(8), AngTol)} : \E rt \in {PointTol(g)} :
            CoordsAgree(g, c, e, N, at, rt, FAdd(FMul(F2, rt), FMul(FInt(16), FMul(at, FMax(FAbs(g.lo), FAbs(g.up))))))
      /\ Col(e.L2, 2) = [i \in 1..(g.n * g.nl) |-> FInt((i - 1) % g.nl)]
      /\ IF Cheb THEN e.N2 = [i \in 1..(g.n * g.nl) |-> <<FInt((i - 1) \div g.nl), FInt((i - 1) % g.nl)>>] ELSE e.N2 = <<>>
      \* the same by flat index
      /\ \E s3 \in {[i \in 1..N |-> e.i3[i] + 1]} : e.Rf = VScatter(e.R3, s3, e.R3) /\ e.Xf = VScatter(e.X3, s3, e.X3)
      /\ e.Tf = VScatter(e.T2, TLCEval([i \in 1..GN2(g) |-> e.i2[i] + 1]), e.T2)
      /\ e.Lf = e.L2 /\ e.Nf = e.N2
      \* areal radius of every point
      /\ \A i \in 1..N : ArealOK(g.cl, e.R3[i][1], e.r[i])
   /\ UNCHANGED SVars
(* what a grid of any size says about the one point (ix, it, ip) and the label (ix, il) *)
Probe(o, e) ==
   /\ o \in DOMAIN objs /\ objs[o].kind = "grid"
   /\ \E g \in {objs[o]} :
      /\ e.ix < g.n /\ e.it < g.nlat /\ e.ip < g.nphi /\ e.il < g.nl
      /\ e.i3 = GIndex(g, Fast, e.ix, e.it, e.ip)
      /\ e.i2 = SphIndex(SphOf(g), Fast, e.it, e.ip)
      /\ e.irth = (g.nlat * e.ix) + e.it /\ e.irph = (g.nphi * e.ix) + e.ip /\ e.irl = (g.nl * e.ix) + e.il
      /\ e.flat = e.at
      /\ \E c \in {TLCCache(TLCEval(GridCoords(g, Cheb)), {<<"coords", g, Cheb>>})} : \E at \in {FMul(FInt(8), AngTol)} : \E rt \in {PointTol(g)} :
         LET ct == FAdd(FMul(F2, rt), FMul(FInt(16), FMul(at, FMax(FAbs(g.lo), FAbs(g.up)))))
             R == c.R[e.ix + 1]
             th == c.th[e.it + 1]
             ph == c.ph[e.ip + 1]
         IN  /\ Near(e.at[1], <<R, th, ph>>, <<rt, at, at>>) = 0
             /\ Near(e.at[2], <<FMul(R, FMul(c.sn[e.it + 1], c.cp[e.ip + 1])), FMul(R, FMul(c.sn[e.it + 1], c.sp[e.ip + 1])), FMul(R, c.cs[e.it + 1])>>, <<ct, ct, ct>>) = 0
             /\ Near(e.at[3], <<th, ph>>, <<at, at>>) = 0
             /\ Near(e.at[4], <<R, FInt(e.il)>>, <<rt, F0>>) = 0
   /\ UNCHANGED SVars
Areal(o, R, r) ==
   /\ o \in DOMAIN objs /\ objs[o].kind = "grid" /\ Len(R) = Len(r)
   /\ \A i \in 1..Len(R) : ArealOK(objs[o].cl, R[i], r[i])
   /\ UNCHANGED SVars

------------------------------------------------------------------------------
(* rows and planes: the storage positions (from 1) of the entries, in order *)
RowPos(g, w, i, k) ==
   LET at(ix, it, ip) == GIndex(g, Fast, ix, it, ip) + 1 IN
   CASE w = "R"  -> [j \in 1..g.n |-> at(j - 1, i, k)]
     [] w = "th" -> [j \in 1..g.nlat |-> at(i, j - 1, k)]
     [] w = "ph" -> [j \in 1..g.nphi |-> at(i, k, j - 1)]
     [] w = "n"  -> [j \in 1..g.n |-> g.nl * (j - 1) + i + 1]
     [] w = "l"  -> [j \in 1..g.nl |-> g.nl * i + j]
     [] w = "R_th" -> [j \in 1..(g.n * g.nlat) |-> at((j - 1) \div g.nlat, (j - 1) % g.nlat, i)]
     [] w = "R_ph" -> [j \in 1..(g.n * g.nphi) |-> at((j - 1) \div g.nphi, i, (j - 1) % g.nphi)]
     [] w = "th_ph" -> [j \in 1..GN2(g) |-> GN2(g) * i + j]
(* the same of a grid of any size: the row of the vector 0, 1, 2, ... and the places
   that a row 1, 2, 3, ... is put in (the rows "l" are only ever put) *)
RowAt(o, w, i, k, got, pos, val) ==
   /\ o \in DOMAIN objs /\ objs[o].kind = "grid"
   /\ \E at \in {LET P == TLCEval(RowPos(objs[o], w, i, k)) IN TLCEval([j \in 1..Len(P) |-> P[j] - 1])} :
         /\ got = (IF w = "l" THEN <<>> ELSE at)
         /\ pos = at
         /\ val = [j \in 1..Len(at) |-> j]
   /\ UNCHANGED SVars
GetRow(o, w, i, k, a, b, va, vb) ==
   /\ o \in DOMAIN objs /\ objs[o].kind = "grid" /\ a \in DOMAIN bufs
   /\ va = bufs[a]
   /\ vb = VGather(va, TLCEval(RowPos(objs[o], w, i, k)))
   /\ bufs' = (b :> vb) @@ bufs
   /\ UNCHANGED <<objs, env, files>>
SetRow(o, w, i, k, a, b, va, vb) ==
   /\ o \in DOMAIN objs /\ objs[o].kind = "grid" /\ a \in DOMAIN bufs /\ b \in DOMAIN bufs
   /\ vb = bufs[b]
   /\ va = VScatter(bufs[a], TLCEval(RowPos(objs[o], w, i, k)), vb)
   /\ bufs' = (a :> va) @@ bufs
   /\ UNCHANGED <<objs, env, files>>

------------------------------------------------------------------------------
(* diagnostics *)
Residual(o, dt, a, b, p, r) ==
   /\ o \in DOMAIN objs /\ objs[o].kind = "grid" /\ {a, b, p} \subseteq DOMAIN bufs
   \* a sum of N terms of one sign is good to N eps in any order
   /\ \E ideal \in {GResidual(objs[o], dt, bufs[a], bufs[b], bufs[p])} :
         FNear(r, ideal, FAdd(FTiny, FMul(FEps, FAdd(FMul(FInt(32), GResidualMag(objs[o], dt, bufs[a], bufs[b], bufs[p])),
                                                     FMul(FInt(GSize(objs[o])), ideal)))))
   /\ UNCHANGED SVars
Variation(o, a, r) ==
   /\ o \in DOMAIN objs /\ objs[o].kind = "grid" /\ a \in DOMAIN bufs
   /\ LET tv == GTotalVar(objs[o], TLCEval(GPlain(objs[o], Fast, bufs[a]))) IN
      FNear(r, tv, FAdd(FTiny, FMul(FMul(FInt(32 + GSize(objs[o])), FEps), tv)))
   /\ UNCHANGED SVars

------------------------------------------------------------------------------
(* fields: four storage levels n (old), l (stage), np1 (new), k (rate) *)
Levels == {"n", "l", "np1", "k"}
MakeField(o, n, v) == New(o, [kind |-> "field", size |-> n, lv |-> [x \in Levels |-> VConst(n, v)]])
WriteLevel(o, x, v) ==
   /\ o \in DOMAIN objs /\ objs[o].kind = "field" /\ Len(v) = objs[o].size
   /\ objs' = [objs EXCEPT ![o].lv[x] = v]
   /\ UNCHANGED <<bufs, env, files>>
Shift(o) ==
   /\ o \in DOMAIN objs /\ objs[o].kind = "field"
   /\ objs' = [objs EXCEPT ![o].lv["n"] = objs[o].lv["np1"]]
   /\ UNCHANGED <<bufs, env, files>>
FieldReport(o, e) ==
   /\ o \in DOMAIN objs /\ objs[o].kind = "field"
   /\ e.n = objs[o].size /\ e.name = o
   /\ e.vn = objs[o].lv["n"] /\ e.vl = objs[o].lv["l"] /\ e.vnp1 = objs[o].lv["np1"] /\ e.vk = objs[o].lv["k"]
   /\ UNCHANGED SVars

------------------------------------------------------------------------------
(* equation of motion *)
Eom(o) == o \in DOMAIN objs /\ objs[o].kind = "eom"
(* where a set_k result is wrong: 0 nowhere, i > 0 in the rate of p, -i in the rate of f *)
SetKWrong(ob, f, p, rf, rp) ==
   LET g == ob.grid
       k == TLCEval(KRHS(g, Cheb, ob.q, TLCEval(GPlain(g, Fast, f)), TLCEval(GPlain(g, Fast, p))))
       w == Near(rp, TLCEval(GStored(g, Fast, k[1])), TLCEval(GStored(g, Fast, k[2])))
   IN  IF rf # p THEN -VFirstDiff(rf, p) ELSE w
SetK(o, f, p, fk, pk, sf, sp, rf, rp) ==
   /\ Eom(o) /\ f \in DOMAIN bufs /\ p \in DOMAIN bufs
   /\ sf = bufs[f] /\ sp = bufs[p]
   /\ SetKWrong(objs[o], sf, sp, rf, rp) = 0
   /\ bufs' = (fk :> rf) @@ (pk :> rp) @@ bufs
   /\ UNCHANGED <<objs, env, files>>
RhoWrong(ob, f, p, res) ==
   LET g == ob.grid  pf == TLCEval(GPlain(g, Fast, f))  pp == TLCEval(GPlain(g, Fast, p))
   IN  Near(res, TLCEval(GStored(g, Fast, TLCEval(KRho(g, Cheb, ob.q, pf, pp)))),
                 TLCEval(GStored(g, Fast, TLCEval(KRhoTol(g, Cheb, ob.q, pf, pp)))))
Rho(o, f, p, r, sf, sp, res) ==
   /\ Eom(o) /\ f \in DOMAIN bufs /\ p \in DOMAIN bufs
   /\ sf = bufs[f] /\ sp = bufs[p]
   /\ RhoWrong(objs[o], sf, sp, res) = 0
   /\ bufs' = (r :> res) @@ bufs
   /\ UNCHANGED <<objs, env, files>>

(* the result of one step: everything but the filtered old level and the new
   level of both fields is scratch, so its content is not specified *)
StepWrong(ob, f0, p0, fn, pn, fnp1, pnp1) ==
   LET g == ob.grid
       f == TLCEval(GPlain(g, Fast, f0))  p == TLCEval(GPlain(g, Fast, p0))
       ff == TLCEval(GFilter(g, Cheb, f)) pf == TLCEval(GFilter(g, Cheb, p))
       tf == TLCEval(GFilterTol(g, Cheb, f)) tp == TLCEval(GFilterTol(g, Cheb, p))
       rk == TLCEval(RK4(g, Cheb, ob.q, ff, pf))
       gain == FAdd(FInt(4), FMul(FAbs(ob.q[1]), FAdd(FSq(LineNorm(g, Cheb)), FInt(8 * (g.nl + 1) * (g.nl + 1)))))
       amp == TLCEval(VConst(GSize(g), FMul(gain, FAdd(VMaxAbs(tf), VMaxAbs(tp)))))
       w1 == Near(fn, TLCEval(GStored(g, Fast, ff)), TLCEval(GStored(g, Fast, tf)))
       w2 == Near(pn, TLCEval(GStored(g, Fast, pf)), TLCEval(GStored(g, Fast, tp)))
       w3 == Near(fnp1, TLCEval(GStored(g, Fast, rk.f)), TLCEval(GStored(g, Fast, VAdd(rk.ftol, amp))))
       w4 == Near(pnp1, TLCEval(GStored(g, Fast, rk.p)), TLCEval(GStored(g, Fast, VAdd(rk.ptol, amp))))
   IN  IF <<w1, w2, w3, w4>> = <<0, 0, 0, 0>> THEN <<>> ELSE <<w1, w2, w3, w4>>
(* nf, np: all four levels after the step; the stage and rate levels are scratch *)
Step(o, f, p, nf, np) ==
   /\ Eom(o) /\ f \in DOMAIN objs /\ p \in DOMAIN objs /\ f # p /\ objs[f].kind = "field" /\ objs[p].kind = "field"
   /\ StepWrong(objs[o], objs[f].lv["n"], objs[p].lv["n"], nf["n"], np["n"], nf["np1"], np["np1"]) = <<>>
   /\ objs' = [objs EXCEPT ![f].lv = nf, ![p].lv = np]
   /\ UNCHANGED <<bufs, env, files>>

------------------------------------------------------------------------------
(* initial data *)
IDOf(e) == [dir |-> e.dir, amp |-> e.amp, rl |-> e.rl, ru |-> e.ru, l |-> e.l, m |-> e.m]
PulseWrong(g, id, f, p) ==
   LET d == TLCEval(IDFields(g, Cheb, id))
       wf == Near(f, TLCEval(GStored(g, Fast, d.f)), TLCEval(GStored(g, Fast, d.ftol)))
       wp == Near(p, TLCEval(GStored(g, Fast, d.p)), TLCEval(GStored(g, Fast, d.ptol)))
   IN  IF wf # 0 THEN wf ELSE -wp
(* when the pulse is not resolved at all its amplitude is not specified *)
PulseMeaningful(g, id) == LET most == IDFields(g, Cheb, id).most IN most = F0 \/ FLt(FDec("1e-15"), most)
Pulse(o, e) ==
   /\ o \in DOMAIN objs /\ objs[o].kind = "grid"
   /\ e.m <= e.l /\ e.l <= objs[o].nl /\ e.m <= objs[o].nm
   /\ Assert(PulseMeaningful(objs[o], IDOf(e)), <<"script error: unresolved pulse", o>>)
   /\ PulseWrong(objs[o], IDOf(e), e.f, e.p) = 0
   \* the largest value is the amplitude
   /\ LET most == IDFields(objs[o], Cheb, IDOf(e)).most IN
      most # F0 => FNear(VMaxAbs(e.f), FAbs(e.amp), FMul(FMul(FInt(8), FEps), FAbs(e.amp)))
   /\ bufs' = (e.a :> e.f) @@ (e.b :> e.p) @@ bufs
   /\ UNCHANGED <<objs, env, files>>

------------------------------------------------------------------------------
(* output files *)
The(S) == CHOOSE x \in S : TRUE      \* of a singleton: evaluates its element once
XyzTable(g, c, e, v) ==
   LET N == GSize(g)
       ix(i) == ((i - 1) \div GN2(g)) + 1
       it(i) == (((i - 1) % GN2(g)) \div g.nphi) + 1
       ip(i) == ((i - 1) % g.nphi) + 1
       st(w) == TLCEval(GStored(g, Fast, w))
       ct == FAdd(FMul(F2, PointTol(g)), FMul(FInt(128), FMul(AngTol, FMax(FAbs(g.lo), FAbs(g.up)))))
   IN  The({PointTable(e.coords, X, Y, Z, R, ct, e.q, v) :
              X \in {st(TLCEval([i \in 1..N |-> FMul(c.R[ix(i)], FMul(c.sn[it(i)], c.cp[ip(i)]))]))},
              Y \in {st(TLCEval([i \in 1..N |-> FMul(c.R[ix(i)], FMul(c.sn[it(i)], c.sp[ip(i)]))]))},
              Z \in {st(TLCEval([i \in 1..N |-> FMul(c.R[ix(i)], c.cs[it(i)])]))},
              R \in {st(TLCEval([i \in 1..N |-> FAbs(c.R[ix(i)])]))}})
CsvTable(e) ==
   LET v == bufs[e.a] IN
   IF e.w = "plain" THEN PlainTable(v)
   ELSE LET g == objs[e.o] IN
   CASE e.w = "RPsl" -> The({SpectrumTable(g, "RPsl", e.coords, R, PointTol(g), bufs[e.ps]) : R \in {GR(g, Cheb)}})
     [] e.w = "NPsl" -> The({SpectrumTable(g, "NPsl", e.coords, R, F0, bufs[e.ps]) : R \in {[i \in 1..g.n |-> FInt(i - 1)]}})
     [] e.w = "XYZ" -> The({XyzTable(g, c, e, v) : c \in {GridCoords(g, Cheb)}})
WriteCsv(e) ==
   /\ e.a \in DOMAIN bufs /\ (e.w = "plain" \/ (e.o \in DOMAIN objs /\ objs[e.o].kind = "grid"))
   /\ LET f == CsvName(e.w, e.name, e.itm) IN
      /\ Assert(f \notin DOMAIN files, <<"script error: written twice", f>>)
      /\ \E T \in {TLCEval(CsvTable(e))} : files' = (f :> T) @@ files
   /\ UNCHANGED <<objs, bufs, env>>
(* everything on disk is what was written *)
FilesWrong(names, texts) ==
   IF {names[i] : i \in 1..Len(names)} # DOMAIN files THEN <<"files", names>>
   ELSE LET bad == {i \in 1..Len(names) : ~Fits(files[names[i]], texts[i])} IN
        IF bad = {} THEN <<>> ELSE LET i == CHOOSE i \in bad : TRUE IN <<names[i], BadRow(files[names[i]], texts[i])>>
LookFiles(names, texts) == FilesWrong(names, texts) = <<>> /\ UNCHANGED SVars

=============================================================================
