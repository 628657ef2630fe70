------------------------------ MODULE Symmetry ------------------------------
(***************************************************************************)
(* The symmetries of the scalar wave equation on Kerr, as transformations  *)
(* of grids, parameters and states that commute with the evolution:        *)
(*   <<"turn", j>>   rotation about the spin axis by j longitudes          *)
(*   <<"flip", 0>>   reflection in the equatorial plane                    *)
(*   <<"mirror", 0>> longitude and spin reversed                           *)
(*   <<"sign", 0>>   f -> -f, with the odd terms of K and V reversed       *)
(*   <<"size", k>>   all lengths and times times 2^k                       *)
(* and, where the equation is linear, superposition; a constant field at   *)
(* rest with V' = 0 stays.  A word is a sequence of these.                 *)
(* SymmetryMC.tla checks that the specified rate, filter, step and energy  *)
(* density commute with all of them.                                       *)
(***************************************************************************)
EXTENDS System

(* words *)
Ratio(w) == FPowI(F2, w[2])
Applies(w, q) == /\ w[1] \in {"turn", "flip", "mirror", "sign", "size"}
                 /\ w[1] = "sign" => q[4] = F0
MoveGrid1(w, g) == IF w[1] # "size" THEN g
                   ELSE [g EXCEPT !.cl = FMul(Ratio(w), @), !.lo = FMul(Ratio(w), @), !.up = FMul(Ratio(w), @)]
(* q = <<dt, m, a, km1, k0, k1, k2, V2, V3, V4>> *)
Neg0(x) == FSub(F0, x)
MoveQ1(w, q) ==
   CASE w[1] \in {"turn", "flip"} -> q
     [] w[1] = "mirror" -> [q EXCEPT ![3] = Neg0(@)]
     [] w[1] = "sign"   -> [q EXCEPT ![6] = Neg0(@), ![9] = Neg0(@)]
     [] w[1] = "size"   -> [i \in 1..10 |-> IF i <= 3 THEN FMul(Ratio(w), q[i])
                                            ELSE IF i >= 8 THEN FDiv(q[i], FSq(Ratio(w))) ELSE q[i]]
(* where the value at a point of the image comes from (plain order, from 1) *)
Source(w, g) ==
   TLCEval([i \in 1..GSize(g) |->
      LET ip == (i - 1) % g.nphi
          it == ((i - 1) \div g.nphi) % g.nlat
          ix == (i - 1) \div GN2(g)
          jp == IF w[1] = "turn" THEN (ip + (g.nphi - (w[2] % g.nphi))) % g.nphi
                ELSE IF w[1] = "mirror" THEN (g.nphi - ip) % g.nphi ELSE ip
          jt == IF w[1] = "flip" THEN g.nlat - 1 - it ELSE it
      IN  (GN2(g) * ix) + (g.nphi * jt) + jp + 1])
Carry1(w, g, v) == IF w[1] \in {"turn", "flip", "mirror"} THEN VGather(v, TLCCache(Source(w, g), {<<w, g.n, g.nlat, g.nphi>>})) ELSE v
(* the image of f, of p = df/dt, of the rate of p, of the energy density *)
MoveF1(w, g, v) == IF w[1] = "sign" THEN VScale(FInt(-1), v) ELSE Carry1(w, g, v)
MoveP1(w, g, v) == IF w[1] = "size" THEN VScale(FDiv(F1, Ratio(w)), v) ELSE MoveF1(w, g, v)
MoveK1(w, g, v) == IF w[1] = "size" THEN VScale(FDiv(F1, FSq(Ratio(w))), v) ELSE MoveF1(w, g, v)
MoveRho1(w, g, v) == IF w[1] = "size" THEN VScale(FDiv(F1, FSq(Ratio(w))), v) ELSE Carry1(w, g, v)

RECURSIVE MoveGrid(_, _), MoveQ(_, _), Words(_, _)
MoveGrid(ws, g) == IF ws = <<>> THEN g ELSE MoveGrid(Tail(ws), MoveGrid1(ws[1], g))
MoveQ(ws, q) == IF ws = <<>> THEN q ELSE MoveQ(Tail(ws), MoveQ1(ws[1], q))
Words(ws, q) == IF ws = <<>> THEN TRUE ELSE Applies(ws[1], q) /\ Words(Tail(ws), MoveQ1(ws[1], q))
RECURSIVE Move(_, _, _, _)
Move(op(_, _, _), ws, g, v) == IF ws = <<>> THEN v ELSE Move(op, Tail(ws), MoveGrid1(ws[1], g), TLCEval(op(ws[1], g, v)))
MoveF(ws, g, v) == Move(MoveF1, ws, g, v)
MoveP(ws, g, v) == Move(MoveP1, ws, g, v)
MoveK(ws, g, v) == Move(MoveK1, ws, g, v)
MoveRho(ws, g, v) == Move(MoveRho1, ws, g, v)
(* lengths of a word: p of the image is p / Stretch *)
RECURSIVE Stretch(_)
Stretch(ws) == IF ws = <<>> THEN F1 ELSE FMul(IF ws[1][1] = "size" THEN Ratio(ws[1]) ELSE F1, Stretch(Tail(ws)))

(* the equation is linear: no superposition otherwise *)
Linear(q) == q[4] = F0 /\ q[6] = F0 /\ q[7] = F0 /\ q[9] = F0 /\ q[10] = F0
(* no potential: constants stay *)
Free(q) == q[8] = F0 /\ q[9] = F0 /\ q[10] = F0

------------------------------------------------------------------------------
(* Two evolutions of the real code on equivalent data agree to rounding.   *)
(* A, B: the largest f and p of the run so far; k: the number of steps.    *)
(* What rounding puts into p in one step is at most eps dt times the norm  *)
(* of the second derivatives times A; RunTwin allows for its propagation.  *)
RunTwin == FDec("1e-10")
TwinTols(g, q, A, B, k) ==
   LET stiff == FAdd(FAdd(F1, FAbs(q[3])), FAdd(FSq(LineNorm(g, Cheb)), FInt(8 * (g.nl + 1) * (g.nl + 1))))
       tp == FAdd(FMul(RunTwin, B), FMul(FMul(FInt(64 * k), FEps), FMul(FMul(FAbs(q[1]), stiff), FMul(FInt(16), A))))
       tf == FAdd(FMul(RunTwin, A), FMul(FMul(FInt(2 * k), FAbs(q[1])), tp))
   IN  [f |-> FAdd(tf, FTiny), p |-> FAdd(tp, FTiny)]
FieldOf(F) == F \in DOMAIN objs /\ objs[F].kind = "field"
(* levels of a field on grid g in plain order *)
Level(g, F, x) == TLCEval(GPlain(g, Fast, objs[F].lv[x]))
TwinFits(g, got, want, tol) == Near(got, want, VConst(GSize(g), tol))
(* e.A, e.B = <<field f, field p, equation>>, e.f0, e.p0: how the first run began, e.k steps *)
SizeSoFar(g, F, b) == FMax(VMaxAbs(bufs[b]), FMax(VMaxAbs(objs[F].lv["n"]), VMaxAbs(objs[F].lv["np1"])))
TwinWrong(e) ==
   LET a == e.A  b == e.B  g == objs[a[3]].grid  q == objs[a[3]].q
       t == TwinTols(g, q, SizeSoFar(g, a[1], e.f0), SizeSoFar(g, a[2], e.p0), e.k)
       s == Stretch(e.w)
       fits(x) == <<TwinFits(g, Level(g, b[1], x), MoveF(e.w, g, Level(g, a[1], x)), t.f),
                    TwinFits(g, Level(g, b[2], x), MoveP(e.w, g, Level(g, a[2], x)), FDiv(t.p, s))>>
   IN  <<fits("n"), fits("np1")>>
Nothing == <<<<0, 0>>, <<0, 0>>>>
Twin(e) ==
   /\ Eom(e.A[3]) /\ Eom(e.B[3]) /\ \A F \in {e.A[1], e.A[2], e.B[1], e.B[2]} : FieldOf(F)
   /\ {e.f0, e.p0} \subseteq DOMAIN bufs
   /\ Assert(/\ Words(e.w, objs[e.A[3]].q) /\ objs[e.B[3]].q = MoveQ(e.w, objs[e.A[3]].q)
             /\ objs[e.B[3]].grid = MoveGrid(e.w, objs[e.A[3]].grid), <<"script error: not twins", e.w>>)
   /\ TwinWrong(e) = Nothing
   /\ UNCHANGED SVars
(* the third run began as the first plus c times the second *)
SumWrong(e) ==
   LET a == e.A  b == e.B  d == e.D  g == objs[a[3]].grid  q == objs[a[3]].q
       A == FAdd(SizeSoFar(g, a[1], e.f0), FMul(FAbs(e.c), SizeSoFar(g, b[1], e.g0)))
       B == FAdd(SizeSoFar(g, a[2], e.p0), FMul(FAbs(e.c), SizeSoFar(g, b[2], e.q0)))
       t == TwinTols(g, q, A, B, e.k)
       fits(x) == <<TwinFits(g, Level(g, d[1], x), TLCEval(VAxpy(e.c, Level(g, b[1], x), Level(g, a[1], x))), t.f),
                    TwinFits(g, Level(g, d[2], x), TLCEval(VAxpy(e.c, Level(g, b[2], x), Level(g, a[2], x))), t.p)>>
   IN  <<fits("n"), fits("np1")>>
Sum(e) ==
   /\ \A r \in {e.A, e.B, e.D} : Eom(r[3]) /\ FieldOf(r[1]) /\ FieldOf(r[2])
   /\ {e.f0, e.p0, e.g0, e.q0} \subseteq DOMAIN bufs
   /\ Assert(Linear(objs[e.A[3]].q) /\ \A r \in {e.B, e.D} : objs[r[3]].q = objs[e.A[3]].q /\ objs[r[3]].grid = objs[e.A[3]].grid,
             <<"script error: not linear or not the same equation">>)
   /\ SumWrong(e) = Nothing
   /\ UNCHANGED SVars
(* the field began as the constant v at rest *)
StillWrong(e) ==
   LET a == e.A  g == objs[a[3]].grid  t == TwinTols(g, objs[a[3]].q, FAbs(e.v), F0, e.k)
       fits(x) == <<TwinFits(g, Level(g, a[1], x), VConst(GSize(g), e.v), t.f), TwinFits(g, Level(g, a[2], x), VConst(GSize(g), F0), t.p)>>
   IN  <<fits("n"), fits("np1")>>
Still(e) ==
   /\ Eom(e.A[3]) /\ FieldOf(e.A[1]) /\ FieldOf(e.A[2])
   /\ Assert(e.v = F0 \/ Free(objs[e.A[3]].q), <<"script error: not at rest">>)
   /\ StillWrong(e) = Nothing
   /\ UNCHANGED SVars
(* the energy density of the image of a state (exactly moved) is the image of its energy density *)
TwinRhoWrong(e) ==
   LET ob == objs[e.eo]  g == ob.grid  h == objs[e.fo].grid
       pl(gg, b) == TLCEval(GPlain(gg, Fast, bufs[b]))
       f == pl(g, e.f)  p == pl(g, e.p)
       tol == TLCEval(VScale(F2, KRhoTol(g, Cheb, ob.q, f, p)))
   IN  Near(pl(h, e.s), TLCEval(MoveRho(e.w, g, pl(g, e.r))), TLCEval(MoveRho(e.w, g, tol)))
TwinRho(e) ==
   /\ Eom(e.eo) /\ Eom(e.fo) /\ {e.f, e.p, e.r, e.f2, e.p2, e.s} \subseteq DOMAIN bufs
   /\ Assert(/\ Words(e.w, objs[e.eo].q) /\ objs[e.fo].q = MoveQ(e.w, objs[e.eo].q) /\ objs[e.fo].grid = MoveGrid(e.w, objs[e.eo].grid)
             /\ VFirstDiff(TLCEval(GPlain(objs[e.fo].grid, Fast, bufs[e.f2])), TLCEval(MoveF(e.w, objs[e.eo].grid, TLCEval(GPlain(objs[e.eo].grid, Fast, bufs[e.f]))))) = 0
             /\ VFirstDiff(TLCEval(GPlain(objs[e.fo].grid, Fast, bufs[e.p2])), TLCEval(MoveP(e.w, objs[e.eo].grid, TLCEval(GPlain(objs[e.eo].grid, Fast, bufs[e.p]))))) = 0,
             <<"script error: not the image">>)
   /\ TwinRhoWrong(e) = 0
   /\ UNCHANGED SVars
(* k steps, each followed by a shift but the last; what they return is not
   looked at here but by Twin, Sum or Still afterwards (Step checks single steps) *)
Evolve(o, f, p, k, nf, np) ==
   /\ Eom(o) /\ f \in DOMAIN objs /\ p \in DOMAIN objs /\ f # p /\ objs[f].kind = "field" /\ objs[p].kind = "field" /\ k >= 1
   /\ \A x \in Levels : Len(nf[x]) = objs[f].size /\ Len(np[x]) = objs[p].size
   /\ objs' = [objs EXCEPT ![f].lv = nf, ![p].lv = np]
   /\ UNCHANGED <<bufs, env, files>>
=============================================================================
