---------------------------- MODULE Trace_System ----------------------------
(* Every recorded history of the real code is a behaviour of System. *)
EXTENDS Run, Symmetry, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<objs, bufs, env, files, t, l>>
Ev == Traces[t][l]
Is(e) == l <= Len(Traces[t]) /\ Ev.e = e /\ l' = l + 1 /\ t' = t
TInit == SInit /\ t \in 1..Len(Traces) /\ l = 1
NewOb == CASE Ev.kind \in {"fd", "cheb"} -> [kind |-> Ev.kind, n |-> Ev.n, lo |-> Ev.lo, up |-> Ev.up]
           [] Ev.kind = "sphere" -> [kind |-> "sphere", nl |-> Ev.nl, nm |-> Ev.nm, nlat |-> Ev.nlat, nphi |-> Ev.nphi]
           [] Ev.kind = "grid" -> [kind |-> "grid", cl |-> Ev.cl, lo |-> Ev.lo, up |-> Ev.up, n |-> Ev.n,
                                   nl |-> Ev.nl, nm |-> Ev.nm, nlat |-> Ev.nlat, nphi |-> Ev.nphi]
           [] Ev.kind = "field" -> [kind |-> "field", size |-> Ev.n, lv |-> [x \in Levels |-> VConst(Ev.n, Ev.v)]]
           [] Ev.kind = "eom" -> [kind |-> "eom", grid |-> objs[Ev.g], q |-> Ev.q]
Kind(o) == IF o \in DOMAIN objs THEN objs[o].kind ELSE "none"
TNext ==
   \/ Is("start") /\ Start(Ev.cheb, Ev.contig)
   \/ Is("new")  /\ New(Ev.o, NewOb)
   \/ Is("del")  /\ Delete(Ev.o)
   \/ Is("put")  /\ PutBuf(Ev.b, Ev.v)
   \/ Is("call") /\ Kind(Ev.o) \in {"fd", "cheb"} /\ RadialCall(Ev.o, Ev.op, Ev.a, Ev.b, Ev.res, Ev.sa)
   \/ Is("call") /\ Kind(Ev.o) \in {"sphere", "grid"} /\ SysCall(Ev.o, Ev.op, Ev.a, Ev.b, Ev.res, Ev.sa)
   \/ Is("ylm")  /\ Ylm(Ev.o, Ev.l, Ev.m, Ev.b, Ev.res)
   \/ Is("pts")  /\ RadialReport(Ev.o, Ev.n, Ev.lo, Ev.up, Ev.pts)
   \/ Is("sphpts") /\ SphReport(Ev.o, Ev)
   \/ Is("gridpts") /\ GridReport(Ev.o, Ev)
   \/ Is("probe") /\ Probe(Ev.o, Ev)
   \/ Is("rowat") /\ RowAt(Ev.o, Ev.w, Ev.i, Ev.k, Ev.got, Ev.pos, Ev.val)
   \/ Is("rtor") /\ Areal(Ev.o, Ev.R, Ev.r)
   \/ Is("row") /\ Ev.get /\ GetRow(Ev.o, Ev.w, Ev.i, Ev.k, Ev.a, Ev.b, Ev.va, Ev.vb)
   \/ Is("row") /\ ~Ev.get /\ SetRow(Ev.o, Ev.w, Ev.i, Ev.k, Ev.a, Ev.b, Ev.va, Ev.vb)
   \/ Is("res") /\ Residual(Ev.o, Ev.dt, Ev.a, Ev.b, Ev.p, Ev.r)
   \/ Is("tv") /\ Variation(Ev.o, Ev.a, Ev.r)
   \/ Is("flevel") /\ WriteLevel(Ev.o, Ev.lv, Ev.v)
   \/ Is("shift") /\ Shift(Ev.o)
   \/ Is("flook") /\ FieldReport(Ev.o, Ev)
   \/ Is("setk") /\ SetK(Ev.o, Ev.f, Ev.p, Ev.fk, Ev.pk, Ev.sf, Ev.sp, Ev.rf, Ev.rp)
   \/ Is("rho") /\ Rho(Ev.o, Ev.f, Ev.p, Ev.r, Ev.sf, Ev.sp, Ev.res)
   \/ Is("step") /\ Step(Ev.o, Ev.f, Ev.p,
            [n |-> Ev.fn, l |-> Ev.fl, np1 |-> Ev.fnp1, k |-> Ev.fk], [n |-> Ev.pn, l |-> Ev.pl, np1 |-> Ev.pnp1, k |-> Ev.pk])
   \/ Is("evolve") /\ Evolve(Ev.o, Ev.f, Ev.p, Ev.k,
            [n |-> Ev.fn, l |-> Ev.fl, np1 |-> Ev.fnp1, k |-> Ev.fk], [n |-> Ev.pn, l |-> Ev.pl, np1 |-> Ev.pnp1, k |-> Ev.pk])
   \/ Is("twin") /\ Twin(Ev)
   \/ Is("sum") /\ Sum(Ev)
   \/ Is("still") /\ Still(Ev)
   \/ Is("twinrho") /\ TwinRho(Ev)
   \/ Is("id") /\ Pulse(Ev.o, Ev)
   \/ Is("csv") /\ WriteCsv(Ev)
   \/ Is("files") /\ LookFiles(Ev.names, Ev.texts)
   \/ Is("fget") /\ GetLevel(Ev.o, Ev.lv, Ev.b, Ev.v)
   \/ Is("run") /\ WholeRun(Ev)
   \/ Is("look") /\ LookAll(Ev.all)
   \/ l > Len(Traces[t]) /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_vars
(* what was got, what the ideal is and how far off it may be, at position i *)
Deviation(i, got, ideal, tol) == IF i = 0 THEN <<>> ELSE IF i < 0 \/ i > Len(got) THEN <<i>> ELSE <<i, FShow(got[i]), FShow(ideal[i]), FShow(tol[i])>>
SetKDetail == LET g == objs[Ev.o].grid
                  k == KRHS(g, Cheb, objs[Ev.o].q, TLCEval(GPlain(g, Fast, Ev.sf)), TLCEval(GPlain(g, Fast, Ev.sp)))
              IN  Deviation(SetKWrong(objs[Ev.o], Ev.sf, Ev.sp, Ev.rf, Ev.rp), Ev.rp, GStored(g, Fast, k[1]), GStored(g, Fast, k[2]))
Detail ==
   CASE Ev.e = "call" /\ Kind(Ev.o) \in {"sphere", "grid"} /\ Ev.a \in DOMAIN bufs /\ Ev.op \in SysOps(objs[Ev.o]) /\ Len(bufs[Ev.a]) = SysInLen(objs[Ev.o], Ev.op)
          -> LET w == SysWrong(objs[Ev.o], Ev.op, bufs[Ev.a], Ev.res) IN
             [what |-> Ev.op \o " of " \o Kind(Ev.o), wrong_at |-> w, got |-> IF w > 0 THEN FShow(Ev.res[w]) ELSE "",
              allowed |-> IF w > 0 THEN FShow((IF Kind(Ev.o) = "sphere" THEN SphIdeal(SphOf(objs[Ev.o]), Ev.op, bufs[Ev.a]) ELSE GridIdeal(objs[Ev.o], Ev.op, bufs[Ev.a]))[w]) ELSE ""]
     [] Ev.e = "call" /\ Kind(Ev.o) \in {"fd", "cheb"} /\ Ev.a \in DOMAIN bufs -> [what |-> Ev.op \o " of " \o Kind(Ev.o)]
     [] Ev.e = "setk" /\ Eom(Ev.o) -> [what |-> "rate of change", wrong_at |-> SetKDetail]
     [] Ev.e = "rho" /\ Eom(Ev.o) -> [what |-> "energy density", wrong_at |-> RhoWrong(objs[Ev.o], Ev.sf, Ev.sp, Ev.res)]
     [] Ev.e = "step" /\ Eom(Ev.o) -> [what |-> "time step", wrong_at |-> StepWrong(objs[Ev.o], objs[Ev.f].lv["n"], objs[Ev.p].lv["n"], Ev.fn, Ev.pn, Ev.fnp1, Ev.pnp1)]
     [] Ev.e = "twin" -> [what |-> "twins do not agree", moved |-> Ev.w, wrong_at |-> TwinWrong(Ev)]
     [] Ev.e = "sum" -> [what |-> "superposition", wrong_at |-> SumWrong(Ev)]
     [] Ev.e = "still" -> [what |-> "constant at rest", wrong_at |-> StillWrong(Ev)]
     [] Ev.e = "twinrho" -> [what |-> "energy densities of twins do not agree", moved |-> Ev.w, wrong_at |-> TwinRhoWrong(Ev)]
     [] Ev.e = "id" -> [what |-> "initial data", wrong_at |-> PulseWrong(objs[Ev.o], IDOf(Ev), Ev.f, Ev.p)]
     [] Ev.e = "probe" -> [what |-> "grid point", point |-> <<Ev.ix, Ev.it, Ev.ip, Ev.il>>]
     [] Ev.e = "rowat" -> [what |-> "row " \o Ev.w \o " of a large grid"]
     [] Ev.e = "row" -> [what |-> "row " \o Ev.w]
     [] Ev.e = "files" -> [what |-> "output", wrong_at |-> FilesWrong(Ev.names, Ev.texts)]
     [] Ev.e = "run" -> [what |-> "run", wrong_at |-> RunWrong(Ev)]
     [] Ev.e = "crash" -> [what |-> Ev.how \o " " \o Ev.said]
     [] OTHER -> [what |-> Ev.e]
Where == IF l > Len(Traces[t]) THEN [trace |-> t, at |-> l] ELSE [trace |-> t, at |-> l, event |-> Ev.e, detail |-> Detail]
=============================================================================
