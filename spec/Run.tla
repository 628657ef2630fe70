--------------------------------- MODULE Run ---------------------------------
(***************************************************************************)
(* A whole run of the program.  Schedule: with nt and save interval s the  *)
(* run takes nt-1 steps and output j = 0..(nt-1)\div s shows the state     *)
(* after j*s steps.  RunMC.tla checks the loop of the program (counting    *)
(* steps, saving, shifting) against this schedule for all small nt and s.  *)
(***************************************************************************)
EXTENDS System

Outputs(nt, s) == [j \in 0..((nt - 1) \div s) |-> j * s]
(* the states of the run are the named vectors fn.k, fnp1.k, pn.k (levels
   after step k), fps.k and rps.k (spectra of the new field and of its energy
   density), recorded step by step from the real code *)
At(w, k) == bufs[w \o ToString(k)]
RunRel == FDec("1e-9")       \* agreement asked for between two evaluations of the same run,
                             \* relative to the largest size the run has had so far
Largest(size) == TLCEval([j \in DOMAIN size |-> VMaxAbs([i \in 1..(j + 1) |-> size[i - 1]])])
Pow10(v) == VExp(VScale(FLn(FInt(10)), v))
SpectrumFits(g, lines, ps, size) ==
   LET n == g.n * g.nl
       rows == Tail(lines)
       cells == TLCEval(VNumber(TLCEval(Joined(rows))))
       col(k) == TLCEval([i \in 1..n |-> cells[(3 * (i - 1)) + k]])
   IN  /\ Len(lines) = n + 1 /\ lines[1] = Kinds.RPsl /\ \A i \in 1..n : Len(rows[i]) = 3
       /\ Near(col(1), TLCEval([i \in 1..n |-> GR(g, Cheb)[((i - 1) \div g.nl) + 1]]), VConst(n, FMul(F2, PointTol(g)))) = 0
       /\ Near(col(2), TLCEval([i \in 1..n |-> FInt((i - 1) % g.nl)]), Zero(n)) = 0
       /\ Near(TLCEval(Pow10(col(3))), TLCEval(VMaxV(ps, VConst(n, Floor10))),
               TLCEval(VConst(n, FAdd(FMul(RunRel, size), FMul(FDec("1e-3"), Floor10))))) = 0
(* numbers printed with six digits *)
Six(got, want, slack) == FNear(got, want, FAdd(FMul(FDec("6e-6"), FAbs(want)), slack))
SaidFits(g, dt, k, nums, rsize, fsize) ==
   LET n == Len(nums) IN
   /\ n >= 3
   /\ Six(nums[1], FMul(dt, FInt(k)), F0)
   /\ Six(nums[n - 1], GResidual(g, dt, At("fn.", k), At("fnp1.", k), At("pn.", k)),
          FMul(RunRel, rsize))
   /\ Six(nums[n], GTotalVar(g, TLCEval(GPlain(g, Fast, At("fnp1.", k)))), FMul(RunRel, fsize))
FName(e, j) == e.dir \o CsvName("RPsl", "f", j)
RName(e, j) == e.dir \o CsvName("RPsl", "rho", j)
(* e: what the program did with nt, s, dt: exit status, files, the lines it
   printed that hold at least three numbers, files that could not be opened
   (blocked) and those of them that it named (named) *)
RunWrong(e) ==
   LET g == objs[e.o]
       out == Outputs(e.nt, e.s)
       js == DOMAIN out
       fileset == {FName(e, j) : j \in js} \cup {RName(e, j) : j \in js}
       text(f) == e.texts[CHOOSE i \in 1..Len(e.names) : e.names[i] = f]
       (* files that could not be opened are named on the terminal; the rest is as ever *)
       blocked == {e.blocked[i] : i \in 1..Len(e.blocked)}
       fname(j) == FName(e, j)  rname(j) == RName(e, j)
   IN  IF blocked = {} /\ e.status # 0 THEN <<"exit status", e.status>>
       ELSE IF e.died THEN <<"died", e.status>>
       ELSE IF blocked \ {e.named[i] : i \in 1..Len(e.named)} # {} THEN <<"not reported", blocked, "reported", e.named>>
       ELSE IF {e.names[i] : i \in 1..Len(e.names)} # fileset \ blocked THEN <<"files", e.names, "instead of", fileset>>
       ELSE LET fs == Largest([j \in js |-> VMaxAbs(At("fps.", out[j]))])
                rs == Largest([j \in js |-> VMaxAbs(At("rps.", out[j]))])
                zs == Largest([j \in js |-> GResidualMag(g, e.dt, At("fn.", out[j]), At("fnp1.", out[j]), At("pn.", out[j]))])
                vs == Largest([j \in js |-> VMaxAbs(At("fnp1.", out[j]))])
                bf == The({{j \in js : fname(j) \notin blocked /\ ~SpectrumFits(g, text(FName(e, j)), At("fps.", out[j]), s[j])} : s \in {fs}})
                br == The({{j \in js : rname(j) \notin blocked /\ ~SpectrumFits(g, text(RName(e, j)), At("rps.", out[j]), s[j])} : s \in {rs}})
                bs == IF Len(e.said) # Cardinality(js) THEN {-1}
                      ELSE The({{j \in js : ~SaidFits(g, e.dt, out[j], e.said[j + 1], s[1][j], s[2][j])} : s \in {<<zs, vs>>}})
            IN  IF bf # {} THEN <<"field output", bf>> ELSE IF br # {} THEN <<"energy output", br>>
                ELSE IF bs # {} THEN <<"terminal", bs>> ELSE <<>>
WholeRun(e) ==
   /\ e.o \in DOMAIN objs /\ objs[e.o].kind = "grid" /\ RunWrong(e) = <<>>
   /\ UNCHANGED SVars
(* a level of a field as a named vector *)
GetLevel(o, x, b, v) ==
   /\ o \in DOMAIN objs /\ objs[o].kind = "field" /\ v = objs[o].lv[x]
   /\ bufs' = (b :> v) @@ bufs
   /\ UNCHANGED <<objs, env, files>>
=============================================================================
