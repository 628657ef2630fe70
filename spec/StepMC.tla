------------------------------- MODULE StepMC -------------------------------
(***************************************************************************)
(* The step protocol.                                                      *)
(*                                                                         *)
(* State machine: two fields with the levels n, l, np1, k, over the field  *)
(* of integers modulo 7 (where 2, 3 and 6 can be divided by), a step       *)
(* proceeding through filter, stage and rate updates, then the shift.      *)
(* Levels other than n start with arbitrary leftovers.  Checked: after the *)
(* step the new level is the Runge-Kutta combination of the four rates     *)
(* computed from the filtered old level, whatever the leftovers were; the  *)
(* shift copies; over several steps the history is that of the ideal map.  *)
(*                                                                         *)
(* ASSUMEs: the numerical step RK4Of of module Kerr has local error of     *)
(* order five and is exact for rates of degree three in time.              *)
(***************************************************************************)
EXTENDS Kerr
CONSTANT Steps
VARIABLES fl, pl, pc, dt, fn, steps, f0, p0
vars == <<fl, pl, pc, dt, fn, steps, f0, p0>>
P == 7
M(x) == ((x % P) + P) % P
Inv6 == 6        \* 6*6 = 36 = 1 mod 7
Inv2 == 4
Inv3 == 5
(* rates d_t p = G(f, p) *)
Rates == {"zero", "osc", "damp", "square", "mix"}
G(r, f, p) == M(CASE r = "zero" -> 0 [] r = "osc" -> -2 * f [] r = "damp" -> -f - 3 * p
                  [] r = "square" -> f * f + 1 [] r = "mix" -> f * p - 2 * p)
Filt(x) == M(3 * x)    \* any fixed map
Junk == {0, 5}
Init == /\ \E a, b, j1, j2 \in {0, 1, 3} : /\ fl = [n |-> a, l |-> j1, np1 |-> j2, k |-> j1]
                                           /\ pl = [n |-> b, l |-> j2, np1 |-> j1, k |-> j2]
        /\ pc = "filter" /\ dt \in 1..6 /\ fn \in Rates /\ steps = 0 /\ f0 = 0 /\ p0 = 0
Upd(a, b, q) == fl' = a /\ pl' = b /\ pc' = q /\ UNCHANGED <<dt, fn, steps, f0, p0>>
Filter == /\ pc = "filter"
          /\ fl' = [fl EXCEPT !.n = Filt(fl.n)] /\ pl' = [pl EXCEPT !.n = Filt(pl.n)]
          /\ f0' = Filt(fl.n) /\ p0' = Filt(pl.n) /\ pc' = "level1" /\ UNCHANGED <<dt, fn, steps>>
Level1 == pc = "level1" /\ Upd([fl EXCEPT !.l = fl.n], [pl EXCEPT !.l = pl.n], "rate1")
Rate(i, to) == pc = i /\ Upd([fl EXCEPT !.k = pl.l], [pl EXCEPT !.k = G(fn, fl.l, pl.l)], to)
Stage(i, to, s, w, first) ==
   LET one(x) == [x EXCEPT !.l = IF s = 0 THEN x.l ELSE M(x.n + s * dt * x.k),
                           !.np1 = IF first THEN M(x.n + w * dt * x.k) ELSE M(x.np1 + w * dt * x.k)]
   IN  pc = i /\ Upd(one(fl), one(pl), to)
Shift == /\ pc = "done" /\ steps < Steps
         /\ fl' = [fl EXCEPT !.n = fl.np1] /\ pl' = [pl EXCEPT !.n = pl.np1]
         /\ steps' = steps + 1 /\ pc' = "filter" /\ UNCHANGED <<dt, fn, f0, p0>>
Next == \/ Filter \/ Level1 \/ Shift
        \/ Rate("rate1", "level2") \/ Stage("level2", "rate2", Inv2, Inv6, TRUE)
        \/ Rate("rate2", "level3") \/ Stage("level3", "rate3", Inv2, Inv3, FALSE)
        \/ Rate("rate3", "level4") \/ Stage("level4", "rate4", 1, Inv3, FALSE)
        \/ Rate("rate4", "level5") \/ Stage("level5", "done", 0, Inv6, FALSE)
        \/ (pc = "done" /\ steps = Steps /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
(* the textbook step *)
Ideal(f, p) ==
   LET h == M(Inv2 * dt)
       k1 == G(fn, f, p)
       f1 == M(f + h * p)   p1 == M(p + h * k1)  k2 == G(fn, f1, p1)
       f2 == M(f + h * p1)  p2 == M(p + h * k2)  k3 == G(fn, f2, p2)
       f3 == M(f + dt * p2) p3 == M(p + dt * k3) k4 == G(fn, f3, p3)
   IN  <<M(f + Inv6 * dt * (p + 2 * p1 + 2 * p2 + p3)), M(p + Inv6 * dt * (k1 + 2 * k2 + 2 * k3 + k4))>>
StepIsRK4 == pc = "done" => <<fl.np1, pl.np1>> = Ideal(f0, p0) /\ fl.n = f0 /\ pl.n = p0
OldLevelKept == pc \notin {"filter"} => fl.n = f0 /\ pl.n = p0
ShiftCopies == [][pc = "done" /\ pc' = "filter" => fl'.n = fl.np1 /\ pl'.n = pl.np1 /\ fl'.np1 = fl.np1 /\ fl'.l = fl.l /\ fl'.k = fl.k]_vars

(* the numerical step: f'' = -f against cos t, sin t: local error of order five *)
Osc(f, p) == <<VScale(FInt(-1), f), VConst(Len(f), F0)>>
ErrOsc(h) == LET s == RK4Of(h, <<F1>>, <<F0>>, Osc) IN
             FMax(FAbs(FSub(s.f[1], FCos(h))), FAbs(FAdd(s.p[1], FSin(h))))
ASSUME FLt(ErrOsc(FRat(1, 10)), FMul(FRat(1, 100), FPowI(FRat(1, 10), 5)))
ASSUME LET q == FDiv(ErrOsc(FRat(1, 5)), ErrOsc(FRat(1, 10))) IN FLt(FInt(25), q) /\ FLt(q, FInt(40))
(* nonlinear: f'' = 6 f^2 has the solution 1/(1-t)^2 *)
NL(f, p) == <<VScale(FInt(6), VMul(f, f)), VConst(Len(f), F0)>>
ErrNL(h) == LET s == RK4Of(h, <<F1>>, <<F2>>, NL) IN FAbs(FSub(s.f[1], FDiv(F1, FSq(FSub(F1, h)))))
ASSUME LET q == FDiv(ErrNL(FRat(1, 50)), ErrNL(FRat(1, 100))) IN FLt(FInt(28), q) /\ FLt(q, FInt(40))
(* and the bound on rounding it states is small *)
ASSUME LET s == RK4Of(FRat(1, 10), <<F1>>, <<F0>>, Osc) IN FLt(s.ftol[1], FDec("1e-14")) /\ FLt(F0, s.ftol[1])
=============================================================================
