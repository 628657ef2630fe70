------------------------------- MODULE DeriveMC -------------------------------
(***************************************************************************)
(* The rules for derived parameters are satisfiable and decide: for every  *)
(* choice of settings on a grid of values the formulas written out give a  *)
(* result without a wrong parameter, and every derived parameter moved     *)
(* away (by one for the counts, by 1e-12 for the rest) is reported wrong.  *)
(* Also: a run of nt steps saving every t_step_save makes at least the     *)
(* number of outputs asked for, as far as there are steps.                 *)
(***************************************************************************)
EXTENDS Launch
VARIABLES s, cheb, done
Val(m, a, L, T, ns, nx, nlat, nphi, cfl, r0) ==
   [black_hole_mass |-> m, black_hole_spin |-> a, compactification_length |-> L, evolve_time |-> T, num_saved_times |-> FInt(ns),
    nx |-> FInt(nx), nlat |-> FInt(nlat), nphi |-> FInt(nphi), cfl |-> cfl, rl_0 |-> r0, ru_0 |-> FAdd(r0, F2)]
Floor(x) == FInt(FFloor(x))
Make(S, c) ==
   LET h == Horizon(S)  dt == Dt(S, c)  nt == Floor(FDiv(FMul(S.evolve_time, S.black_hole_mass), dt))
       q == Floor(FDiv(nt, S.num_saved_times))
   IN  [horizon |-> h, rl |-> FMul(h, S.rl_0), ru |-> FMul(h, S.ru_0), Rmin |-> Compact(h, S.compactification_length), Rmax |-> S.compactification_length,
        dt |-> dt, nt |-> nt, t_step_save |-> IF FEq(q, F0) THEN F1 ELSE q]
Init == /\ cheb \in BOOLEAN /\ done = FALSE
        /\ \E m \in {F1, FDec("0.37"), FInt(12)}, x \in {F0, F1, FDec("-0.6"), FDec("0.9999")}, L \in {FInt(20), FDec("1.5")}, T \in {F0, FDec("7.3"), FInt(40)},
              ns \in {1, 3, 100}, nx \in {2, 9, 129}, la \in {4, 30}, ph \in {4, 40}, cfl \in {FDec("0.75")}, r0 \in {FInt(-1), FDec("1.1")} :
              s = Val(m, FMul(x, m), L, T, ns, nx, la, ph, cfl, r0)
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED <<s, cheb>>
Spec == Init /\ [][Next]_<<s, cheb, done>>
Accepts == Wrong(s, Make(s, cheb), cheb) = {}
Moved(D, k) == [D EXCEPT ![k] = IF k \in {"nt", "t_step_save"} THEN FAdd(@, F1) ELSE FAdd(@, FMul(FDec("1e-12"), FMax(F1, FAbs(@))))]
MovedBack(D, k) == [D EXCEPT ![k] = FSub(@, F1)]
(* at extremal spin the horizon is only known to the root of a rounding *)
Decides == LET D == Make(s, cheb)  ext == FEq(FAbs(s.black_hole_mass), FAbs(s.black_hole_spin)) IN
           \A k \in Derived : (k = "horizon" /\ ext) \/ (k = "nt" /\ WholePart(FAdd(D.nt, F1), FDiv(FMul(s.evolve_time, s.black_hole_mass), D.dt))) \/ k \in Wrong(s, Moved(D, k), cheb)
DecidesBack == LET D == Make(s, cheb) IN
           \A k \in {"nt", "t_step_save"} : (k = "nt" /\ WholePart(FSub(D.nt, F1), FDiv(FMul(s.evolve_time, s.black_hole_mass), D.dt))) \/ k \in Wrong(s, MovedBack(D, k), cheb)
Enough == LET D == Make(s, cheb) IN
          FLe(FMin(s.num_saved_times, D.nt), Floor(FDiv(D.nt, D.t_step_save)))
=============================================================================
