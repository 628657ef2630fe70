------------------------------- MODULE GridMC -------------------------------
(***************************************************************************)
(* The operators of the 3d grid, as lifted from lines and shells:          *)
(*  - the image of a unit field lies on the line (or shell) of its point,  *)
(*    for every point of every shape;                                      *)
(*  - on the products (R-c)^k Y_lm, for every resolved (l,m) and every k   *)
(*    the radial method resolves, they are the continuous operators: the   *)
(*    chain rule in R (derivatives taken exactly, as polynomials), the     *)
(*    eigenvalues of the sphere, both filters, the power of each degree.   *)
(***************************************************************************)
EXTENDS System
CONSTANTS Ns, Ls, MaxK
VARIABLES g, what
G(n, l, m, d, c) == [n |-> n, lo |-> FRat(3, 2), up |-> c, cl |-> FInt(7), nl |-> l, nm |-> m, nlat |-> l + 1 + d, nphi |-> 2 * m + 1 + d]
Shapes == {G(n, l, m, d, c) : n \in Ns, l \in Ls, m \in 0..2, d \in 0..1, c \in {FInt(7), FInt(5)}}
MCInit == /\ g \in {h \in Shapes : h.nm <= h.nl}
          /\ env \in [cheb : BOOLEAN, contig : BOOLEAN] /\ objs = <<>> /\ bufs = <<>> /\ files = <<>>
          /\ what = <<"none">>
MCNext == /\ what[1] = "none"
          /\ \/ \E i \in 1..GSize(g) : what' = <<"unit", i>> /\ g.nl <= 1 /\ ~env.contig
             \/ \E l \in 0..g.nl, m \in 0..g.nm, k \in 0..MaxK : m <= l /\ what' = <<"mode", l, m, k>>
          /\ UNCHANGED <<g, SVars>>
MCSpec == MCInit /\ [][MCNext]_<<g, what, SVars>>
Plain3(op, v) == GPlain(g, Fast, GridIdeal(g, op, GStored(g, Fast, v)))
Slack3(op, v) == GPlain(g, Fast, GridSlack(g, op, GStored(g, Fast, v)))

Is3 == what[1] = "mode"
IxOf(i) == (i - 1) \div GN2(g)
AngOf(i) == (i - 1) % GN2(g)
Small(x, most) == FLe(FAbs(x), FMul(FDec("1e-12"), most))
OnItsOwn ==
   what[1] = "unit" =>
      \E v \in {[i \in 1..GSize(g) |-> IF i = what[2] THEN F1 ELSE F0]} :
         /\ \A op \in {"dR", "dr", "ddr"} : \E w \in {Plain3(op, v)} : \A i \in 1..GSize(g) : AngOf(i) # AngOf(what[2]) => w[i] = F0
         /\ \A op \in {"dphi", "lap"} : \E w \in {Plain3(op, v)} : \A i \in 1..GSize(g) : IxOf(i) # IxOf(what[2]) => w[i] = F0
         \* a filtered point does not reach the ends of other shells
         /\ \E w \in {Plain3("filter", v)} : \A i \in 1..GSize(g) : (IxOf(i) \in {0, g.n - 1} /\ IxOf(i) # IxOf(what[2])) => w[i] = F0

(* polynomials in x = R - C, as lists of coefficients (from degree 0) *)
C == FInt(4)
RECURSIVE Eval(_, _, _)
Eval(p, x, i) == IF i > Len(p) THEN F0 ELSE FAdd(p[i], FMul(x, Eval(p, x, i + 1)))
PDer(p) == IF Len(p) <= 1 THEN <<F0>> ELSE [i \in 1..(Len(p) - 1) |-> FMul(FInt(i), p[i + 1])]
PMul(p, q) == [i \in 1..(Len(p) + Len(q) - 1) |->
                 VSum([j \in 1..Len(p) |-> IF i - j + 1 \in 1..Len(q) THEN FMul(p[j], q[i - j + 1]) ELSE F0])]
(* (1 - R/L) with R = C + x *)
Gap == <<FSub(F1, FDiv(C, g.cl)), FNeg(FDiv(F1, g.cl))>>
J == PMul(Gap, Gap)
Mono(k) == [i \in 1..(k + 1) |-> IF i = k + 1 THEN F1 ELSE F0]
Prod(p, y) == LET R == GR(g, Cheb) IN VFlat([i \in 1..g.n |-> VScale(Eval(p, FSub(R[i], C), 1), y)])
Close(op, v, w) == Near(Plain3(op, v), w, VAdd(VScale(F2, Slack3(op, v)), VConst(GSize(g), FMul(FDec("1e-12"), FAdd(VMaxAbs(w), FMul(FDec("1e-2"), VMaxAbs(v))))))) = 0
S == SphOf(g)
Harm(l, m) == Synthesis(S, Unit(S, l, m))
Turned(l, m) == Synthesis(S, CoefDphi(S, Unit(S, l, m)))
Continuous ==
   Is3 => LET l == what[2]  m == what[3]  k == what[4] IN
      \E y \in {Harm(l, m)} : \E z \in {Turned(l, m)} : \E v \in {TLCEval(Prod(Mono(k), y))} :
         /\ Close("dR", v, TLCEval(Prod(PDer(Mono(k)), y)))
         /\ Close("dr", v, TLCEval(Prod(PMul(J, PDer(Mono(k))), y)))
         /\ Close("ddr", v, TLCEval(Prod(PMul(J, PDer(PMul(J, PDer(Mono(k))))), y)))
         /\ Close("dphi", v, TLCEval(Prod(Mono(k), z)))
         /\ Close("lap", v, VScale(FInt(-l * (l + 1)), v))
Filtered ==
   Is3 => LET l == what[2]  m == what[3]  k == what[4]  a == FMul(LowPass(S, l), LowPass(S, m)) IN
      \E v \in {TLCEval(Prod(Mono(k), Harm(l, m)))} : \E w \in {Plain3("filter", v)} :
         \* finite differences: polynomials of this degree pass; Chebyshev: low modes do
         /\ IF ~Cheb \/ k <= 1 THEN Close("filter", v, VScale(a, v)) ELSE TRUE
         /\ \A i \in (1..GN2(g)) \cup ((GSize(g) - GN2(g) + 1)..GSize(g)) : Small(FSub(w[i], FMul(a, v[i])), VMaxAbs(v))
(* power: one number per shell and degree *)
Powers ==
   Is3 => \E v \in {TLCEval(Prod(Mono(what[4]), Harm(what[2], what[3])))} : \E w \in {GPower(g, v)} :
      \A i \in 1..g.n : \A l \in 1..g.nl :
         LET x == FPowI(FSub(GR(g, Cheb)[i], C), what[4]) IN
         FNear(w[(i - 1) * g.nl + l], IF l - 1 = what[2] THEN FMul(FInt(IF what[3] = 0 THEN 1 ELSE 2), FSq(x)) ELSE F0, FMul(FDec("1e-11"), FAdd(F1, FSq(FPowI(FInt(3), what[4])))))
=============================================================================
