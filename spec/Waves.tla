------------------------------- MODULE Waves --------------------------------
(* Waveforms as functions of time: w.k is the kind, the rest its parameters. *)
(* The kinds with a name of the library are its documented formulas.         *)
EXTENDS LinAlg

WB == 120                                   \* significant bits of transcendental values
Zero == [k |-> "zero"]
Frac(x) == x (-) RFloor(x)
Mod(x, p) == p (\X) Frac(x (/) p)            \* in [0, p)

RECURSIVE Horner(_, _)
Horner(c, t) == IF c = <<>> THEN 0 ELSE c[1] (+) (t (\X) Horner(Tail(c), t))
(* piecewise linear through pts = <<<<t1, y1>>, ...>>, constant outside *)
Pwl(pts, t) ==
  IF t \preceq pts[1][1] THEN pts[1][2]
  ELSE IF pts[Len(pts)][1] \preceq t THEN pts[Len(pts)][2]
  ELSE LET j == CHOOSE j \in 1..(Len(pts)-1) : pts[j][1] \prec t /\ t \preceq pts[j+1][1]
       IN pts[j][2] (+) ((pts[j+1][2] (-) pts[j][2]) (\X) ((t (-) pts[j][1]) (/) (pts[j+1][1] (-) pts[j][1])))

Trapezoid(t, A, rise, fall, f0, D) ==
  LET P == 1 (/) f0
      m == Mod(t, P)
      cte == (D (/) f0) (-) ((rise (+) fall) (/) 2)
      t2 == rise (+) cte   t3 == t2 (+) fall
  IN IF m \preceq rise THEN A (\X) (m (/) rise)
     ELSE IF m \preceq t2 THEN A
     ELSE IF m \preceq t3 THEN A (\X) ((t3 (-) m) (/) fall)
     ELSE 0
Ramp(t, A, x0) == IF t \prec 0 THEN 0 ELSE IF t \preceq x0 THEN A (\X) (t (/) x0) ELSE A
Gaussian(t, x0, s0) == RExp(RNeg(RPow((t (-) x0) (/) s0, 2) (/) 2), WB)
Gaussian2(t, A, x0, s0) == A (\X) RExp(RNeg(RPow((t (-) x0) (/) s0, 2)), WB)
SinPulse(t, A, w) == A (\X) RSin(w (\X) t, WB)
SinSq(t, A, w) == IF t \prec 0 \/ RPi(WB) \preceq w (\X) t THEN 0 ELSE A (\X) RPow(RSin(w (\X) t, WB), 2)
ExpRise(t, A, x0) == A (\X) (1 (-) RExp(RNeg(t (/) x0), WB))
Square(t, A, x0) == IF 0 \preceq t /\ t \preceq x0 THEN A ELSE 0
Triangle(t, A, x0) == IF 0 \preceq t /\ t \preceq x0 THEN A (\X) (t (/) x0) ELSE 0
DoubleExp(t, C, a, b) == C (\X) (RExp(RNeg(a (\X) t), WB) (-) RExp(RNeg(b (\X) t), WB))

RECURSIVE W(_, _)
W(w, t) ==
  CASE w.k = "zero" -> 0
    [] w.k = "poly" -> Horner(w.c, t)
    [] w.k = "step" -> IF w.t0 \preceq t THEN w.a ELSE 0
    [] w.k = "pwl" -> Pwl(w.pts, t)
    [] w.k = "scaled" -> w.f (\X) W(w.w, t)
    [] w.k = "sum" -> RSum([j \in 1..Len(w.ws) |-> W(w.ws[j], t)])
    [] w.k = "trapezoidal" -> Trapezoid(t, w.A, w.rise, w.fall, w.f0, w.D)
    [] w.k = "ramp" -> Ramp(t, w.A, w.x0)
    [] w.k = "gaussian" -> Gaussian(t, w.x0, w.s0)
    [] w.k = "gaussian_2" -> Gaussian2(t, w.A, w.x0, w.s0)
    [] w.k = "sin" -> SinPulse(t, w.A, w.w)
    [] w.k = "sin_sq" -> SinSq(t, w.A, w.w)
    [] w.k = "exp" -> ExpRise(t, w.A, w.x0)
    [] w.k = "square" -> Square(t, w.A, w.x0)
    [] w.k = "triangle" -> Triangle(t, w.A, w.x0)
    [] w.k = "double_exp" -> DoubleExp(t, w.A, w.a, w.b)
    [] OTHER -> 0
(* amplitude scale of a waveform, for tolerances *)
RECURSIVE WScale(_)
WScale(w) ==
  CASE w.k = "zero" -> 0
    [] w.k = "scaled" -> RAbs(w.f) (\X) WScale(w.w)
    [] w.k = "sum" -> RSumAbs([j \in 1..Len(w.ws) |-> WScale(w.ws[j])])
    [] w.k = "step" -> RAbs(w.a)
    [] w.k = "gaussian" -> 1
    [] w.k \in {"poly", "pwl"} -> 0
    [] OTHER -> RAbs(w.A)
=============================================================================
