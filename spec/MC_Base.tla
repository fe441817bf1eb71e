------------------------------- MODULE MC_Base -------------------------------
(***************************************************************************)
(* What the vocabulary of the specification has to satisfy for the         *)
(* properties stated with it to mean what they say: waveforms (bounded,    *)
(* periodic, continuous), polylines (nodes, cells, regions, stretches),    *)
(* plane waves, and the convolution of poles.  Part selects one of them.   *)
(***************************************************************************)
EXTENDS Calls, IOUtils
CONSTANTS Part, N

VARIABLE x
Q(p, q) == p (/) q
Tiny(b) == RPow(2, -b)

-----------------------------------------------------------------------------
(* waveforms on a grid of instants *)
Grid == -(2 * N)..(5 * N)
T0(k) == Q(k, N)
WaveKinds ==
  {[k |-> "trapezoidal", A |-> Q(3,2), rise |-> r, fall |-> f, f0 |-> Q(1,2), D |-> Q(1,2)] : r \in {Q(1,2), Q(1,4)}, f \in {Q(1,4), Q(3,4)}}
  \cup {[k |-> "ramp", A |-> a, x0 |-> Q(3,2)] : a \in {2, -1}}
  \cup {[k |-> kk, A |-> a, x0 |-> Q(3,2), s0 |-> Q(1,2)] : kk \in {"gaussian", "gaussian_2", "square", "triangle"}, a \in {Q(1,1), Q(-5,2)}}
  \cup {[k |-> kk, A |-> a, w |-> Q(5,4)] : kk \in {"sin", "sin_sq"}, a \in {Q(1,1), Q(-5,2)}}
  \cup {[k |-> "exp", A |-> 2, x0 |-> Q(3,2)], [k |-> "double_exp", A |-> 2, a |-> Q(1,2), b |-> 2]}
WaveStates == [part : {"waves"}, w : WaveKinds, t : Grid]
Slope(w) == CASE w.k = "trapezoidal" -> RAbs(w.A) (/) RMin(w.rise, w.fall) [] w.k = "ramp" -> RAbs(w.A) (/) w.x0 [] w.k = "gaussian" -> 1 (/) w.s0
              [] w.k = "gaussian_2" -> RAbs(w.A) (/) w.s0 [] w.k = "sin" -> RAbs(w.A) (\X) w.w [] w.k = "sin_sq" -> RAbs(w.A) (\X) w.w
              [] w.k = "exp" -> (RAbs(w.A) (/) w.x0) (\X) RExp(4, WB) [] w.k = "double_exp" -> RAbs(w.A) (\X) (w.a (+) w.b) (\X) RExp(8, WB) [] OTHER -> 0
WaveLaws ==
  x.part = "waves" =>
    LET w == x.w  t == T0(x.t)  y == W(w, t)  h == Q(1, 1000)
        A == IF w.k = "gaussian" THEN 1 ELSE RAbs(w.A)
    IN /\ (w.k # "double_exp" /\ (w.k = "exp" => 0 \preceq t)) => RAbs(y) \preceq A
       /\ w.k = "trapezoidal" => REq(W(w, t (+) (1 (/) w.f0)), y) /\ REq(W(w, t (-) (3 (/) w.f0)), y)
       /\ w.k = "sin" => RAbs(y (+) W(w, t (+) (RPi(WB) (/) w.w))) \preceq Tiny(80)
       \* continuity, except where the formula jumps
       /\ (w.k \notin {"square", "triangle"}) => RAbs(W(w, t (+) h) (-) y) \preceq ((Slope(w) (\X) h) (+) Tiny(80))
       /\ (w.k \in {"ramp", "square", "triangle", "sin_sq"} /\ t \prec 0) => REq(y, 0)
       /\ w.k = "gaussian" => REq(y, W(w, (2 (\X) w.x0) (-) t))

-----------------------------------------------------------------------------
(* polylines with corners on a lattice *)
Lat == {<<a, b, c>> : a, b, c \in {0, 1}}
Polys == {<<p, q>> : p, q \in Lat} \cup {<<p, q, r>> : p, q \in Lat, r \in {<<3, 2, 7>>, <<-2, 5, 3>>, <<-5, -3, 2>>}}
GeoStates == UNION {[part : {"lines"}, pts : {p}, nd : {nd \in [1..(Len(p) - 1) -> 1..N] : TRUE}] : p \in {p \in Polys : \A j, m \in 1..Len(p) : j # m => p[j] # p[m]}}
LineLaws ==
  x.part = "lines" =>
    LET u == Nodes(x.pts, x.nd)  len == CellLengths(u)  n == Len(len)
        tot == RSum(len)
        first(s) == 1 + SumInt(SubSeq(x.nd, 1, s - 1))
        near(a, b) == RAbs(a (-) b) \preceq Tiny(60)
        places == <<0, Q(1,3), 1, Q(7,5)>>
    IN /\ n = SumInt(x.nd)
       /\ \A s \in 1..Len(x.pts) : Norm2(VSub(u[first(s)], x.pts[s])) \preceq Tiny(120)
       /\ \A s \in 1..Len(x.nd) : \A k \in first(s)..(first(s) + x.nd[s] - 1) : near(len[k], SegLengths(x.pts, x.nd)[first(s)])
       /\ near(tot, RSum(SegLengths(x.pts, x.nd)))
       /\ \A k \in 1..(n+1) : Nearest(u, u[k]) = k /\ near(ArcLength(u, len, u[k]), RSum(SubSeq(len, 1, k - 1)))
       /\ near(RSum([k \in 1..(n+1) |-> NodeWidth(len, k)]), tot)
       \* a stretch is divided among its cells, whatever its ends
       /\ \A a, b \in 1..Len(places) : places[a] \preceq tot /\ places[b] \preceq tot /\ a < b =>
            /\ near(RSum([k \in 1..n |-> Overlap(len, k, places[a], places[b])]), places[b] (-) places[a])
            /\ \A k \in 1..n : REq(Overlap(len, k, places[a], tot), Overlap(len, k, places[a], places[b]) (+) Overlap(len, k, places[b], tot))
       \* regions that follow one another share no cell and leave none out
       /\ \A a, b, e \in 1..(n+1) : a < b /\ b < e => /\ RegionCells(n, a, b) \cap RegionCells(n, b, e) = {}
                                                       /\ RegionCells(n, a, b) \cup RegionCells(n, b, e) = RegionCells(n, a, e)
       /\ \A a \in 1..(n+1) : \E k \in RegionCells(n, a, a) : k \in {a, a - 1} /\ k \in 1..n

-----------------------------------------------------------------------------
(* plane waves: unit electric vector, orthogonal to the direction, in every direction *)
PlaneStates == [part : {"planes"}, a : 0..(2*N), b : 0..(2*N), g : 0..(2*N)]
PlaneLaws ==
  x.part = "planes" =>
    LET f == [polar |-> Q(3 * x.a, N), azimuth |-> Q(3 * x.b, N), pol |-> Q(3 * x.g, N)]
        e == EVector(f)  d == Arrival(f)
        near(p, q) == RAbs(p (-) q) \preceq Tiny(80)
    IN near(Norm2(e), 1) /\ near(Norm2(d), 1) /\ near(Dot3(e, d), 0)

-----------------------------------------------------------------------------
(* poles: one step is two half steps of the same linear current; a constant current settles to r/(-p) i *)
Ps == {<<RNeg(Q(j, N)), Q(m, 2)>> : j \in 1..(3*N), m \in {0, 1, 3}}
PoleStates == [part : {"poles"}, p : Ps, r : {<<Q(1,1), Q(0,1)>>, <<Q(-1,2), Q(2,1)>>}, h : {Q(1,10), Q(1,1)}, i0 : {0, 2}, i1 : {-1, 3}]
Step1(p, r, h, m, i0, i1) == CAdd(CAdd(CScale(i1, Q1(p, r, h)), CScale(i0, Q2(p, r, h))), CMul(Q3(p, h), m))
PoleLaws ==
  x.part = "poles" =>
    LET m0 == <<1, Q(-1,3)>>  mid == Half (\X) (x.i0 (+) x.i1)  hh == Half (\X) x.h
        one == Step1(x.p, x.r, x.h, m0, x.i0, x.i1)
        two == Step1(x.p, x.r, hh, Step1(x.p, x.r, hh, m0, x.i0, mid), mid, x.i1)
        near(a, b) == RAbs(a[1] (-) b[1]) \preceq Tiny(80) /\ RAbs(a[2] (-) b[2]) \preceq Tiny(80)
        rest == CScale(-1, CMul(x.r, CInv(x.p)))
    IN /\ near(one, two)
       /\ near(Step1(x.p, x.r, x.h, CScale(2, rest), 2, 2), CScale(2, rest))
       /\ near(Step1(x.p, x.r, x.h, CAdd(m0, m0), 2 (\X) x.i0, 2 (\X) x.i1), CScale(2, one))

Init == x \in (CASE Part = "waves" -> WaveStates [] Part = "lines" -> GeoStates [] Part = "planes" -> PlaneStates [] Part = "poles" -> PoleStates)
Next == UNCHANGED x
=============================================================================
