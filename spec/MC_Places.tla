------------------------------ MODULE MC_Places ------------------------------
(***************************************************************************)
(* Small things enumerated one by one and asked of the implementation:     *)
(* the nodes of a polyline and the node at which a position acts, the      *)
(* values of waveforms, plane waves from a grid of directions.  Every case *)
(* is a history (see MC_Life), written out for harness/replay.py.          *)
(***************************************************************************)
EXTENDS Model, IOUtils
CONSTANTS Part, N

VARIABLES x, told
Q(p, q) == p (/) q
Fr(op, o, a) == [op |-> op, o |-> o, a |-> a]
Says(fr, see) == [ok |-> TRUE, see |-> see] @@ fr

-----------------------------------------------------------------------------
(* polylines: every position of a grid along them, and some beside them *)
Lat == {<<a, b, c>> : a, b, c \in {0, 1}}
Far == {<<3, 2, 7>>, <<-2, 5, 3>>, <<-5, -3, 2>>, <<4, -6, -1>>}
Polys == {<<p, q>> : p, q \in Lat} \cup {<<p, q, r>> : p, q \in Lat, r \in Far} \cup {<<<<0,0,0>>, p, r, <<r[1] + q[1], r[2] + q[2], r[3] + q[3]>>>> : p, q \in Lat, r \in Far}
Distinct(p) == \A j, m \in 1..Len(p) : j # m => p[j] # p[m]
LineStates == UNION {[part : {"lines"}, pts : {p}, nd : [1..(Len(p) - 1) -> 1..N]] : p \in {p \in Polys : Distinct(p)}}
MtlFr(pts, nd) == Fr("mtl", "A", [l |-> [s |-> 1], c |-> [s |-> 1], r |-> [s |-> 0], g |-> [s |-> 0], zs |-> [s |-> 1], zl |-> [s |-> 2], pts |-> pts, ndiv |-> nd])
Places(pts) ==
  Flatten([s \in 1..(Len(pts) - 1) |-> [j \in 1..4 |-> VAdd(pts[s], VScale(<<Q(0,1), Q(31,100), Q(67,100), Q(1,1)>>[j], VSub(pts[s+1], pts[s])))]])
  \o <<VAdd(pts[1], VScale(Q(-1,5), VSub(pts[2], pts[1]))), VAdd(pts[Len(pts)], VScale(Q(1,5), VSub(pts[Len(pts)], pts[Len(pts)-1]))),
       VAdd(pts[1], <<Q(1,3), Q(-1,7), Q(2,5)>>)>>
ProbeFr(j, p) == Fr("probe", "A", [name |-> <<"p", "q">>[1 + (j % 2)] \o ToString(j), pos |-> p, type |-> <<"voltage", "current">>[1 + (j % 2)]])
Decided(o, p) == Cardinality(NearestSet(o.u, p)) = 1
(* a history: the line, a state in which all nodes differ, a probe at each place, one step *)
RECURSIVE Tell(_, _, _)
Tell(os, frs, h) ==
  IF frs = <<>> THEN [os |-> os, h |-> h]
  ELSE LET ok == TLCEval(CallOk(os, frs[1]))
       IN Tell(TLCEval(Call(os, frs[1])), Tail(frs), Append(h, [ok |-> ok] @@ frs[1]))
Ran1(t, T) == LET fr == Fr("run", t.o, [T |-> T, dt |-> 0])  r == TLCEval(Ran(t.os, fr)) IN Append(t.h, Says(fr, r.see))
LineHistory(s) ==
  LET a == Tell(Nothing, <<MtlFr(s.pts, s.nd)>>, <<>>)
      o == a.os["A"]
      ps == SelectSeq(Places(s.pts), LAMBDA p : Decided(o, p))
      state == Fr("state", "A", [v |-> <<[j \in 1..(o.N + 1) |-> j * j]>>, i |-> <<[j \in 1..o.N |-> 3 * j - j * j]>>])
      b == Tell(a.os, <<state>> \o [j \in 1..Len(ps) |-> ProbeFr(j, ps[j])], Append(a.h, Says(Fr("look", "A", <<>>), [u |-> o.u, du |-> [k \in 1..o.N |-> VSub(o.u[k+1], o.u[k])], dt |-> o.dt])))
  IN Ran1([os |-> b.os, h |-> b.h, o |-> "A"], Q(5,4) (\X) b.os["A"].dt)

-----------------------------------------------------------------------------
(* waveforms on a dyadic grid of instants *)
WaveKinds ==
  {[k |-> "trapezoidal", A |-> a, rise |-> r, fall |-> f, f0 |-> Q(1,2), D |-> d] :
     a \in {Q(3,2), Q(-2,1)}, r \in {Q(1,2), Q(1,4)}, f \in {Q(1,4), Q(1,2)}, d \in {Q(1,2), Q(1,4)}}
  \cup {[k |-> kk, A |-> a, x0 |-> z] : kk \in {"ramp", "square", "triangle", "exp"}, a \in {Q(2,1), Q(-1,1)}, z \in {Q(3,2), Q(1,4)}}
  \cup {[k |-> kk, A |-> a, x0 |-> Q(3,2), s0 |-> s] : kk \in {"gaussian", "gaussian_2"}, a \in {Q(1,1), Q(-5,2)}, s \in {Q(1,2), Q(2,1)}}
  \cup {[k |-> kk, A |-> a, w |-> z] : kk \in {"sin", "sin_sq"}, a \in {Q(1,1), Q(-5,2)}, z \in {Q(5,4), Q(3,1)}}
  \cup {[k |-> "double_exp", A |-> a, a |-> Q(1,2), b |-> b] : a \in {Q(2,1), Q(-1,1)}, b \in {Q(2,1), Q(5,1)}}
Grid == [j \in 1..(10 * N + 1) |-> Q(j - 1 - 4 * N, N)]
WaveStates == [part : {"waves"}, w : WaveKinds]
WaveHistory(s) == <<Says(Fr("wave", "", [w |-> s.w, ts |-> Grid]), [vals |-> [j \in 1..Len(Grid) |-> W(s.w, Grid[j])]])>>

-----------------------------------------------------------------------------
(* plane waves *)
PlaneStates == [part : {"planes"}, a : 0..N, b : 0..N, g : 0..N, geo : {1, 2}]
PlaneHistory(s) ==
  LET pts == IF s.geo = 1 THEN <<<<0,0,0>>, <<0,0,2>>>> ELSE <<<<1,0,0>>, <<1,2,0>>, <<3,2,0>>>>
      nd == IF s.geo = 1 THEN <<2>> ELSE <<1, 2>>
      f == [k |-> "plane", c |-> <<1, Q(1,2), Q(-1,4)>>, polar |-> Q(22 * s.a, 7 * N), azimuth |-> Q(44 * s.b, 7 * N), pol |-> Q(22 * s.g, 7 * N)]
      n == SumInt(nd)
      t == Tell(Nothing, <<MtlFr(pts, nd), Fr("field", "A", [f |-> f, dist |-> <<[j \in 1..(n + 1) |-> <<Q(1,4), Q(1,8), Q(j,8)>>]>>, loc |-> <<>>])>>, <<>>)
  IN Ran1([os |-> t.os, h |-> t.h, o |-> "A"], Q(9,4) (\X) t.os["A"].dt)

History(s) == CASE s.part = "lines" -> LineHistory(s) [] s.part = "waves" -> WaveHistory(s) [] s.part = "planes" -> PlaneHistory(s)
Init == /\ x \in (CASE Part = "lines" -> LineStates [] Part = "waves" -> WaveStates [] Part = "planes" -> PlaneStates)
        /\ told = FALSE
Next == ~told /\ told' = TRUE /\ UNCHANGED x /\ REmit(IOEnv.OUT, History(x))
(* positions on the line are accepted and others refused: the history says both *)
Sane == x.part = "lines" => Distinct(x.pts)
==============================================================================
