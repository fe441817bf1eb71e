------------------------------ MODULE Geometry ------------------------------
(* Polylines: discretisation, nearest node, points on the line, regions.    *)
EXTENDS LinAlg

(* Node positions of a polyline with corner points pts and ndiv[s] cells in segment s. *)
Nodes(pts, ndiv) ==
  LET Seg(s) == [k \in 1..ndiv[s] |->
                   VAdd(pts[s], VScale((k - 1) (/) ndiv[s], VSub(pts[s+1], pts[s])))]
  IN TLCEval(Flatten([s \in 1..Len(ndiv) |-> Seg(s)]) \o <<pts[Len(pts)]>>)
CellLengths(u) == TLCEval([k \in 1..(Len(u) - 1) |-> Norm(VSub(u[k+1], u[k]))])
SegLengths(pts, ndiv) ==
  LET Seg(s) == [k \in 1..ndiv[s] |-> Norm(VSub(pts[s+1], pts[s])) (/) ndiv[s]]
  IN TLCEval(Flatten([s \in 1..Len(ndiv) |-> Seg(s)]))
TotalLength(len) == RSum(len)

Dist2(p, q) == Norm2(VSub(p, q))
(* The nearest node (the first one of equals); a tie up to rounding is not decided by the
   specification: NearestSet gives every node as near as the nearest up to rounding. *)
NearestSet(u, p) ==
  LET d == TLCEval([k \in 1..Len(u) |-> Dist2(u[k], p)])
      m == RMinSeq(d)
      tol == (RPow(10, -12) (\X) m) (+) (RPow(10, -24) (\X) Norm2(VSub(u[1], u[Len(u)])))
  IN {k \in 1..Len(u) : d[k] \preceq m (+) tol}
Nearest(u, p) == CHOOSE k \in NearestSet(u, p) : \A j \in NearestSet(u, p) : k <= j

(* Distance from a point to a segment, squared. *)
SegDist2(p, a, b) ==
  LET ab == VSub(b, a)  t == Dot3(VSub(p, a), ab) (/) Norm2(ab)
      tc == RMax(0, RMin(1, t))
  IN Dist2(p, VAdd(a, VScale(tc, ab)))
LineDist2(u, p) == RMinSeq([k \in 1..(Len(u) - 1) |-> SegDist2(p, u[k], u[k+1])])
(* arc length from the start of the line to the (first) point of it nearest to p *)
ArcLength(u, len, p) ==
  LET d == TLCEval([k \in 1..(Len(u) - 1) |-> SegDist2(p, u[k], u[k+1])])
      m == RMinSeq(d)
      tol == RPow(10, -20) (\X) Norm2(len)
      k == CHOOSE k \in 1..Len(d) : d[k] \preceq m (+) tol /\ \A j \in 1..(k-1) : ~(d[j] \preceq m (+) tol)
      ab == VSub(u[k+1], u[k])
      t == Dot3(VSub(p, u[k]), ab) (/) Norm2(ab)
  IN RSum(SubSeq(len, 1, k - 1)) (+) (RMax(0, RMin(1, t)) (\X) len[k])

(* Length of cell k lying between arc lengths s0 <= s1. *)
Overlap(len, k, s0, s1) ==
  LET a == RSum(SubSeq(len, 1, k - 1))  b == a (+) len[k]
  IN RMax(0, RMin(b, s1) (-) RMax(a, s0))

(* Length of line that belongs to a node: half of each cell it touches. *)
NodeWidth(len, k) == (1 (/) 2) (\X) ((IF k = 1 THEN 0 ELSE len[k-1]) (+) (IF k > Len(len) THEN 0 ELSE len[k]))

(* Cells of the region between nodes j1 <= j2: those between the nodes; a single point takes
   the cell that starts at its node (the last cell at the end of the line). *)
RegionCells(ncells, j1, j2) ==
  IF j1 = j2 THEN {IF j1 > ncells THEN ncells ELSE j1} ELSE j1..(j2 - 1)
RegionNodes(j1, j2) == j1..j2
=============================================================================
