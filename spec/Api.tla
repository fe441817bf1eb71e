-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* The objects of the library and what each building call makes of them.   *)
(* An object is a record; `kind` is "line", "bundle" or "system".  Every   *)
(* call has an acceptance condition (…Ok) and an effect.  Conductors,      *)
(* levels and nodes of calls are numbered from 0, as users do; rows, nodes *)
(* and cells of objects are numbered from 1.                               *)
(***************************************************************************)
EXTENDS Dynamics

Has(x, f) == f \in DOMAIN x
IsS(x) == Has(x, "s")      \* a scalar argument
IsM(x) == Has(x, "m")      \* a matrix
IsV(x) == Has(x, "v")      \* a vector, one value per conductor

-----------------------------------------------------------------------------
(* Lines *)
SquareM(m) == Len(m) > 0 /\ IsSquare(m)
LCOk(a) == \/ IsS(a.l) /\ IsS(a.c)
           \/ IsM(a.l) /\ IsM(a.c) /\ SquareM(a.l.m) /\ SquareM(a.c.m) /\ Len(a.l.m) = Len(a.c.m)
NCond(a) == IF IsS(a.l) THEN 1 ELSE Len(a.l.m)
LossOk(x, n) == \/ IsS(x) /\ (REq(x.s, 0) \/ n = 1)
                \/ IsM(x) /\ SquareM(x.m) /\ Len(x.m) = n
EndsOk(a, n) == \/ IsS(a.zs) /\ IsS(a.zl)
                \/ IsV(a.zs) /\ IsV(a.zl) /\ Len(a.zs.v) = n /\ Len(a.zl.v) = n
PtsOk(a) == Len(a.pts) = Len(a.ndiv) + 1 /\ Len(a.ndiv) > 0
LineOk(a) == LCOk(a) /\ PtsOk(a) /\ LossOk(a.r, NCond(a)) /\ LossOk(a.g, NCond(a)) /\ EndsOk(a, NCond(a))
AsMat(x, n) == IF IsM(x) THEN x.m ELSE IF n = 1 THEN <<<<x.s>>>> ELSE ZeroMat(n, n)
AsVec(x, n) == IF IsV(x) THEN x.v ELSE [j \in 1..n |-> x.s]

Line(a) ==
  LET n == NCond(a)
      u == Nodes(a.pts, a.ndiv)
      NN == Len(u) - 1
  IN [kind |-> "line", n |-> n, N |-> NN, u |-> u, len |-> SegLengths(a.pts, a.ndiv),
      l |-> AsMat(a.l, n), c |-> AsMat(a.c, n),
      r |-> [k \in 1..NN |-> AsMat(a.r, n)], g |-> [k \in 1..(NN+1) |-> AsMat(a.g, n)],
      zs |-> AsVec(a.zs, n), zl |-> AsVec(a.zl, n),
      disp |-> <<>>, vs |-> <<>>, el |-> <<>>, fl |-> <<>>, vel |-> 0, dt |-> 0, time |-> 0,
      v |-> ZeroMat(n, NN+1), i |-> ZeroMat(n, NN), phi |-> <<>>, cf |-> <<>>, probes |-> <<>>]

(* a point of space belongs to the line (up to rounding) or clearly does not *)
OnLine(tl, p) == LineDist2(tl.u, p) \preceq (RPow(10, -20) (\X) Norm2(VSub(tl.u[1], tl.u[Len(tl.u)]))) (+) RPow(10, -26)

Source(tl, pos, cond, w) ==
  LET k == Nearest(tl.u, pos)
      other(x) == ~(x.row = cond + 1 /\ x.node = k)
  IN [tl EXCEPT !.vs = Append(SelectSeq(tl.vs, other), [row |-> cond + 1, node |-> k, w |-> w])]

RegionOk(tl, a, b) == Nearest(tl.u, a) <= Nearest(tl.u, b)
SetRes(tl, a, b, cond, val) ==
  LET cells == RegionCells(tl.N, Nearest(tl.u, a), Nearest(tl.u, b))
      tot == SetSum(tl.len, cells)
      q == cond + 1
  IN [tl EXCEPT !.r = TLCEval([k \in 1..tl.N |->
        IF k \in cells THEN [tl.r[k] EXCEPT ![q][q] = val (/) tot] ELSE tl.r[k]])]
SetCond(tl, a, b, cond, val) ==
  LET nodes == RegionNodes(Nearest(tl.u, a), Nearest(tl.u, b))
      tot == SetSum([k \in nodes |-> NodeWidth(tl.len, k)], nodes)
      q == cond + 1
  IN [tl EXCEPT !.g = TLCEval([k \in 1..(tl.N+1) |->
        IF k \in nodes THEN [tl.g[k] EXCEPT ![q][q] = val (/) tot] ELSE tl.g[k]])]

AddDisp(tl, es) ==
  [tl EXCEPT !.disp = tl.disp \o es, !.phi = tl.phi \o [j \in 1..Len(es) |-> NoMemory(es[j])]]
LumpedCell(tl, pos) == LET k == Nearest(tl.u, pos) IN IF k > tl.N THEN tl.N ELSE k
Acts(e) == ~REq(e.d, 0) \/ ~REq(e.e, 0) \/ Len(e.p) > 0
LumpedOk(tl, pos, cond) ==
  /\ OnLine(tl, pos)
  /\ \A j \in 1..Len(tl.disp) :
       ~(tl.disp[j].row = cond + 1 /\ tl.disp[j].cell = LumpedCell(tl, pos) /\ Acts(tl.disp[j]))
Lumped(tl, pos, cond, d, e, p, q) ==
  LET k == LumpedCell(tl, pos)  h == tl.len[k]
  IN AddDisp(tl, <<[row |-> cond + 1, col |-> cond + 1, cell |-> k, d |-> d (/) h, e |-> e (/) h,
                    p |-> p, q |-> TLCEval([j \in 1..Len(q) |-> CScale(1 (/) h, q[j])])]>>)

Probe(tl, name, pos, type) ==
  [tl EXCEPT !.probes = Append(tl.probes, [name |-> name, type |-> type, k |-> Nearest(tl.u, pos), t |-> <<>>, val |-> <<>>])]

FieldRows(tl) == IF tl.kind = "line" THEN tl.n ELSE tl.sizes[1]
AddField(tl, f, dist, loc) ==
  LET pf == Prepared(f)
      a == IF loc = <<>> THEN 1 ELSE Nearest(tl.u, loc[1])
      b == IF loc = <<>> THEN tl.N + 1 ELSE Nearest(tl.u, loc[2])
  IN [tl EXCEPT !.fl = tl.fl \o [q \in 1..FieldRows(tl) |->
        [f |-> pf, row |-> q, cells |-> a..(b-1), nodes |-> a..b, dist |-> dist[q]]]]

Dist(tl, a, b, cond, w) ==
  LET s0 == ArcLength(tl.u, tl.len, a)  s1 == ArcLength(tl.u, tl.len, b)
      ov == TLCEval([k \in 1..tl.N |-> Overlap(tl.len, k, s0, s1)])
      one(k) == IF RPow(10, -9) (\X) tl.len[k] \prec ov[k]
                THEN <<[row |-> cond + 1, cell |-> k, w |-> [k |-> "scaled", f |-> ov[k] (/) tl.len[k], w |-> w]]>>
                ELSE <<>>
  IN [tl EXCEPT !.el = TLCEval(tl.el \o Flatten([k \in 1..tl.N |-> one(k)]))]

CleanCopy(tl) == [tl EXCEPT !.v = ZeroMat(tl.n, tl.N+1), !.i = ZeroMat(tl.n, tl.N), !.time = 0,
                            !.phi = [j \in 1..Len(tl.disp) |-> NoMemory(tl.disp[j])]]

-----------------------------------------------------------------------------
(* Bundles: levels is a sequence of sequences of lines (records with name and object) *)
RECURSIVE BlockDiag(_)
BlockDiag(ms) ==
  IF Len(ms) = 1 THEN ms[1]
  ELSE LET a == ms[1]  b == BlockDiag(Tail(ms))  na == Len(a)  nb == Len(b)
       IN TLCEval([j \in 1..(na+nb) |-> [k \in 1..(na+nb) |->
            IF j <= na /\ k <= na THEN a[j][k] ELSE IF j > na /\ k > na THEN b[j-na][k-na] ELSE 0]])
Before(ns, j) == SumInt(SubSeq(ns, 1, j - 1))

BundleOk(levels) ==
  /\ Len(levels) > 0 /\ Len(levels[1]) = 1
  /\ \A x \in 1..Len(levels) : \A y \in 1..Len(levels[x]) :
       /\ levels[x][y].o.kind = "line"
       /\ levels[x][y].o.u = levels[1][1].o.u
Bundle(levels) ==
  LET ls == Flatten(levels)                     \* lines in the order of the rows
      first == ls[1].o
      ns == [j \in 1..Len(ls) |-> ls[j].o.n]
      sizes == [x \in 1..Len(levels) |-> SumInt([y \in 1..Len(levels[x]) |-> levels[x][y].o.n])]
      names == [x \in 1..Len(levels) |-> [y \in 1..Len(levels[x]) |-> [name |-> levels[x][y].name, n |-> levels[x][y].o.n]]]
      Moved(j) == [m \in 1..Len(ls[j].o.disp) |->
                    [ls[j].o.disp[m] EXCEPT !.row = @ + Before(ns, j), !.col = @ + Before(ns, j)]]
      disp == TLCEval(Flatten([j \in 1..Len(ls) |-> Moved(j)]))
      n == SumInt(ns)
  IN [kind |-> "bundle", n |-> n, N |-> first.N, u |-> first.u, len |-> first.len,
      l |-> BlockDiag([j \in 1..Len(ls) |-> ls[j].o.l]),
      c |-> BlockDiag([j \in 1..Len(ls) |-> ls[j].o.c]),
      r |-> TLCEval([k \in 1..first.N |-> BlockDiag([j \in 1..Len(ls) |-> ls[j].o.r[k]])]),
      g |-> TLCEval([k \in 1..(first.N+1) |-> BlockDiag([j \in 1..Len(ls) |-> ls[j].o.g[k]])]),
      sizes |-> sizes, names |-> names,
      disp |-> disp, vs |-> <<>>, el |-> <<>>, fl |-> <<>>, vel |-> 0, time |-> 0,
      dt |-> RMinSeq([j \in 1..Len(ls) |-> ls[j].o.dt]),
      v |-> ZeroMat(n, first.N+1), i |-> ZeroMat(n, first.N),
      phi |-> [j \in 1..Len(disp) |-> NoMemory(disp[j])], cf |-> <<>>, probes |-> <<>>]

(* transfer impedance between conductors oc of level ol (outside) and ic of level il (inside) *)
ZtOk(a) == (a.ol - a.il) \in {1, -1}
ZtPairs(b, a) ==
  LET out(j) == Before(b.sizes, a.ol + 1) + a.oc[j] + 1
      inn(j) == Before(b.sizes, a.il + 1) + a.ic[j] + 1
      one(j, m) == (IF a.dir \in {"in", "both"} THEN <<<<inn(m), out(j)>>>> ELSE <<>>)
                   \o (IF a.dir \in {"out", "both"} THEN <<<<out(j), inn(m)>>>> ELSE <<>>)
  IN Flatten([j \in 1..Len(a.oc) |-> Flatten([m \in 1..Len(a.ic) |-> one(j, m)])])
ZtEl(a, pr, k) ==
  [row |-> pr[1], col |-> pr[2], cell |-> k, d |-> RNeg(a.d (/) a.f), e |-> RNeg(a.e (/) a.f),
   p |-> a.p, q |-> TLCEval([j \in 1..Len(a.q) |-> CScale(RNeg(1 (/) a.f), a.q[j])])]
AddZt(b, a) ==
  LET prs == ZtPairs(b, a)
  IN AddDisp(b, TLCEval(Flatten([j \in 1..Len(prs) |-> [k \in 1..b.N |-> ZtEl(a, prs[j], k)]])))
(* at a connector the impedance of the cell is replaced *)
SideOk(s) == s \in {"initial", "end"}
SetZtConn(b, a) ==
  LET prs == ZtPairs(b, a)
      k == IF a.side = "initial" THEN 1 ELSE b.N
      hit(e) == e.cell = k /\ \E j \in 1..Len(prs) : prs[j] = <<e.row, e.col>>
      keep == SelectSeq([j \in 1..Len(b.disp) |-> j], LAMBDA j : ~hit(b.disp[j]))
      b2 == [b EXCEPT !.disp = [j \in 1..Len(keep) |-> b.disp[keep[j]]],
                      !.phi = [j \in 1..Len(keep) |-> b.phi[keep[j]]]]
  IN AddDisp(b2, [j \in 1..Len(prs) |-> ZtEl(a, prs[j], k)])

-----------------------------------------------------------------------------
(* Networks.  A declared network is a sequence of parts, one per level, each with nodes
   [id, line, bundle, side, cond] and branches between node ids (0 for ground). *)
PartOk(p) ==
  /\ \A j \in 1..Len(p.nodes) : p.nodes[j].side \in {"S", "L"} /\ p.nodes[j].id >= 0
  /\ \A j \in 1..Len(p.nodes) : \A m \in 1..(j-1) : p.nodes[j].id # p.nodes[m].id
BranchOk(p, b) ==
  /\ \E j \in 1..Len(p.nodes) : p.nodes[j].id = b.a
  /\ b.k \in {"Rn", "shortn"} => \E j \in 1..Len(p.nodes) : p.nodes[j].id = b.b
  /\ b.k = "Rn" => ~REq(b.R, 0)
RowOf(b, level, line, cond) ==
  LET ls == b.names[level + 1]
      y == CHOOSE y \in 1..Len(ls) : ls[y].name = line
  IN Before(b.sizes, level + 1) + Before([j \in 1..Len(ls) |-> ls[j].n], y) + cond + 1
Resolve(p, objs) ==
  LET at(id) == CHOOSE j \in 1..Len(p.nodes) : p.nodes[j].id = id
  IN [nodes |-> TLCEval([j \in 1..Len(p.nodes) |->
        LET nd == p.nodes[j]
        IN [line |-> nd.bundle, row |-> RowOf(objs[nd.bundle], p.level, nd.line, nd.cond), side |-> nd.side]]),
      br |-> TLCEval([j \in 1..Len(p.br) |->
        LET b == p.br[j]
        IN [b EXCEPT !.a = at(b.a), !.b = IF b.k \in {"Rn", "shortn"} THEN at(b.b) ELSE 0]])]
System == [kind |-> "system", bundles |-> <<>>, nets |-> <<>>, xs |-> <<>>, ys |-> <<>>, dt |-> RPow(10, 10), time |-> 0]
(* every end of every conductor of a system's bundles must belong to exactly one network node *)
Terminated(objs, sys) ==
  \A b \in {sys.bundles[j] : j \in 1..Len(sys.bundles)} :
   \A row \in 1..objs[b].n : \A side \in {"S", "L"} :
     SumInt([j \in 1..Len(sys.nets) |->
        Count(sys.nets[j].nodes, LAMBDA nd : nd.line = b /\ nd.row = row /\ nd.side = side)]) = 1

-----------------------------------------------------------------------------
(* Runs *)
Steps(T, dt) == RFloor(T (/) dt)
StateOf(o) == [v |-> o.v, i |-> o.i, phi |-> o.phi]
=============================================================================
