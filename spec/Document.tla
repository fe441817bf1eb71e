------------------------------ MODULE Document ------------------------------
(***************************************************************************)
(* What a document describes.  A document d is a record of lists:          *)
(*   coords [id, p]       lines [id, cs]        nodes [id, c]              *)
(*   wires  [id, l, c, r, zt]                   (materials of cables)      *)
(*   conns  [id, kind, R, L, C, kinds, Rv, Lv, Cv, zt, model]              *)
(*   cables [name, elems, mat, ndiv, ini, end]                             *)
(*   bundles [name, o, tree]  tree: sequence of [el, kids]                 *)
(*   terms  list of lists of groups of coordinate ids                      *)
(*   juncs  list of lists of pairs of coordinate ids                       *)
(*   ends [c, mat]   lumped [cable, mat, c, cond]                          *)
(*   tsrc [node, w]  dsrc [cable, cond, e1, e2, w]                         *)
(*   probes [name, type, el, cable]     (cable "" if not given)            *)
(* Ids name things and nothing else: Elaborate only compares them.         *)
(***************************************************************************)
EXTENDS Api

Pick(s, P(_)) == s[CHOOSE j \in 1..Len(s) : P(s[j]) /\ \A m \in 1..(j-1) : ~P(s[m])]
Some(s, P(_)) == \E j \in 1..Len(s) : P(s[j])
In(x, s) == \E j \in 1..Len(s) : s[j] = x
At(x, s) == CHOOSE j \in 1..Len(s) : s[j] = x /\ \A m \in 1..(j-1) : s[m] # x
RECURSIVE Distinct(_)
Distinct(s) == IF s = <<>> THEN <<>> ELSE <<s[1]>> \o Distinct(SelectSeq(Tail(s), LAMBDA x : x # s[1]))

-----------------------------------------------------------------------------
(* Looking things up *)
Coord(d, c) == Pick(d.coords, LAMBDA x : x.id = c).p
Wire(d, m) == Pick(d.wires, LAMBDA x : x.id = m)
Conn(d, m) == Pick(d.conns, LAMBDA x : x.id = m)
LineEl(d, el) == Pick(d.lines, LAMBDA x : x.id = el)
CableOf(d, el) == Pick(d.cables, LAMBDA x : In(el, x.elems))
CableNamed(d, name) == Pick(d.cables, LAMBDA x : x.name = name)
NodePos(d, el) == Coord(d, Pick(d.nodes, LAMBDA x : x.id = el).c)
(* a coordinate id at an end of a line element names one end of one conductor *)
Edge(ln, c) == ln.cs[1] = c \/ ln.cs[Len(ln.cs)] = c
EndOf(d, c) ==
  LET ln == Pick(d.lines, LAMBDA x : Edge(x, c))
      cable == CableOf(d, ln.id)
      first == ln.cs[1] = c
  IN [cable |-> cable.name, el |-> ln.id, cond |-> At(ln.id, cable.elems) - 1,
      side |-> IF first THEN "S" ELSE "L", where |-> IF first THEN "initial" ELSE "end",
      conn |-> Conn(d, IF first THEN cable.ini ELSE cable.end)]
SourceAt(d, c) ==
  LET here(s) == Some(d.nodes, LAMBDA x : x.id = s.node /\ x.c = c)
  IN IF Some(d.tsrc, here) THEN Pick(d.tsrc, here).w ELSE Zero

-----------------------------------------------------------------------------
(* Bundles: a level of the tree is a level of the bundle; its lines are the cables of the level *)
RECURSIVE Visit(_, _, _)
Visit(trees, lev, par) ==
  IF trees = <<>> THEN <<>>
  ELSE <<[el |-> trees[1].el, lev |-> lev, par |-> par]>>
       \o Visit(trees[1].kids, lev + 1, trees[1].el) \o Visit(Tail(trees), lev, par)
Vertices(b) == Visit(b.tree, 0, -1)
Depth(vs) == CHOOSE m \in {vs[j].lev : j \in 1..Len(vs)} : \A j \in 1..Len(vs) : vs[j].lev <= m
CablesAt(d, vs, lev) ==
  LET here == SelectSeq(vs, LAMBDA v : v.lev = lev)
  IN Distinct([j \in 1..Len(here) |-> CableOf(d, here[j].el).name])

RECURSIVE Fold(_, _, _)
Fold(f(_, _), x, s) == IF s = <<>> THEN x ELSE Fold(f, f(x, s[1]), Tail(s))

DocLine(d, name) ==
  LET cable == CableNamed(d, name)
      w == Wire(d, cable.mat)
      ln == LineEl(d, cable.elems[1])
      a == [l |-> w.l, c |-> w.c, r |-> w.r, g |-> [s |-> 0], zs |-> [s |-> 0], zl |-> [s |-> 0],
            pts |-> [j \in 1..Len(ln.cs) |-> Coord(d, ln.cs[j])], ndiv |-> cable.ndiv]
      ending(tl, e) == LET q == EndOf(d, e.c) p == Coord(d, e.c)
                       IN IF q.cable = name THEN SetRes(tl, p, p, q.cond, Conn(d, e.mat).R) ELSE tl
      lumping(tl, x) == LET m == Conn(d, x.mat).model[1]
                        IN IF x.cable = name THEN Lumped(tl, Coord(d, x.c), x.cond, m.d, m.e, m.p, m.q) ELSE tl
  IN Fold(lumping, Fold(ending, Line(a), d.ends), d.lumped)

(* conductor of an element among those of its level *)
InLevel(d, vs, lev, el) ==
  LET cs == CablesAt(d, vs, lev)
      cable == CableOf(d, el)
      y == At(cable.name, cs)
  IN SumInt([j \in 1..(y-1) |-> Len(CableNamed(d, cs[j]).elems)]) + At(el, cable.elems) - 1
ZtArg(d, vs, v, zt) ==
  zt @@ [ol |-> v.lev - 1, oc |-> <<InLevel(d, vs, v.lev - 1, v.par)>>, il |-> v.lev, ic |-> <<InLevel(d, vs, v.lev, v.el)>>]

DocBundle(d, bd) ==
  LET vs == Vertices(bd)
      level(x) == LET cs == CablesAt(d, vs, x) IN [y \in 1..Len(cs) |-> [name |-> cs[y], o |-> DocLine(d, cs[y])]]
      b0 == [name |-> bd.name] @@ Bundle([x \in 1..(Depth(vs)+1) |-> level(x-1)])
      kids == SelectSeq(vs, LAMBDA v : v.lev > 0)
      shield(b, v) == LET zt == Wire(d, CableOf(d, v.par).mat).zt
                      IN IF zt = <<>> THEN b ELSE AddZt(b, ZtArg(d, vs, v, zt[1]))
      ending(b, e) ==
        LET q == EndOf(d, e.c)  zt == Conn(d, e.mat).zt
            conn(b2, v) == IF v.par = q.el THEN SetZtConn(b2, [side |-> q.where] @@ ZtArg(d, vs, v, zt[1])) ELSE b2
        IN Fold(conn, b, kids)
      holds(name) == Some(vs, LAMBDA v : CableOf(d, v.el).name = name)
      row(name) == LET lev == Pick(vs, LAMBDA v : CableOf(d, v.el).name = name).lev
                   IN RowOf(b0, lev, name, 0) - 1
      driven(b, s) == IF holds(s.cable) THEN Dist(b, NodePos(d, s.e1), NodePos(d, s.e2), row(s.cable) + s.cond, s.w) ELSE b
      owner(p) == IF p.cable # "" THEN p.cable
                  ELSE LET c == Pick(d.nodes, LAMBDA x : x.id = p.el).c
                       IN CableOf(d, Pick(d.lines, LAMBDA x : In(c, x.cs)).id).name
      probed(b, p) == IF holds(owner(p)) THEN Probe(b, p.name, NodePos(d, p.el), p.type) ELSE b
  IN Fold(probed, Fold(driven, Fold(ending, Fold(shield, b0, kids), d.ends), d.dsrc), d.probes)

-----------------------------------------------------------------------------
(* Networks *)
BundleOf(d, cable) == Pick(d.bundles, LAMBDA b : Some(Vertices(b), LAMBDA v : CableOf(d, v.el).name = cable))
LevelOf(d, cable) == Pick(Vertices(BundleOf(d, cable)), LAMBDA v : CableOf(d, v.el).name = cable).lev
Node(d, c) == LET q == EndOf(d, c) IN [id |-> c, line |-> q.cable, bundle |-> BundleOf(d, q.cable).o, side |-> q.side, cond |-> q.cond]
Br(k, a, b, R0, L0, C0, w) == [k |-> k, a |-> a, b |-> b, R |-> R0, L |-> L0, C |-> C0, w |-> w]
KindOf(k) == CASE k = "Conn_short" -> "short" [] k \in {"Conn_R", "Conn_sRLC"} -> "R"
               [] k = "Conn_C" -> "C" [] k = "Conn_LCpRs" -> "LCpRs" [] OTHER -> ""
Val(s, j) == IF s = <<>> THEN 0 ELSE s[j]
ToGround(d, c) ==
  LET q == EndOf(d, c)  m == q.cond + 1  n == q.conn
      multi == n.kind = "MultiwireConnector"
      k == KindOf(IF multi THEN n.kinds[m] ELSE n.kind)
  IN Br(k, c, 0, IF multi THEN Val(n.Rv, m) ELSE n.R, IF multi THEN Val(n.Lv, m) ELSE n.L,
        IF multi THEN Val(n.Cv, m) ELSE n.C, SourceAt(d, c))
Series(d, c) ==
  LET q == EndOf(d, c)  n == q.conn  m == q.cond + 1
  IN IF n.kind \in {"Conn_R", "Conn_sRLC"} THEN n.R
     ELSE IF n.kind = "MultiwireConnector" /\ n.kinds[m] \in {"Conn_R", "Conn_sRLC"} THEN n.Rv[m] ELSE 0
Across(d, pr) ==
  LET R0 == Series(d, pr[1]) (+) Series(d, pr[2])
  IN Br(IF REq(R0, 0) THEN "shortn" ELSE "Rn", pr[1], pr[2], R0, 0, 0,
        [k |-> "sum", ws |-> <<SourceAt(d, pr[1]), SourceAt(d, pr[2])>>])
Ids(gs) == Distinct(Flatten(gs))
PartOf(d, gs, br) ==
  LET ids == Ids(gs)
  IN [level |-> LevelOf(d, EndOf(d, ids[1]).cable), nodes |-> [j \in 1..Len(ids) |-> Node(d, ids[j])], br |-> br]
TermPart(d, gs) == LET ids == Ids(gs) IN PartOf(d, gs, [j \in 1..Len(ids) |-> ToGround(d, ids[j])])
JuncPart(d, gs) == PartOf(d, gs, [j \in 1..Len(gs) |-> Across(d, gs[j])])

(* the bundles (in the order of the document) and the networks between them *)
DocBundles(d) == TLCEval([j \in 1..Len(d.bundles) |-> DocBundle(d, d.bundles[j])])
DocParts(d) == TLCEval([j \in 1..Len(d.juncs) |-> JuncPart(d, d.juncs[j])] \o [j \in 1..Len(d.terms) |-> TermPart(d, d.terms[j])])
=============================================================================
