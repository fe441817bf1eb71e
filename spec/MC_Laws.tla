------------------------------- MODULE MC_Laws -------------------------------
(***************************************************************************)
(* The laws that the properties state of whole runs, checked on the exact  *)
(* next state (module Model): a case is a few worlds, built by calls,      *)
(* advanced together step by step, and a law relating their states.  The   *)
(* arithmetic is exact, so the laws hold with equality.                    *)
(***************************************************************************)
EXTENDS Model, Relations, Units, IOUtils, FiniteSets
CONSTANTS Laws, K

VARIABLES case, ws, old, k
vars == <<case, ws, old, k>>

-----------------------------------------------------------------------------
(* Building blocks *)
Fr(op, o, a) == [op |-> op, o |-> o, a |-> a, exc |-> ""]
S(x) == [s |-> x]
M(x) == [m |-> x]
Q(p, q) == p (/) q
L2 == <<<<2, 1>>, <<1, 2>>>>
C2 == <<<<Q(2,3), Q(-1,3)>>, <<Q(-1,3), Q(2,3)>>>>
R2 == <<<<1, Q(1,4)>>, <<Q(1,4), Q(1,2)>>>>
G2 == <<<<Q(1,2), Q(1,8)>>, <<Q(1,8), Q(1,4)>>>>
Lc(n) == IF n = 1 THEN M(<<<<1>>>>) ELSE M(L2)
Cc(n) == IF n = 1 THEN M(<<<<1>>>>) ELSE M(C2)
Rc(n, on) == IF ~on THEN S(0) ELSE IF n = 1 THEN M(<<<<Q(3,4)>>>>) ELSE M(R2)
Gc(n, on) == IF ~on THEN S(0) ELSE IF n = 1 THEN M(<<<<Q(1,3)>>>>) ELSE M(G2)
(* polylines: straight, with unequal cells, with a corner *)
Geo(g) ==
  CASE g = 1 -> [pts |-> <<<<0,0,0>>, <<0,0,2>>>>, ndiv |-> <<2>>]
    [] g = 2 -> [pts |-> <<<<0,0,0>>, <<0,0,1>>, <<0,0,4>>>>, ndiv |-> <<1, 2>>]
    [] g = 3 -> [pts |-> <<<<1,0,0>>, <<1,1,0>>, <<1,1,Q(3,2)>>>>, ndiv |-> <<2, 1>>]
    [] g = 4 -> [pts |-> <<<<0,0,0>>, <<0,0,5>>>>, ndiv |-> <<5>>]
CellsOf(g) == CASE g = 1 -> 2 [] g = 4 -> 5 [] OTHER -> 3
Rev(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
LineFr(o, n, g, r, gg, zs, zl) ==
  Fr("mtl", o, [l |-> Lc(n), c |-> Cc(n), r |-> Rc(n, r), g |-> Gc(n, gg), zs |-> [v |-> zs], zl |-> [v |-> zl],
                pts |-> Geo(g).pts, ndiv |-> Geo(g).ndiv])
Ends(n) == IF n = 1 THEN {<<0>>, <<1>>, <<3>>} ELSE {<<0, 2>>, <<1, 3>>}
(* initial states: fixed patterns without symmetry *)
Vinit(n, N, sd) == [a \in 1..n |-> [j \in 1..(N+1) |-> ((a * 5 + j * 3 + sd) % 7) - 3]]
Iinit(n, N, sd) == [a \in 1..n |-> [j \in 1..N |-> ((a * 3 + j * 5 + 2 * sd) % 5) - 2]]
Start(o, n, N, sd) == Fr("state", o, [v |-> Vinit(n, N, sd), i |-> Iinit(n, N, sd)])
(* a state that is zero at the ends, as the ends of a bundle belong to its networks *)
Inside(o, n, N, sd) ==
  Fr("state", o, [v |-> [a \in 1..n |-> [j \in 1..(N+1) |-> IF j = 1 \/ j = N + 1 THEN 0 ELSE Vinit(n, N, sd)[a][j]]],
                  i |-> [a \in 1..n |-> [j \in 1..N |-> IF j = 1 \/ j = N THEN 0 ELSE Iinit(n, N, sd)[a][j]]]])
Poly(c) == [k |-> "poly", c |-> c]
Gen(j) == CASE j = 0 -> Zero [] j = 1 -> Poly(<<1, Q(1,2)>>) [] j = 2 -> Poly(<<0, -1, Q(1,3)>>) [] j = 3 -> [k |-> "step", a |-> 2, t0 |-> Q(1,10)]
At(o, k0) == Geo(k0).pts
SourceFr(o, p, cond, j) == Fr("source", o, [pos |-> p, cond |-> cond, w |-> Gen(j)])

Node(id, b, line, side, cond) == [id |-> id, line |-> line, bundle |-> b, side |-> side, cond |-> cond]
Br(kd, a, b, w) ==
  [k |-> kd, a |-> a, b |-> b, R |-> Q(1 + (a % 2), 1), L |-> Q(1,2), C |-> Q(3,4), w |-> w]
BundleFr(o, levels) == Fr("bundle", o, [name |-> o, levels |-> [x \in 1..Len(levels) |-> [y \in 1..Len(levels[x]) |-> [name |-> levels[x][y], o |-> levels[x][y]]]]])
NetFr(o, parts) == Fr("net", o, [parts |-> parts])
Part(lev, nodes, br) == [level |-> lev, nodes |-> nodes, br |-> br]
SysFr(o, bs, ns) == Fr("system", o, [bundles |-> bs, nets |-> ns])
World(calls, run) == [calls |-> calls, run |-> run]
(* parts may report no name of their own: a line keeps the name of its object *)

-----------------------------------------------------------------------------
(* energy: passive worlds *)
EnergyLines ==
  {[law |-> "energy", worlds |-> <<World(<<LineFr("A", n, g, r, gg, zs, zl), Start("A", n, CellsOf(g), sd)>> \o extra, "A")>>] :
     n \in {1, 2}, g \in {1, 2, 3}, r \in {FALSE, TRUE}, gg \in {FALSE, TRUE}, zs \in Ends(1) \cup Ends(2), zl \in Ends(1) \cup Ends(2), sd \in {1, 4},
     extra \in {<<>>, <<Fr("lumped", "A", [pos |-> <<0,0,1>>, cond |-> 0, d |-> 2, e |-> 1, p |-> <<>>, q |-> <<>>])>>}}
GoodEnds(c) == Len(c.worlds[1].calls[1].a.zs.v) = Len(c.worlds[1].calls[1].a.l.m) /\ Len(c.worlds[1].calls[1].a.zl.v) = Len(c.worlds[1].calls[1].a.l.m)
               /\ (Len(c.worlds[1].calls) = 3 => c.worlds[1].calls[1].a.ndiv \in {<<2>>, <<1, 2>>})
Kinds == {"R", "C", "LCpRs", "short"}
OneBundle(n, g, r, gg, sd, ks, kl, w) ==
  <<LineFr("w", n, g, r, gg, [j \in 1..n |-> 0], [j \in 1..n |-> 0]),
    BundleFr("B", <<<<"w">>>>),
    Inside("B", n, CellsOf(g), sd),
    NetFr("P", <<Part(0, [j \in 1..n |-> Node(j, "B", "w", "S", j - 1)], [j \in 1..n |-> Br(ks[j], j, 0, w)])>>),
    NetFr("N", <<Part(0, [j \in 1..n |-> Node(j, "B", "w", "L", j - 1)], [j \in 1..n |-> Br(kl[j], j, 0, Zero)])>>),
    SysFr("M", <<"B">>, <<"P", "N">>)>>
EnergyNets ==
  {[law |-> "energy", worlds |-> <<World(OneBundle(2, g, r, r, 2, ks, kl, Zero), "M")>>] :
     g \in {2, 3}, r \in {FALSE, TRUE}, ks \in {<<a, b>> : a, b \in Kinds}, kl \in {<<a, b>> : a, b \in {"R", "LCpRs"}}}

(* sum: three worlds, the third with both excitations *)
SumCases ==
  {[law |-> "sum", worlds |->
     LET with(gj, x) == LET b == OneBundle(n, g, TRUE, TRUE, 0, ks, kl, Gen(gj))
                       IN SubSeq(b, 1, 2) \o <<Fr("state", "B", [v |-> x.v, i |-> x.i])>> \o x.d \o SubSeq(b, 4, Len(b))
         z == [v |-> [a \in 1..n |-> [m \in 1..(CellsOf(g)+1) |-> 0]], i |-> [a \in 1..n |-> [m \in 1..CellsOf(g) |-> 0]], d |-> <<>>]
         y == [v |-> Inside("B", n, CellsOf(g), 3).a.v, i |-> Inside("B", n, CellsOf(g), 3).a.i,
               d |-> <<Fr("dist", "B", [a |-> Geo(g).pts[1], b |-> Geo(g).pts[2], cond |-> 0, w |-> Gen(2)])>>]
     IN <<World(with(j, z), "M"), World(with(0, y), "M"), World(with(j, y), "M")>>] :
     n \in {1, 2}, g \in {2, 3}, j \in {1, 2}, ks \in {<<a, b>> : a, b \in {"R", "C", "LCpRs"}}, kl \in {<<"C", "R">>, <<"LCpRs", "short">>}}

(* same: two worlds whose rows correspond; map gives the row of the second world *)
Perm(x, n) == IF n = 1 THEN x ELSE <<x[2], x[1]>>
PermM(m, n) == IF n = 1 THEN m ELSE <<Perm(m[2], n), Perm(m[1], n)>>
PermArg(x, n) == IF Has(x, "m") THEN M(PermM(x.m, n)) ELSE x
PermCases ==
  {[law |-> "same", map |-> <<[a |-> "A", ra |-> 1, b |-> "A", rb |-> 2], [a |-> "A", ra |-> 2, b |-> "A", rb |-> 1]>>, rev |-> 0,
    worlds |->
      LET f == LineFr("A", 2, g, r, gg, zs, zl)
          f2 == Fr("mtl", "A", [l |-> PermArg(f.a.l, 2), c |-> PermArg(f.a.c, 2), r |-> PermArg(f.a.r, 2), g |-> PermArg(f.a.g, 2),
                                zs |-> [v |-> Perm(zs, 2)], zl |-> [v |-> Perm(zl, 2)], pts |-> f.a.pts, ndiv |-> f.a.ndiv])
          s == Start("A", 2, CellsOf(g), 1)
          more(q) == <<Fr("res", "A", [a |-> Geo(g).pts[1], b |-> Geo(g).pts[2], cond |-> q, val |-> 2]),
                       SourceFr("A", Geo(g).pts[1], q, 1),
                       Fr("lumped", "A", [pos |-> Geo(g).pts[Len(Geo(g).pts)], cond |-> 1 - q, d |-> 1, e |-> 1, p |-> <<>>, q |-> <<>>])>>
      IN <<World(<<f, s>> \o more(0), "A"),
           World(<<f2, Fr("state", "A", [v |-> Perm(s.a.v, 2), i |-> Perm(s.a.i, 2)])>> \o more(1), "A")>>] :
     g \in {1, 2, 3}, r \in {FALSE, TRUE}, gg \in {FALSE, TRUE}, zs \in Ends(2), zl \in Ends(2)}
ReverseCases ==
  {[law |-> "same", map |-> [j \in 1..n |-> [a |-> "A", ra |-> j, b |-> "A", rb |-> j]], rev |-> 1,
    worlds |->
      LET f == LineFr("A", n, g, r, gg, zs, zl)
          f2 == Fr("mtl", "A", [f.a EXCEPT !.zs = [v |-> zl], !.zl = [v |-> zs], !.pts = Rev(f.a.pts), !.ndiv = Rev(f.a.ndiv)])
          s == Start("A", n, CellsOf(g), 1)
          s2 == Fr("state", "A", [v |-> [a \in 1..n |-> Rev(s.a.v[a])], i |-> [a \in 1..n |-> [m \in 1..CellsOf(g) |-> -Rev(s.a.i[a])[m]]]])
          more == <<SourceFr("A", Geo(g).pts[1], 0, 2)>>
      IN <<World(<<f, s>> \o more, "A"), World(<<f2, s2>> \o more, "A")>>] :
     n \in {1, 2}, g \in {2, 3}, r \in {FALSE, TRUE}, gg \in {FALSE, TRUE}, zs \in Ends(1) \cup Ends(2), zl \in Ends(1) \cup Ends(2)}
(* a line terminated by itself and the same line in a bundle with networks *)
DirectCases ==
  {[law |-> "same", map |-> [j \in 1..n |-> [a |-> "A", ra |-> j, b |-> "B", rb |-> j]], rev |-> 0,
    worlds |->
      LET z == [j \in 1..n |-> 1 + (j % 2)]
          f == LineFr("A", n, g, r, gg, z, z)
          ob == OneBundle(n, g, r, gg, 1, [j \in 1..n |-> "R"], [j \in 1..n |-> "R"], Gen(src))
      IN <<World(<<f>> \o <<Fr("state", "A", Inside("B", n, CellsOf(g), 1).a)>> \o [j \in 1..n |-> SourceFr("A", Geo(g).pts[1], j - 1, src)], "A"),
           World(ob, "M")>>] :
     n \in {1, 2}, g \in {1, 2, 3}, r \in {FALSE, TRUE}, gg \in {FALSE, TRUE}, src \in {0, 1, 2}}
(* order of declaration of nodes, branches, networks and bundles; parallel branches *)
TwoBundles(order, jk) ==
  LET a == LineFr("a", 1, 1, TRUE, FALSE, <<0>>, <<0>>)  b == LineFr("b", 2, 2, FALSE, TRUE, <<0, 0>>, <<0, 0>>)
      nds == <<Node(1, "A", "a", "L", 0), Node(2, "B", "b", "S", 0), Node(3, "B", "b", "S", 1)>>
      brs == <<Br(jk, 1, 2, IF jk = "Rn" THEN Gen(1) ELSE Zero), Br("R", 3, 0, Gen(2))>> \o (IF jk = "shortn" THEN <<Br("C", 1, 0, Zero)>> ELSE <<>>)
      s == NetFr("s", <<Part(0, <<Node(1, "A", "a", "S", 0)>>, <<Br("R", 1, 0, Gen(1)), Br("C", 1, 0, Zero)>>)>>)
      l == NetFr("l", <<Part(0, <<Node(1, "B", "b", "L", 0), Node(2, "B", "b", "L", 1)>>, <<Br("LCpRs", 1, 0, Zero), Br("R", 2, 0, Zero)>>)>>)
      s2 == NetFr("s", <<Part(0, <<Node(1, "A", "a", "S", 0)>>, <<Br("C", 1, 0, Zero), Br("R", 1, 0, Gen(1))>>)>>)
      l2 == NetFr("l", <<Part(0, <<Node(7, "B", "b", "L", 1), Node(9, "B", "b", "L", 0)>>,
                        <<[Br("R", 2, 0, Zero) EXCEPT !.a = 7], [Br("LCpRs", 1, 0, Zero) EXCEPT !.a = 9]>>)>>)
      flip(x) == IF x.k = "shortn" THEN [x EXCEPT !.a = x.b, !.b = x.a] ELSE x
      j1 == NetFr("j", <<Part(0, nds, brs)>>)
      j2 == NetFr("j", <<Part(0, Rev(nds), Rev([m \in 1..Len(brs) |-> flip(brs[m])]))>>)
      head == <<a, b, BundleFr("A", <<<<"a">>>>), BundleFr("B", <<<<"b">>>>), Inside("A", 1, 2, 1), Inside("B", 2, 3, 2)>>
  IN IF order = 1 THEN head \o <<s, l, j1, SysFr("M", <<"A", "B">>, <<"s", "l", "j">>)>>
     ELSE head \o <<j2, l2, s2, SysFr("M", <<"B">>, <<"l">>), Fr("addbundle", "M", [b |-> "A"]),
                    Fr("addnet", "M", [net |-> "j"]), Fr("addnet", "M", [net |-> "s"])>>
OrderCases ==
  {[law |-> "same", map |-> <<[a |-> "A", ra |-> 1, b |-> "A", rb |-> 1], [a |-> "B", ra |-> 1, b |-> "B", rb |-> 1], [a |-> "B", ra |-> 2, b |-> "B", rb |-> 2]>>,
    rev |-> 0, worlds |-> <<World(TwoBundles(1, jk), "M"), World(TwoBundles(2, jk), "M")>>] : jk \in {"Rn", "shortn"}}
(* resistances in parallel are one resistance; a lumped resistance is a region of one cell *)
ParallelCases ==
  {[law |-> "same", map |-> <<[a |-> "B", ra |-> 1, b |-> "B", rb |-> 1]>>, rev |-> 0,
    worlds |->
      LET ob(br) == LET b == OneBundle(1, g, TRUE, TRUE, 1, <<"R">>, <<"C">>, Zero)
                    IN [b EXCEPT ![4] = NetFr("P", <<Part(0, <<Node(1, "B", "w", "S", 0)>>, br)>>)]
          r1(x, w) == [Br("R", 1, 0, w) EXCEPT !.R = x]
      IN <<World(ob(<<r1(1, Gen(j)), r1(2, Zero)>>), "M"),
           World(ob(<<r1(Q(2,3), [k |-> "scaled", f |-> Q(2,3), w |-> Gen(j)])>>), "M")>>] : g \in {2, 3}, j \in {1, 2, 3}}
LumpedCases ==
  {[law |-> "same", map |-> [j \in 1..n |-> [a |-> "A", ra |-> j, b |-> "A", rb |-> j]], rev |-> 0,
    worlds |->
      LET f == LineFr("A", n, g, FALSE, TRUE, [j \in 1..n |-> 1], [j \in 1..n |-> 2])
          s == Start("A", n, CellsOf(g), 2)
          p == Geo(g).pts[x]
      IN <<World(<<f, s, Fr("lumped", "A", [pos |-> p, cond |-> n - 1, d |-> 3, e |-> 0, p |-> <<>>, q |-> <<>>])>>, "A"),
           World(<<f, s, Fr("res", "A", [a |-> p, b |-> p, cond |-> n - 1, val |-> 3])>>, "A")>>] :
     n \in {1, 2}, g \in {1, 2, 3}, x \in {1, 2}}
(* a clean copy and a new line *)
CopyCases ==
  {[law |-> "same", map |-> [j \in 1..n |-> [a |-> "A", ra |-> j, b |-> "D", rb |-> j]], rev |-> 0,
    worlds |->
      LET f == LineFr("A", n, g, TRUE, gg, [j \in 1..n |-> 1], [j \in 1..n |-> 2])
          more == <<Fr("lumped", "A", [pos |-> Geo(g).pts[1], cond |-> n - 1, d |-> 3, e |-> 1, p |-> <<<<-1, 0>>>>, q |-> <<<<1, 0>>>>]),
                    SourceFr("A", Geo(g).pts[1], 0, j2)>>
      IN <<World(<<f>> \o more, "A"), World(<<f>> \o more \o <<Start("A", n, CellsOf(g), 2), Fr("copy", "D", [of |-> "A"])>>, "D")>>] :
     n \in {1, 2}, g \in {1, 2, 3}, gg \in {FALSE, TRUE}, j2 \in {1, 2}}
(* bundles that are not connected evolve as if alone *)
AloneCases ==
  {[law |-> "same", map |-> <<[a |-> "B", ra |-> 1, b |-> "B", rb |-> 1], [a |-> "B", ra |-> 2, b |-> "B", rb |-> 2]>>, rev |-> 0,
    worlds |->
      LET alone == OneBundle(2, g, TRUE, FALSE, 1, ks, <<"R", "C">>, Gen(1))
          other == <<LineFr("o", 1, g2, FALSE, TRUE, <<0>>, <<0>>), BundleFr("O", <<<<"o">>>>), Inside("O", 1, CellsOf(g2), 2),
                     NetFr("X", <<Part(0, <<Node(1, "O", "o", "S", 0)>>, <<Br("R", 1, 0, Gen(2))>>)>>),
                     NetFr("Y", <<Part(0, <<Node(1, "O", "o", "L", 0)>>, <<Br("LCpRs", 1, 0, Zero)>>)>>)>>
      IN <<World(alone, "M"), World(other \o SubSeq(alone, 1, 5) \o <<SysFr("M", <<"O", "B">>, <<"X", "P", "N", "Y">>)>>, "M")>>] :
     g \in {2, 3}, g2 \in {1, 4}, ks \in {<<a, b>> : a, b \in Kinds}}

(* every network of up to M branches on three line ends, in two orders of declaration *)
GraphBranches ==
  {[k |-> kd, a |-> a, b |-> 0] : kd \in {"R", "short", "C", "LCpRs"}, a \in 1..3}
  \cup {[k |-> kd, a |-> ab[1], b |-> ab[2]] : kd \in {"Rn", "shortn"}, ab \in {<<1, 2>>, <<1, 3>>, <<2, 3>>}}
GraphRank(b) == (CASE b.k = "R" -> 0 [] b.k = "short" -> 3 [] b.k = "C" -> 6 [] b.k = "LCpRs" -> 9 [] b.k = "Rn" -> 12 [] b.k = "shortn" -> 15)
                + (IF b.b = 0 THEN b.a ELSE b.a + b.b - 2)
GraphSeq(B) == [m \in 1..Cardinality(B) |-> CHOOSE x \in B : Cardinality({y \in B : GraphRank(y) < GraphRank(x)}) = m - 1]
GraphWorld(order, B) ==
  LET a == LineFr("a", 1, 1, TRUE, FALSE, <<0>>, <<0>>)  b == LineFr("b", 2, 2, FALSE, TRUE, <<0, 0>>, <<0, 0>>)
      nds == <<Node(1, "A", "a", "L", 0), Node(2, "B", "b", "S", 0), Node(3, "B", "b", "S", 1)>>
      mk(x) == [Br(x.k, x.a, x.b, CASE x.k = "R" -> Gen(x.a) [] x.k = "Rn" -> Gen(x.b - 1) [] x.k = "C" -> Gen(3 - x.a) [] x.k = "LCpRs" -> Gen(x.a - 1) [] OTHER -> Zero)
                 EXCEPT !.R = Q(GraphRank(x), 4), !.C = Q(2 + x.a, 4), !.L = Q(1, x.a)]
      gs == GraphSeq(B)
      brs == [m \in 1..Len(gs) |-> mk(gs[m])]
      ends == <<NetFr("s", <<Part(0, <<Node(1, "A", "a", "S", 0)>>, <<Br("R", 1, 0, Zero)>>)>>),
                NetFr("l", <<Part(0, <<Node(1, "B", "b", "L", 0), Node(2, "B", "b", "L", 1)>>, <<Br("R", 1, 0, Zero), Br("C", 2, 0, Zero)>>)>>)>>
      flip(x) == IF x.k = "shortn" THEN [x EXCEPT !.a = x.b, !.b = x.a] ELSE x
      nw == IF order = 1 THEN NetFr("j", <<Part(0, nds, brs)>>) ELSE NetFr("j", <<Part(0, Rev(nds), Rev([m \in 1..Len(brs) |-> flip(brs[m])]))>>)
      bs == <<BundleFr("A", <<<<"a">>>>), BundleFr("B", <<<<"b">>>>), Inside("A", 1, 2, 1), Inside("B", 2, 3, 2)>>
  IN <<a, b>> \o bs \o ends \o <<nw>> \o <<IF order = 1 THEN SysFr("M", <<"A", "B">>, <<"s", "l", "j">>) ELSE SysFr("M", <<"B", "A">>, <<"j", "l", "s">>)>>
GraphCases(sizes) ==
  {[law |-> "same", map |-> <<[a |-> "A", ra |-> 1, b |-> "A", rb |-> 1], [a |-> "B", ra |-> 1, b |-> "B", rb |-> 1], [a |-> "B", ra |-> 2, b |-> "B", rb |-> 2]>>,
    rev |-> 0, worlds |-> <<World(GraphWorld(1, B), "M"), World(GraphWorld(2, B), "M")>>] : B \in {B \in {{}} \cup {{x, y, z} : x, y, z \in GraphBranches} : Cardinality(B) \in sizes}}

(* a shield, one or two lines inside (declared in either order), and perhaps a third level: transfer
   impedances of either direction on one conductor or on all, lines with losses and elements of their own *)
LevelWorld(order, n1, n2, third, dir, who, el) ==
  LET line(o, n, g, r, sd) == LineFr(o, n, 2, r, g, [j \in 1..n |-> 0], [j \in 1..n |-> 0])
      inner == IF n2 = 0 THEN <<"p">> ELSE IF order = 1 THEN <<"p", "q">> ELSE <<"q", "p">>
      \* number in its level of conductor c of line o
      num(o, c) == c - 1 + (IF o = inner[1] THEN 0 ELSE IF inner[1] = "p" THEN n1 ELSE n2)
      all == [c \in 1..n1 |-> num("p", c)] \o [c \in 1..n2 |-> num("q", c)]
      ic == CASE who = "all" -> all [] who = "p" -> <<num("p", n1)>> [] who = "q" -> <<num(IF n2 = 0 THEN "p" ELSE "q", 1)>>
      state == [v |-> [j \in 1..4 |-> IF j \in {1, 4} THEN 0 ELSE j], i |-> <<0, 1, 0>>]
      zt(ol, oc, il, x, d) == Fr("zt", "B", [ol |-> ol, oc |-> oc, il |-> il, ic |-> x, dir |-> d, d |-> 1, e |-> Q(1,4), p |-> <<<<-1, 0>>>>, q |-> <<<<1, 0>>>>, f |-> 2])
      nets(side) == LET part(lev, o, n, k0) == [nodes |-> [j \in 1..n |-> Node(k0 + j, "B", o, side, j - 1)],
                                             br |-> [j \in 1..n |-> Br(IF (j + k0) % 3 = 2 THEN "C" ELSE "R", k0 + j, 0, IF k0 = 3 /\ side = "S" THEN Gen(1) ELSE Zero)]]
                        join(a, b) == [nodes |-> a.nodes \o b.nodes, br |-> a.br \o b.br]
                        none == [nodes |-> <<>>, br |-> <<>>]
                        lev(y, x) == [level |-> y, nodes |-> x.nodes, br |-> x.br]
                    IN NetFr("N" \o side, <<lev(0, part(0, "s", 1, 0)), lev(1, IF n2 = 0 THEN part(1, "p", n1, 3) ELSE join(part(1, "p", n1, 3), part(1, "q", n2, 6)))>>
                                         \o (IF third THEN <<lev(2, part(2, "t", 1, 9))>> ELSE <<>>))
  IN <<line("s", 1, FALSE, TRUE, 0), line("p", n1, TRUE, FALSE, 1)>> \o (IF n2 = 0 THEN <<>> ELSE <<line("q", n2, FALSE, TRUE, 2)>>)
     \o (IF third THEN <<line("t", 1, FALSE, FALSE, 3)>> ELSE <<>>)
     \o (IF el THEN <<Fr("lumped", "p", [pos |-> Geo(2).pts[2], cond |-> n1 - 1, d |-> 2, e |-> 1, p |-> <<<<-1, 0>>>>, q |-> <<<<2, 0>>>>])>> ELSE <<>>)
     \o <<BundleFr("B", <<<<"s">>, inner>> \o (IF third THEN <<<<"t">>>> ELSE <<>>))>>
     \o <<Fr("state", "B", [v |-> [j \in 1..(1 + n1 + n2 + (IF third THEN 1 ELSE 0)) |-> state.v], i |-> [j \in 1..(1 + n1 + n2 + (IF third THEN 1 ELSE 0)) |-> state.i]])>>
     \o <<zt(0, <<0>>, 1, ic, dir)>> \o (IF third THEN <<zt(1, <<num("p", 1)>>, 2, <<0>>, "both")>> ELSE <<>>)
     \o <<nets("S"), nets("L"), SysFr("M", <<"B">>, <<"NS", "NL">>)>>
LevelMap(n1, n2, third) ==
  LET at(o, c, order) == 1 + c + (IF o = "p" THEN IF order = 1 THEN 0 ELSE n2 ELSE IF order = 1 THEN n1 ELSE 0)
  IN <<[a |-> "B", ra |-> 1, b |-> "B", rb |-> 1]>> \o [c \in 1..n1 |-> [a |-> "B", ra |-> at("p", c, 1), b |-> "B", rb |-> at("p", c, 2)]]
     \o [c \in 1..n2 |-> [a |-> "B", ra |-> at("q", c, 1), b |-> "B", rb |-> at("q", c, 2)]]
     \o (IF third THEN <<[a |-> "B", ra |-> 2 + n1 + n2, b |-> "B", rb |-> 2 + n1 + n2]>> ELSE <<>>)
LevelCases(thirds, els) ==
  {[law |-> "same", map |-> LevelMap(n1, n2, third), rev |-> 0,
    worlds |-> <<World(LevelWorld(1, n1, n2, third, dir, who, el), "M"), World(LevelWorld(2, n1, n2, third, dir, who, el), "M")>>] :
     n1 \in {1, 2}, n2 \in {0, 1, 2}, third \in thirds, dir \in {"in", "out", "both"}, who \in {"all", "p", "q"}, el \in els}

(* cone: two worlds that differ in one place *)
ConeCases ==
  {[law |-> "cone", start |-> {<<"A", q, j>>}, always |-> {}, worlds |->
      LET f == LineFr("A", n, 4, r, r, [m \in 1..n |-> 1], [m \in 1..n |-> 2])
          s == Start("A", n, 5, 2)
      IN <<World(<<f, s>>, "A"),
           World(<<f, IF q = "v" THEN Fr("state", "A", [s.a EXCEPT !.v[n][j] = @ + 7]) ELSE Fr("state", "A", [s.a EXCEPT !.i[n][j] = @ + 7])>>, "A")>>] :
     n \in {1, 2}, r \in {FALSE, TRUE}, q \in {"v", "i"}, j \in 1..5}
  \cup
  {[law |-> "cone", start |-> {}, always |-> {<<"A", "v", IF e = 0 THEN 1 ELSE 6>>}, worlds |->
      LET f == LineFr("A", n, 4, r, r, [m \in 1..n |-> 1], [m \in 1..n |-> 2])
      IN <<World(<<f>>, "A"), World(<<f, SourceFr("A", <<0, 0, 5 * e>>, n - 1, 1)>>, "A")>>] :
     n \in {1, 2}, r \in {FALSE, TRUE}, e \in {0, 1}}
(* magic: a uniform lossless line of impedance 1 at its default time step *)
MagicCases ==
  {[law |-> "magic", worlds |-> <<World(<<LineFr("A", 1, 4, FALSE, FALSE, <<zs>>, <<zl>>), Start("A", 1, 5, sd)>>, "A")>>] :
     zs \in {0, 1, 3}, zl \in {0, 1, 2}, sd \in 0..6}

(* reciprocity: a generator at one port drives through the other port what it would drive through the first from there *)
PortEnds(n) == IF n = 1 THEN {<<1>>, <<3>>} ELSE {<<1, 2>>, <<3, Q(1,2)>>}
ReciprocalCases ==
  UNION {{[law |-> "reciprocal", a |-> a, b |-> b, worlds |->
     LET f == LineFr("A", n, g, r, gg, zs, zl)
         more == IF el = 0 THEN <<>> ELSE <<Fr("lumped", "A", [pos |-> Geo(g).pts[2], cond |-> n - 1, d |-> 1, e |-> 1, p |-> <<<<-1, 0>>>>, q |-> <<<<2, 0>>>>]),
                                            Fr("res", "A", [a |-> Geo(g).pts[1], b |-> Geo(g).pts[2], cond |-> 0, val |-> 2])>>
     IN <<World(<<f>> \o more \o <<SourceFr("A", Geo(g).pts[1], a - 1, j)>>, "A"),
          World(<<f>> \o more \o <<SourceFr("A", Geo(g).pts[Len(Geo(g).pts)], b - 1, j)>>, "A")>>] :
     g \in {2, 3}, r \in {FALSE, TRUE}, gg \in {FALSE, TRUE}, zs \in PortEnds(n), zl \in PortEnds(n), a \in 1..n, b \in 1..n, el \in {0, 1}, j \in {1}} : n \in {1, 2}}

(* units: a world described in two systems of units *)
Us == <<[x |-> Q(1,20), t |-> RPow(10, -9), z |-> 50, v |-> 3], [x |-> 30, t |-> Q(1,8), z |-> Q(1,4), v |-> 1000], [x |-> 1, t |-> RPow(10, -6), z |-> 1, v |-> 1]>>
Mon(c, x, t) == <<c, x, 0, 0, t>>
PolyField == [k |-> "poly", x |-> <<Mon(Q(1,2), 1, 1), <<Q(-1,3), 0, 1, 0, 0>>>>, y |-> <<Mon(1, 0, 0)>>, z |-> <<Mon(1, 2, 1), Mon(Q(1,4), 0, 0)>>]
MovingField == [k |-> "moving", d |-> <<Q(3,5), 0, Q(4,5)>>, x |-> <<1, Q(1,2)>>, y |-> <<>>, z |-> <<0, Q(1,2), Q(1,4)>>]
FieldFr(o, f, n, N) == Fr("field", o, [f |-> f, loc |-> <<>>, dist |-> [a \in 1..n |-> [j \in 1..(N+1) |-> <<Q(a, 4), Q(1, 3), 0>>]]])
Loaded(o, g, n) == <<Fr("lumped", o, [pos |-> Geo(g).pts[2], cond |-> n - 1, d |-> 1, e |-> Q(1,2), p |-> <<<<-1, 0>>>>, q |-> <<<<2, 0>>>>]),
                     Fr("res", o, [a |-> Geo(g).pts[1], b |-> Geo(g).pts[2], cond |-> 0, val |-> 2]),
                     Fr("cond", o, [a |-> Geo(g).pts[1], b |-> Geo(g).pts[Len(Geo(g).pts)], cond |-> n - 1, val |-> Q(1,3)])>>
UnitWorlds ==
  {World(<<LineFr("A", n, g, r, ~r, zs, [j \in 1..n |-> j]), Start("A", n, CellsOf(g), 2)>> \o more, "A") :
      n \in {1}, g \in {2}, r \in {FALSE, TRUE}, zs \in {<<0>>, <<3>>},
      more \in {Loaded("A", g, n) \o <<SourceFr("A", Geo(g).pts[1], n - 1, 2), SourceFr("A", Geo(g).pts[Len(Geo(g).pts)], 0, 3)>> : g \in {2}, n \in {1}}}
  \cup {World(<<LineFr("A", 2, g, TRUE, TRUE, <<1, 3>>, <<2, 0>>), Start("A", 2, CellsOf(g), 1)>> \o Loaded("A", g, 2)
               \o <<SourceFr("A", Geo(g).pts[1], 1, j)>>, "A") : g \in {2, 3}, j \in {1, 2}}
  \cup {World([OneBundle(2, g, TRUE, TRUE, 1, <<"R", "C">>, <<"LCpRs", "R">>, Gen(1)) EXCEPT ![3] = Fr("dist", "B", [a |-> Geo(g).pts[1], b |-> Geo(g).pts[2], cond |-> 1, w |-> Gen(j)])], "M") : g \in {2, 3}, j \in {1, 2}}
  \cup {World(<<LineFr("A", n, g, TRUE, FALSE, [j \in 1..n |-> 1], [j \in 1..n |-> 2]), FieldFr("A", f, n, CellsOf(g))>>, "A") : n \in {1, 2}, g \in {2, 3}, f \in {PolyField, MovingField}}
  \cup {World(OneBundle(2, g, TRUE, TRUE, 1, ks, kl, Gen(2)), "M") : g \in {2, 3}, ks \in {<<"R", "C">>, <<"LCpRs", "R">>, <<"short", "C">>}, kl \in {<<"R", "LCpRs">>, <<"C", "C">>}}
  \cup {World(LevelWorld(1, 1, n2, FALSE, dir, "all", TRUE), "M") : n2 \in {0, 1}, dir \in {"in", "out", "both"}}
Rows(w) == IF w.run = "A" THEN [j \in 1..Len(w.calls[1].a.l.m) |-> [a |-> "A", ra |-> j, b |-> "A", rb |-> j]]
           ELSE LET n == IF Len(w.calls) = 6 THEN 2 ELSE Len(w.calls[CHOOSE j \in 1..Len(w.calls) : w.calls[j].op = "state"].a.v)
                IN [j \in 1..n |-> [a |-> "B", ra |-> j, b |-> "B", rb |-> j]]
UnitCases ==
  {[law |-> "same", map |-> Rows(w), rev |-> 0, u |-> Us[q], worlds |-> <<w, World([m \in 1..Len(w.calls) |-> Scaled(w.calls[m], Us[q])], w.run)>>] : w \in UnitWorlds, q \in 1..3}
(* later: a world at rest, and the same with everything happening some steps later *)
Pulse(a, t) == [k |-> "pwl", pts |-> <<<<t, 0>>, <<t (+) Half, a>>, <<t (+) 1, Q(1,2)>>>>]
LaterWorlds ==
  {World(<<LineFr("A", 2, g, TRUE, TRUE, zs, <<2, 0>>)>> \o Loaded("A", g, 2)
         \o <<Fr("source", "A", [pos |-> Geo(g).pts[1], cond |-> 0, w |-> Pulse(2, Q(1,7))]), SourceFr("A", Geo(g).pts[Len(Geo(g).pts)], 1, 3)>>, "A") : g \in {2, 3}, zs \in {<<1, 3>>, <<0, 1>>}}
  \cup {World([OneBundle(2, g, TRUE, TRUE, 1, ks, <<"R", "C">>, w) EXCEPT ![3] = Fr("dist", "B", [a |-> Geo(g).pts[1], b |-> Geo(g).pts[2], cond |-> 1, w |-> Pulse(3, Q(1,5))])], "M") :
       g \in {2, 3}, ks \in {<<"R", "C">>, <<"LCpRs", "R">>, <<"C", "LCpRs">>}, w \in {Pulse(1, Q(1,7)), Gen(3)}}
LaterCases ==
  {[law |-> "same", map |-> Rows(w), rev |-> 0, wait |-> m,
    worlds |-> <<w, World([j \in 1..Len(w.calls) |-> Postponed(w.calls[j], m (\X) Started(Calling(Nothing, w.calls), w.run, 0)[w.run].dt)], w.run)>>] : w \in LaterWorlds, m \in {1, 3}}

Cases(law) ==
  CASE law = "energy lines" -> {c \in EnergyLines : GoodEnds(c)}
    [] law = "energy nets" -> EnergyNets
    [] law = "sum" -> SumCases
    [] law = "permute" -> PermCases
    [] law = "reverse" -> {c \in ReverseCases : GoodEnds(c)}
    [] law = "direct" -> DirectCases
    [] law = "order" -> OrderCases \cup ParallelCases
    [] law = "lumped" -> LumpedCases
    [] law = "copy" -> CopyCases
    [] law = "alone" -> AloneCases
    [] law = "cone" -> ConeCases
    [] law = "magic" -> MagicCases
    [] law = "levels" -> LevelCases({FALSE}, {FALSE, TRUE})
    [] law = "levels 3" -> LevelCases({TRUE}, {TRUE})
    [] law = "reciprocal" -> ReciprocalCases
    [] law = "units" -> UnitCases
    [] law = "later" -> LaterCases
    [] law = "graphs" -> GraphCases({0, 1})
    [] law = "graphs 2" -> GraphCases({2})
    [] law = "graphs 3" -> GraphCases({3})
AllCases == UNION {Cases(law) : law \in Laws}

-----------------------------------------------------------------------------
(* steps that a world has already made when the comparison begins *)
Wait(j) == IF j = 2 /\ Has(case, "wait") THEN case.wait ELSE 0
Unit(j) == IF j = 2 /\ Has(case, "u") THEN case.u ELSE SameUnits
Init ==
  /\ case \in AllCases
  /\ ws = TLCEval([j \in 1..Len(case.worlds) |->
       Advance(Started(Calling(Nothing, case.worlds[j].calls), case.worlds[j].run, 0), case.worlds[j].run, Wait(j))])
  /\ old = ws /\ k = 0
(* the worlds as histories of calls for harness/replay.py: everything that was called, then K steps *)
Told(j, w) ==
  LET c == case.worlds[j]  root == w[c.run]  ps == Parts(w, c.run)
  IN [m \in 1..Len(c.calls) |-> [ok |-> TRUE] @@ c.calls[m]]
     \o <<[op |-> "run", o |-> c.run, ok |-> TRUE, a |-> [T |-> ((K + Wait(j)) (+) Half) (\X) root.dt, dt |-> 0],
           see |-> [dt |-> root.dt, time |-> root.time, probes |-> <<>>,
                    parts |-> [m \in 1..Len(ps) |-> [o |-> ps[m], v |-> w[ps[m]].v, i |-> w[ps[m]].i, dt |-> w[ps[m]].dt]]]]>>
Tell(w) == \A j \in 1..Len(w) : REmit(IOEnv.OUT, Told(j, w[j]))
Next ==
  /\ k < K
  /\ ws' = TLCEval([j \in 1..Len(ws) |-> NextWorld(ws[j], case.worlds[j].run)])
  /\ (k + 1 = K /\ "OUT" \in DOMAIN IOEnv => Tell(ws'))
  /\ old' = ws /\ k' = k + 1 /\ UNCHANGED case

Run(j) == case.worlds[j].run
(* every call of a case is acceptable, and its lines have one velocity *)
RECURSIVE AllOk(_, _)
AllOk(os, frs) == frs = <<>> \/ (CallOk(os, frs[1]) /\ AllOk(Call(os, frs[1]), Tail(frs)))
Sound ==
  /\ k = 0 => \A j \in 1..Len(ws) : AllOk(Nothing, case.worlds[j].calls)
  /\ \A j \in 1..Len(ws) : \A x \in {x \in DOMAIN ws[j] : Has(ws[j][x], "kind")} :
       /\ ws[j][x].kind = "line" => Homogeneous(ws[j][x])
       /\ ws[j][x].kind = "system" => Terminated(ws[j], ws[j][x])
Energy ==
  case.law = "energy" =>
    LET e0 == EnergyOf(old[1], Run(1))  e1 == EnergyOf(ws[1], Run(1))
        d == IF k = 0 THEN 0 ELSE LossOf(old[1], ws[1], Run(1))
    IN /\ REq(e1 (+) d, e0) /\ 0 \preceq d /\ 0 \preceq e1 /\ e1 \preceq e0
Sum3 ==
  case.law = "sum" =>
    \A x \in {"B"} :
      /\ \A a \in 1..ws[1][x].n : \A m \in 1..(ws[1][x].N + 1) : REq(ws[1][x].v[a][m] (+) ws[2][x].v[a][m], ws[3][x].v[a][m])
      /\ \A a \in 1..ws[1][x].n : \A m \in 1..ws[1][x].N : REq(ws[1][x].i[a][m] (+) ws[2][x].i[a][m], ws[3][x].i[a][m])
(* equal up to the rounding of the coefficients of poles (module Dispersion) *)
Equal(x, y) == RAbs(x (-) y) \preceq (RPow(2, -120) (\X) (RAbs(x) (+) RAbs(y)))
SameRows ==
  case.law = "same" =>
    /\ Equal(Unit(2).t (\X) ws[1][Run(1)].dt, ws[2][Run(2)].dt) \/ Len(Parts(ws[2], Run(2))) > Len(Parts(ws[1], Run(1)))
    /\ \A q \in 1..Len(case.map) :
        LET m == case.map[q]
            x == ws[1][m.a]  y == ws[2][m.b]
            vy == IF case.rev = 1 THEN Rev(y.v[m.rb]) ELSE y.v[m.rb]
            iy == IF case.rev = 1 THEN [j \in 1..y.N |-> RNeg(Rev(y.i[m.rb])[j])] ELSE y.i[m.rb]
        IN /\ \A j \in 1..(x.N + 1) : Equal(Unit(2).v (\X) x.v[m.ra][j], vy[j])
           /\ \A j \in 1..x.N : Equal((Unit(2).v (/) Unit(2).z) (\X) x.i[m.ra][j], iy[j])
Causal ==
  case.law = "cone" =>
    LET D == Cone(k, case.start, case.always, <<>>, ws[1])
    IN \A x \in {"A"} :
         /\ \A a \in 1..ws[1][x].n : \A j \in 1..(ws[1][x].N + 1) : <<x, "v", j>> \in D \/ ws[1][x].v[a][j] = ws[2][x].v[a][j]
         /\ \A a \in 1..ws[1][x].n : \A j \in 1..ws[1][x].N : <<x, "i", j>> \in D \/ ws[1][x].i[a][j] = ws[2][x].i[a][j]
Reciprocal ==
  case.law = "reciprocal" /\ k > 0 =>
    LET a0 == old[1]["A"]  a1 == ws[1]["A"]  b0 == old[2]["A"]  b1 == ws[2]["A"]  N == a1.N
    IN Equal((a0.v[case.b][N+1] (+) a1.v[case.b][N+1]) (/) a1.zl[case.b], (b0.v[case.a][1] (+) b1.v[case.a][1]) (/) b1.zs[case.a])
Fw(o, j) == o.v[1][j] (+) o.i[1][j-1]
Bw(o, j) == o.v[1][j] (-) o.i[1][j]
Gamma(z) == (z (-) 1) (/) (z (+) 1)
Magic ==
  case.law = "magic" /\ k > 1 =>
    LET a == old[1]["A"]  b == ws[1]["A"]  N == b.N
    IN /\ \A j \in 2..N : REq(Fw(b, j + 1), Fw(a, j))
       /\ \A j \in 1..(N-1) : REq(Bw(b, j), Bw(a, j + 1))
       /\ REq(Bw(b, N), Gamma(b.zl[1]) (\X) Fw(a, N + 1))
       /\ REq(Fw(b, 2), Gamma(b.zs[1]) (\X) Bw(a, 1))
=============================================================================
