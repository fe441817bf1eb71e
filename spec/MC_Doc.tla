------------------------------- MODULE MC_Doc -------------------------------
(***************************************************************************)
(* Documents of a few shapes, with every combination of a list of choices, *)
(* each in several notations (other ids and names, lists in other orders). *)
(* A document is elaborated (module Document) and the system it describes  *)
(* is run with the exact next state; the notations of one document must    *)
(* give one behaviour.  Each document is written out with the behaviour    *)
(* predicted; harness/replay.py writes the file, has the library read and  *)
(* run it, and compares.                                                   *)
(***************************************************************************)
EXTENDS Document, Model, IOUtils
CONSTANTS Shape, Notations

VARIABLES c, made, nt, hist
vars == <<c, made, nt, hist>>

Q(p, q) == p (/) q
L2 == <<<<Q(2,1), Q(1,1)>>, <<Q(1,1), Q(2,1)>>>>
C2 == <<<<Q(2,3), Q(-1,3)>>, <<Q(-1,3), Q(2,3)>>>>
Rv2(s) == <<s[Len(s)]>> \o SubSeq(s, 2, Len(s) - 1) \o <<s[1]>>
Back(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
Empty == [coords |-> <<>>, lines |-> <<>>, nodes |-> <<>>, wires |-> <<>>, conns |-> <<>>, cables |-> <<>>, bundles |-> <<>>,
          terms |-> <<>>, juncs |-> <<>>, ends |-> <<>>, lumped |-> <<>>, tsrc |-> <<>>, dsrc |-> <<>>, probes |-> <<>>]

-----------------------------------------------------------------------------
(* pieces of documents *)
Cid(e, j) == 10 * e + j
Elements(es, pts) ==
  [coords |-> Flatten([m \in 1..Len(es) |-> [j \in 1..Len(pts) |-> [id |-> Cid(es[m], j), p |-> pts[j]]]]),
   lines |-> [m \in 1..Len(es) |-> [id |-> es[m], cs |-> [j \in 1..Len(pts) |-> Cid(es[m], j)]]]]
WireMat(id, n, r, zt) ==
  [id |-> id, l |-> IF n = 1 THEN [s |-> Q(1,1)] ELSE [m |-> L2], c |-> IF n = 1 THEN [s |-> Q(1,1)] ELSE [m |-> C2],
   r |-> IF ~r THEN [s |-> Q(0,1)] ELSE IF n = 1 THEN [s |-> Q(1,4)] ELSE [m |-> <<<<Q(1,4), Q(0,1)>>, <<Q(0,1), Q(1,2)>>>>], zt |-> zt]
ConnMat(id, kind) ==
  [id |-> id, kind |-> kind, R |-> IF kind = "Conn_short" THEN Q(0,1) ELSE Q(3,2), L |-> IF kind = "Conn_sRLC" THEN Q(0,1) ELSE Q(1,2), C |-> IF kind = "Conn_sRLC" THEN RPow(10, 22) (\X) Q(1,1) ELSE Q(3,4),
   kinds |-> <<>>, Rv |-> <<>>, Lv |-> <<>>, Cv |-> <<>>, zt |-> <<>>, model |-> <<>>]
(* one connector for several wires: each with its own values *)
MultiMat(id, kinds) ==
  [ConnMat(id, "MultiwireConnector") EXCEPT !.kinds = kinds,
     !.Rv = [j \in 1..Len(kinds) |-> Q(j + 1, 2)],
     !.Lv = [j \in 1..Len(kinds) |-> IF kinds[j] = "Conn_sRLC" THEN Q(0,1) ELSE Q(1, j + 1)],
     !.Cv = [j \in 1..Len(kinds) |-> IF kinds[j] = "Conn_sRLC" THEN RPow(10, 22) (\X) Q(1,1) ELSE Q(j + 1, 4)]]
ZtRec(dir, f) == [dir |-> dir, d |-> Q(1,4), e |-> Q(1,8), p |-> <<>>, q |-> <<>>, f |-> f]
CableRec(name, elems, mat, ndiv, ini, end) == [name |-> name, elems |-> elems, mat |-> mat, ndiv |-> ndiv, ini |-> ini, end |-> end]
Leaf(e) == [el |-> e, kids |-> <<>>]
Ramp0(A) == [k |-> "ramp", A |-> A, x0 |-> Q(5,4)]
Trap0(A) == [k |-> "trapezoidal", A |-> A, rise |-> Q(1,2), fall |-> Q(3,4), f0 |-> Q(1,3), D |-> Q(13,24)]

-----------------------------------------------------------------------------
(* "join": cable a (one wire) meets cable b (two wires) where a ends or begins *)
JoinDoc(x) ==
  LET pa == <<<<0, 0, 0>>, <<0, 0, 2>>>>
      pb == <<<<0, 0, 2>>, <<0, 3, 2>>, <<0, 3, 3>>>>
      A == Elements(<<1>>, IF x.fa THEN pa ELSE Back(pa))
      B == Elements(<<3, 2>>, IF x.fb THEN pb ELSE Back(pb))
      na == IF x.fa THEN 2 ELSE 1                      \* the point of a (b) at the junction
      nb == IF x.fb THEN 1 ELSE 3
      far(e) == IF e = 1 THEN Cid(1, 3 - na) ELSE Cid(e, 4 - nb)
      near(e) == IF e = 1 THEN Cid(1, na) ELSE Cid(e, nb)
      ma == [near |-> ConnMat(51, x.ja), far |-> ConnMat(52, x.ta)]
      mb == [near |-> IF x.mj THEN MultiMat(53, <<x.jb, "Conn_short">>) ELSE ConnMat(53, x.jb),
             far |-> IF x.mt THEN MultiMat(54, x.tb) ELSE ConnMat(54, x.tb[1])]
      cab == CableRec("a", <<1>>, 41, <<2>>, IF x.fa THEN ma.far.id ELSE ma.near.id, IF x.fa THEN ma.near.id ELSE ma.far.id)
      cbb == CableRec("b", <<3, 2>>, 42, IF x.fb THEN <<2, 1>> ELSE <<1, 2>>, IF x.fb THEN 53 ELSE 54, IF x.fb THEN 54 ELSE 53)
      driven == CASE x.src = "term" -> [n |-> <<[id |-> 91, c |-> far(1)]>>, t |-> <<[node |-> 91, w |-> Ramp0(2)]>>, s |-> <<>>]
                  [] x.src = "multi" -> [n |-> <<[id |-> 91, c |-> far(2)], [id |-> 92, c |-> far(1)]>>,
                                         t |-> <<[node |-> 91, w |-> Trap0(3)], [node |-> 92, w |-> Ramp0(1)]>>, s |-> <<>>]
                  [] x.src = "dist" -> [n |-> <<[id |-> 93, c |-> 5], [id |-> 94, c |-> far(3)]>>, t |-> <<>>,
                                        s |-> <<[cable |-> "b", cond |-> 1, e1 |-> IF x.fb THEN 93 ELSE 94, e2 |-> IF x.fb THEN 94 ELSE 93, w |-> Ramp0(1)]>>]
      place == IF x.src = "dist" THEN <<[id |-> 5, p |-> <<0, Q(5,4), 2>>]>> ELSE <<>>
      pairs == IF x.pr = 1 THEN <<<<near(1), near(2)>>, <<near(1), near(3)>>>> ELSE <<<<near(3), near(1)>>, <<near(2), near(3)>>>>
  IN [Empty EXCEPT
        !.coords = A.coords \o B.coords \o place, !.lines = A.lines \o B.lines,
        !.nodes = driven.n \o <<[id |-> 95, c |-> near(2)], [id |-> 96, c |-> far(1)]>>,
        !.wires = <<WireMat(41, 1, x.r, <<>>), WireMat(42, 2, x.r, <<>>)>>,
        !.conns = <<ma.near, mb.far, ma.far, mb.near>>,
        !.cables = <<cab, cbb>>,
        !.bundles = <<[name |-> "two", o |-> "b", tree |-> <<Leaf(3), Leaf(2)>>], [name |-> "one", o |-> "a", tree |-> <<Leaf(1)>>]>>,
        !.terms = IF x.mt THEN <<<<<<far(1)>>>>, <<<<far(2), far(3)>>>>>> ELSE <<<<<<far(1)>>, <<far(2)>>, <<far(3)>>>>>>,
        !.juncs = <<pairs>>, !.tsrc = driven.t, !.dsrc = driven.s,
        !.probes = <<[name |-> "p", type |-> "voltage", el |-> 95, cable |-> ""], [name |-> "q", type |-> "current", el |-> 96, cable |-> "a"]>>]
JoinChoices ==
  <<<<"fa", <<TRUE, FALSE>>>>, <<"fb", <<TRUE, FALSE>>>>, <<"ja", <<"Conn_short", "Conn_R">>>>, <<"jb", <<"Conn_short", "Conn_R", "Conn_sRLC">>>>,
    <<"mj", <<TRUE, FALSE>>>>, <<"ta", <<"Conn_R", "Conn_C", "Conn_LCpRs", "Conn_sRLC">>>>,
    <<"tb", <<<<"Conn_R", "Conn_C">>, <<"Conn_LCpRs", "Conn_short">>, <<"Conn_C", "Conn_LCpRs">>>>>>, <<"mt", <<TRUE, FALSE>>>>,
    <<"pr", <<1, 2>>>>, <<"r", <<TRUE, FALSE>>>>, <<"src", <<"term", "multi", "dist">>>>>>
(* a generator needs a resistance or reactance beside it; the second wire of b is driven in "multi" *)
JoinOk(x) == x.src = "multi" => (x.mt \/ x.tb[1] # "Conn_short") /\ x.tb[2] # "Conn_short"

-----------------------------------------------------------------------------
(* "nest": a shield (element 1), a pair (elements 2, 3) and a wire (element 4) inside it *)
NestDoc(x) ==
  LET pts == IF x.bent THEN <<<<1, 0, 0>>, <<1, 2, 0>>, <<1, 2, 1>>>> ELSE <<<<0, 0, 1>>, <<0, 0, 4>>, <<0, 0, 5>>>>
      nd == IF x.bent THEN <<2, 1>> ELSE <<1, 2>>
      Es == Elements(<<1, 2, 3, 4>>, pts)
      conns == <<ConnMat(61, x.k1), ConnMat(62, "Conn_R"), IF x.multi THEN MultiMat(63, x.k2) ELSE ConnMat(63, x.k2[1]), MultiMat(64, <<"Conn_R", "Conn_LCpRs">>),
                 ConnMat(65, "Conn_C"), ConnMat(66, "Conn_short")>>
      endmat == [ConnMat(70, "Conn_sRLC") EXCEPT !.zt = IF x.cend = "none" THEN <<>> ELSE <<ZtRec("both", Q(1,1))>>, !.R = Q(1,3)]
      lmat == [ConnMat(71, "Dispersive") EXCEPT !.model = <<[d |-> Q(1,2), e |-> Q(1,4), p |-> <<>>, q |-> <<>>]>>]
  IN [Empty EXCEPT
        !.coords = Es.coords \o <<[id |-> 7, p |-> VScale(Half, VAdd(pts[1], pts[2]))], [id |-> 8, p |-> pts[3]]>>,
        !.lines = Es.lines,
        !.nodes = <<[id |-> 91, c |-> Cid(1, 1)], [id |-> 92, c |-> 7], [id |-> 93, c |-> 8], [id |-> 94, c |-> Cid(4, 3)]>>,
        !.wires = <<WireMat(43, 1, TRUE, <<>>), WireMat(41, 1, FALSE, IF x.dir = "none" THEN <<>> ELSE <<ZtRec(x.dir, x.f)>>), WireMat(42, 2, TRUE, <<>>)>>,
        !.conns = conns \o <<endmat, lmat>>,
        !.cables = <<CableRec("pair", <<2, 3>>, 42, nd, 63, 64), CableRec("shield", <<1>>, 41, nd, 61, 62), CableRec("wire", <<4>>, 43, nd, 65, 66)>>,
        !.bundles = <<[name |-> "all", o |-> "b", tree |-> <<[el |-> 1, kids |-> IF x.first = 4 THEN <<Leaf(4), Leaf(3), Leaf(2)>> ELSE <<Leaf(2), Leaf(3), Leaf(4)>>]>>]>>,
        !.terms = <<<<<<Cid(1, 1)>>>>, <<<<Cid(1, 3)>>>>,
                    IF x.multi THEN <<<<Cid(3, 1), Cid(2, 1)>>, <<Cid(4, 1)>>>> ELSE <<<<Cid(4, 1)>>, <<Cid(2, 1)>>, <<Cid(3, 1)>>>>,
                    <<<<Cid(4, 3)>>, <<Cid(2, 3), Cid(3, 3)>>>>>>,
        !.ends = IF x.cend = "none" THEN <<>> ELSE <<[c |-> IF x.cend = "initial" THEN Cid(1, 1) ELSE Cid(1, 3), mat |-> 70]>>
                 \o (IF x.cend = "end" THEN <<[c |-> Cid(3, 1), mat |-> 70]>> ELSE <<>>),
        !.lumped = <<[cable |-> x.lump, mat |-> 71, c |-> IF x.first = 4 THEN Cid(2, 2) ELSE 8, cond |-> IF x.lump = "pair" THEN 1 ELSE 0]>>,
        !.tsrc = <<[node |-> 91, w |-> Ramp0(2)]>>,
        !.dsrc = <<[cable |-> x.lump, cond |-> IF x.lump = "pair" THEN 1 ELSE 0, e1 |-> 92, e2 |-> 93, w |-> Trap0(1)]>>,
        !.probes = <<[name |-> "i", type |-> "current", el |-> 92, cable |-> "pair"], [name |-> "v", type |-> "voltage", el |-> 94, cable |-> ""]>>]
NestChoices ==
  <<<<"bent", <<TRUE, FALSE>>>>, <<"k1", <<"Conn_R", "Conn_C", "Conn_LCpRs">>>>,
    <<"k2", <<<<"Conn_R", "Conn_C">>, <<"Conn_LCpRs", "Conn_R">>, <<"Conn_short", "Conn_LCpRs">>>>>>, <<"multi", <<TRUE, FALSE>>>>,
    <<"dir", <<"in", "out", "both", "none">>>>, <<"f", <<Q(1,1), Q(2,1)>>>>, <<"first", <<2, 4>>>>, <<"lump", <<"pair", "wire", "shield">>>>,
    <<"cend", <<"none", "initial", "end">>>>>>
NestOk(x) == x.dir = "none" => x.cend = "none" /\ REq(x.f, 1)

Doc(x) == IF Shape = "join" THEN JoinDoc(x) ELSE NestDoc(x)
Choices == IF Shape = "join" THEN JoinChoices ELSE NestChoices
Ok(x) == IF Shape = "join" THEN JoinOk(x) ELSE NestOk(x)

-----------------------------------------------------------------------------
(* notations *)
NewCoords(d, f(_)) ==
  [d EXCEPT !.coords = [j \in 1..Len(@) |-> [@[j] EXCEPT !.id = f(@)]],
            !.lines = [j \in 1..Len(@) |-> [@[j] EXCEPT !.cs = [m \in 1..Len(@) |-> f(@[m])]]],
            !.nodes = [j \in 1..Len(@) |-> [@[j] EXCEPT !.c = f(@)]],
            !.ends = [j \in 1..Len(@) |-> [@[j] EXCEPT !.c = f(@)]],
            !.lumped = [j \in 1..Len(@) |-> [@[j] EXCEPT !.c = f(@)]],
            !.terms = [j \in 1..Len(@) |-> [m \in 1..Len(@[j]) |-> [q \in 1..Len(@[j][m]) |-> f(@[j][m][q])]]],
            !.juncs = [j \in 1..Len(@) |-> [m \in 1..Len(@[j]) |-> [q \in 1..Len(@[j][m]) |-> f(@[j][m][q])]]]]
NewTree(t, f(_)) ==
  LET RECURSIVE g(_)
      g(s) == [j \in 1..Len(s) |-> [el |-> f(s[j].el), kids |-> g(s[j].kids)]]
  IN g(t)
NewElems(d, f(_)) ==
  [d EXCEPT !.lines = [j \in 1..Len(@) |-> [@[j] EXCEPT !.id = f(@)]],
            !.nodes = [j \in 1..Len(@) |-> [@[j] EXCEPT !.id = f(@)]],
            !.cables = [j \in 1..Len(@) |-> [@[j] EXCEPT !.elems = [m \in 1..Len(@) |-> f(@[m])]]],
            !.bundles = [j \in 1..Len(@) |-> [@[j] EXCEPT !.tree = NewTree(@, f)]],
            !.tsrc = [j \in 1..Len(@) |-> [@[j] EXCEPT !.node = f(@)]],
            !.dsrc = [j \in 1..Len(@) |-> [@[j] EXCEPT !.e1 = f(@), !.e2 = f(@)]],
            !.probes = [j \in 1..Len(@) |-> [@[j] EXCEPT !.el = f(@)]]]
NewMats(d, f(_)) ==
  [d EXCEPT !.wires = [j \in 1..Len(@) |-> [@[j] EXCEPT !.id = f(@)]],
            !.conns = [j \in 1..Len(@) |-> [@[j] EXCEPT !.id = f(@)]],
            !.cables = [j \in 1..Len(@) |-> [@[j] EXCEPT !.mat = f(@), !.ini = f(@), !.end = f(@)]],
            !.ends = [j \in 1..Len(@) |-> [@[j] EXCEPT !.mat = f(@)]],
            !.lumped = [j \in 1..Len(@) |-> [@[j] EXCEPT !.mat = f(@)]]]
NewName(x) == CASE x = "a" -> "b" [] x = "b" -> "a" [] x = "pair" -> "wire" [] x = "wire" -> "shield" [] x = "shield" -> "pair" [] OTHER -> x
NewNames(d) ==
  [d EXCEPT !.cables = [j \in 1..Len(@) |-> [@[j] EXCEPT !.name = NewName(@)]],
            !.bundles = [j \in 1..Len(@) |-> [@[j] EXCEPT !.name = IF @ = "one" THEN "two" ELSE "one"]],
            !.lumped = [j \in 1..Len(@) |-> [@[j] EXCEPT !.cable = NewName(@)]],
            !.dsrc = [j \in 1..Len(@) |-> [@[j] EXCEPT !.cable = NewName(@)]],
            !.probes = [j \in 1..Len(@) |-> [@[j] EXCEPT !.cable = NewName(@)]]]
Turned(d, ls) == [k \in DOMAIN d |-> IF k \in ls THEN Back(d[k]) ELSE d[k]]
(* a generator between two joined nodes belongs to its coordinate whichever is named first *)
Pairs(d) == [d EXCEPT !.juncs = [j \in 1..Len(@) |-> Back([m \in 1..Len(@[j]) |-> Back(@[j][m])])],
                      !.terms = [j \in 1..Len(@) |-> Back([m \in 1..Len(@[j]) |-> Back(@[j][m])])]]
Rewritten(d, w) ==
  CASE w = "same" -> d
    [] w = "coordinates" -> NewCoords(d, LAMBDA q : 1 + ((q * 7) % 101))       \* (ids below 101; 1 may name a coordinate and a line)
    [] w = "prefixes" -> NewCoords(d, LAMBDA q : IF q < 22 THEN q ELSE 100 + q)
    [] w = "elements" -> NewElems(d, LAMBDA q : 1 + ((q * 5) % 97))
    [] w = "materials" -> NewMats(d, LAMBDA q : 1 + ((q * 11) % 89))
    [] w = "names" -> NewNames(d)
    [] w = "things" -> Turned(d, {"coords", "lines", "nodes", "conns", "wires"})
    [] w = "cables" -> Turned(d, {"cables", "bundles", "probes"})
    [] w = "networks" -> Turned(d, {"terms", "juncs", "ends", "lumped", "tsrc", "dsrc"})
    [] w = "pairs" -> Pairs(d)
    [] w = "all" -> NewNames(NewMats(NewElems(NewCoords(Pairs(Turned(d, DOMAIN d)), LAMBDA q : 1 + ((q * 13) % 103)), LAMBDA q : 2 * q + 1), LAMBDA q : 150 - q))

-----------------------------------------------------------------------------
(* the system of a document, at rest *)
DtOf(d, name) == ModelObs(DocLine(d, name)).dt
DocWorld(d) ==
  LET bs == DocBundles(d)
      names == [j \in 1..Len(bs) |-> d.bundles[j].o]
      dts(j) == LET vs == Vertices(d.bundles[j]) IN RMinSeq([m \in 1..Len(vs) |-> DtOf(d, CableOf(d, vs[m].el).name)])
      os1 == TLCEval([x \in {names[j] : j \in 1..Len(bs)} |-> LET j == CHOOSE j \in 1..Len(bs) : names[j] = x IN [bs[j] EXCEPT !.dt = dts(j)]])
      parts == DocParts(d)
      sys == [AddBundles(os1, System, names) EXCEPT !.nets = TLCEval([j \in 1..Len(parts) |-> Resolve(parts[j], os1)]),
                                                     !.xs = [j \in 1..Len(parts) |-> <<>>], !.ys = [j \in 1..Len(parts) |-> <<>>]]
  IN ("M" :> sys) @@ os1
RunOfDoc(d) == TLCEval(Ran(DocWorld(d), [op |-> "run", o |-> "M", a |-> [T |-> Q(7,2), dt |-> 0]]))
Story(d, r) == <<[op |-> "doc", o |-> "M", a |-> d, ok |-> TRUE],
                 [op |-> "run", o |-> "M", a |-> [T |-> Q(7,2), dt |-> 0], ok |-> TRUE, see |-> r.see]>>

(* choices are made one after another, so that a random walk makes one document *)
Init == c = [x \in {} |-> 0] /\ made = 0 /\ nt = "" /\ hist = <<>>
Next ==
  \/ /\ made < Len(Choices)
     /\ \E j \in 1..Len(Choices[made + 1][2]) : c' = (Choices[made + 1][1] :> Choices[made + 1][2][j]) @@ c
     /\ made' = made + 1 /\ UNCHANGED <<nt, hist>>
  \/ /\ made = Len(Choices) /\ nt = "" /\ Ok(c)
     /\ nt' \in Notations /\ UNCHANGED <<c, made, hist>>
  \/ /\ nt # "" /\ hist = <<>>
     /\ LET d == TLCEval(Rewritten(Doc(c), nt)) IN
        /\ hist' = Story(d, RunOfDoc(d))
        /\ REmit(IOEnv.OUT, hist')
     /\ UNCHANGED <<c, made, nt>>

(* the notation does not matter *)
PartNamed(see, o) == LET j == CHOOSE j \in 1..Len(see.parts) : see.parts[j].o = o IN see.parts[j]
SameAsWritten ==
  hist # <<>> /\ nt # "same" =>
    LET a == TLCEval(RunOfDoc(Doc(c)).see)  b == hist[2].see
        near(x, y) == RAbs(x (-) y) \preceq (RPow(2, -100) (\X) (RAbs(x) (+) RAbs(y)))
    IN /\ REq(a.dt, b.dt) /\ Len(a.parts) = Len(b.parts)
       /\ \A j \in 1..Len(a.parts) :
            LET p == a.parts[j]  q == PartNamed(b, p.o)
            IN /\ Len(p.v) = Len(q.v)
               /\ \A r \in 1..Len(p.v) : \A k \in 1..Len(p.v[r]) : near(p.v[r][k], q.v[r][k])
               /\ \A r \in 1..Len(p.i) : \A k \in 1..Len(p.i[r]) : near(p.i[r][k], q.i[r][k])
Wired == nt # "" /\ hist = <<>> => LET w == DocWorld(Rewritten(Doc(c), nt)) IN Terminated(w, w["M"])
=============================================================================
