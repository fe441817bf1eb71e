------------------------------- MODULE MC_Life -------------------------------
(***************************************************************************)
(* Histories of calls and runs.  From a few objects, every sequence of     *)
(* Depth calls of a menu is made (acceptable or not), then everything is   *)
(* run once more.  Each history is written out with what the specification *)
(* says of it: which calls are refused, and after each run the exact       *)
(* states, times and probe records; harness/replay.py makes the same calls *)
(* on the implementation and compares.  The invariants are those of any    *)
(* history.                                                                *)
(***************************************************************************)
EXTENDS Model, IOUtils
CONSTANTS Menu, Depth

VARIABLES os, hist, depth, rec, todo
vars == <<os, hist, depth, rec, todo>>

Fr(op, o, a) == [op |-> op, o |-> o, a |-> a]
Q(p, q) == p (/) q
Poly(c) == [k |-> "poly", c |-> c]
L2 == <<<<2, 1>>, <<1, 2>>>>
C2 == <<<<Q(2,3), Q(-1,3)>>, <<Q(-1,3), Q(2,3)>>>>
R2 == <<<<1, Q(1,4)>>, <<Q(1,4), Q(1,2)>>>>
MtlFr(o, n, pts, ndiv, zs, zl) ==
  Fr("mtl", o, [l |-> IF n = 1 THEN [s |-> 1] ELSE [m |-> L2], c |-> IF n = 1 THEN [s |-> 1] ELSE [m |-> C2],
                r |-> IF n = 1 THEN [s |-> Q(1,4)] ELSE [m |-> R2], g |-> IF n = 1 THEN [s |-> 0] ELSE [m |-> <<<<Q(1,2), 0>>, <<0, Q(1,4)>>>>],
                zs |-> zs, zl |-> zl, pts |-> pts, ndiv |-> ndiv])
Straight == [pts |-> <<<<0,0,0>>, <<0,0,1>>, <<0,0,4>>>>, ndiv |-> <<1, 2>>]
Corner == [pts |-> <<<<1,0,0>>, <<1,2,0>>, <<1,2,3>>>>, ndiv |-> <<2, 1>>]
PatV(n, N) == [a \in 1..n |-> [j \in 1..(N+1) |-> IF j = 1 \/ j = N + 1 THEN 0 ELSE ((a * 5 + j * 3) % 7) - 3]]
PatI(n, N) == [a \in 1..n |-> [j \in 1..N |-> IF j = 1 \/ j = N THEN 0 ELSE ((a * 3 + j * 5) % 5) - 2]]
RunFr(o, T, dt) == Fr("run", o, [T |-> T, dt |-> dt])
Probed(o) == {os[o].probes[j].name : j \in 1..Len(os[o].probes)}
Done(op, o) == \E j \in 1..Len(hist) : hist[j].op = op /\ hist[j].o = o /\ hist[j].ok
Added(x) == \E j \in 1..Len(hist) : hist[j].op = "addnet" /\ hist[j].ok /\ hist[j].a.net = x
HasRun == \E j \in 1..Len(hist) : hist[j].op = "run"

WalkFr(o, n) == Fr("walk", o, [n |-> n])
(* a line or system that has run can be stepped by hand, until something is added that a run has to take up *)
TakenUp(fr) == fr.op \in {"run", "walk", "probe", "dist"} \/ (fr.op \in {"source", "field"} /\ fr.o \in {"A", "D"})
CanWalk(o) == \E j \in 1..Len(hist) : /\ hist[j].op = "run" /\ hist[j].o = o
                                      /\ \A m \in (j+1)..Len(hist) : (~hist[m].ok \/ TakenUp(hist[m]) \/ (hist[m].o # o /\ o \in {"A", "D"}))
Walks(o) == IF CanWalk(o) THEN <<WalkFr(o, 1), WalkFr(o, 3)>> ELSE <<>>

-----------------------------------------------------------------------------
(* calls on a line or bundle o, with the points of its geometry *)
First(o) == os[o].u[1]
Last(o) == os[o].u[Len(os[o].u)]
Mid(o) == VScale(Half, VAdd(os[o].u[2], os[o].u[2]))
Off(o) == VAdd(Last(o), VScale(Half, VSub(Last(o), os[o].u[Len(os[o].u)-1])))
Beside(o) == VAdd(Mid(o), <<Q(1,2), 0, 0>>)
Near1(o) == VAdd(VScale(Q(5,8), os[o].u[2]), VScale(Q(3,8), os[o].u[3]))
ProbeFr(o, name, pos, type) == Fr("probe", o, [name |-> name, pos |-> pos, type |-> type])
Lumped0(o, cond) == Fr("lumped", o, [pos |-> Mid(o), cond |-> cond, d |-> 2, e |-> 1, p |-> <<>>, q |-> <<>>])
Poles0(o, cond) == Fr("lumped", o, [pos |-> Last(o), cond |-> cond, d |-> 1, e |-> 0, p |-> <<<<-1, 0>>>>, q |-> <<<<2, 0>>>>])
Field0 == [k |-> "poly", x |-> <<<<1, 0, 1, 0, 1>>>>, y |-> <<<<Q(1,2), 1, 0, 0, 0>>>>, z |-> <<<<-1, 1, 0, 1, 0>>, <<Q(1,3), 0, 0, 0, 1>>>>]
FieldFr(o, off, loc) == Fr("field", o, [f |-> Field0, dist |-> [r \in 1..FieldRows(os[o]) |-> [k \in 1..(os[o].N + 1 + off) |-> <<Q(r,4), Q(1,8), 0>>]], loc |-> loc])
StateFr(o) == Fr("state", o, [v |-> PatV(os[o].n, os[o].N), i |-> PatI(os[o].n, os[o].N)])
Fresh(o, s) == SelectSeq(s, LAMBDA f : f.a.name \notin Probed(o))
If(c, s) == IF c THEN s ELSE <<>>

(* what a menu offers: sequences of calls *)
ProbeCalls(o) == Fresh(o, <<ProbeFr(o, "vl", Last(o), "voltage"), ProbeFr(o, "il", Last(o), "current"), ProbeFr(o, "i1", Near1(o), "current"),
                            ProbeFr(o, "v1", Near1(o), "voltage"), ProbeFr(o, "off", Off(o), "voltage"), ProbeFr(o, "beside", Beside(o), "current")>>)
ElementCalls(o, c) == <<Lumped0(o, c), Poles0(o, c)>>
RegionCalls(o, c) == <<Fr("res", o, [a |-> First(o), b |-> os[o].u[3], cond |-> c, val |-> 2]),
                       Fr("res", o, [a |-> os[o].u[3], b |-> First(o), cond |-> c, val |-> 2]),
                       Fr("cond", o, [a |-> os[o].u[2], b |-> Last(o), cond |-> c, val |-> 1])>>
SourceCalls(o, c) == <<Fr("source", o, [pos |-> First(o), cond |-> c, w |-> Poly(<<1, Q(1,2)>>)]),
                       Fr("source", o, [pos |-> Last(o), cond |-> c, w |-> [k |-> "step", a |-> 2, t0 |-> Q(7,10)]])>>
FieldCalls(o) == <<FieldFr(o, 0, <<>>), FieldFr(o, -1, <<>>), FieldFr(o, 0, <<os[o].u[2], Last(o)>>)>>
DistCalls(o, c) == <<Fr("dist", o, [a |-> First(o), b |-> Near1(o), cond |-> c, w |-> Poly(<<1, -1>>)]),
                     Fr("dist", o, [a |-> Mid(o), b |-> Off(o), cond |-> c, w |-> Poly(<<1, -1>>)])>>
HalfStep(o) == <<Fr("setdt", o, [T |-> 2, n |-> 4])>>
ThirdStep(o) == <<Fr("setdt", o, [T |-> 1, n |-> 3])>>
Long(o) == <<RunFr(o, Q(13,5), 0)>>
Short(o) == <<RunFr(o, Q(3,5), 0)>>      \* (durations are never whole numbers of steps)
OneStep(o) == <<RunFr(o, Q(5,4), 0)>>

Lines == {x \in {"A", "D"} : x \in DOMAIN os}
Each(f(_)) == f("A") \o If("D" \in DOMAIN os, f("D"))
CopyCalls == If("D" \notin DOMAIN os, <<Fr("copy", "D", [of |-> "A"])>>)
SystemOk == Terminated(os, os["M"])
Overlap0(net) ==                       \* a network that would claim a taken end
  \E x \in {"X", "Y", "J"} : x # net /\ ("J" \in {x, net}) /\ Added(x) /\ ~({x, net} = {"J", "Y"})
Zt(ol, il, ic, dir, d, e, p, q, f) == [ol |-> ol, oc |-> <<0>>, il |-> il, ic |-> ic, dir |-> dir, d |-> d, e |-> e, p |-> p, q |-> q, f |-> f]
Did(op, P(_)) == \E j \in 1..Len(hist) : hist[j].op = op /\ hist[j].ok /\ P(hist[j].a)
AddCall(x) == If(~Added(x) /\ ~Overlap0(x), <<Fr("addnet", "M", [net |-> x])>>)

Offered ==
  CASE Menu = "probes" -> Each(LAMBDA o : ProbeCalls(o) \o Long(o) \o Short(o) \o Walks(o) \o HalfStep(o)) \o CopyCalls
    [] Menu = "copies" -> Each(LAMBDA o : ElementCalls(o, 1) \o SourceCalls(o, 0) \o Long(o) \o <<StateFr(o)>> \o RegionCalls(o, 1) \o HalfStep(o)
                                          \o Fresh(o, <<ProbeFr(o, "v1", Near1(o), "voltage")>>)) \o CopyCalls
    [] Menu = "steps" -> Each(LAMBDA o : Long(o) \o OneStep(o) \o Short(o) \o Walks(o) \o HalfStep(o) \o ThirdStep(o)
                                          \o <<Poles0(o, 0), StateFr(o)>> \o SourceCalls(o, 1))
    [] Menu = "requests" -> Each(LAMBDA o : ProbeCalls(o) \o RegionCalls(o, 0) \o ElementCalls(o, 0) \o FieldCalls(o) \o Long(o))
    [] Menu = "excite" -> Each(LAMBDA o : FieldCalls(o) \o SourceCalls(o, 0) \o <<StateFr(o)>> \o Long(o) \o Walks(o) \o RegionCalls(o, 0) \o ElementCalls(o, 1))
    [] Menu = "bundle" ->
         If(~Did("zt", LAMBDA a : a.il # a.ol), <<Fr("zt", "B", Zt(0, 1, <<0, 1>>, "both", 1, Q(1,4), <<<<-1, 0>>>>, <<<<1, 0>>>>, 2))>>)
         \o <<Fr("zt", "B", Zt(1, 1, <<0>>, "in", 1, 0, <<>>, <<>>, 1))>>
         \o If(Did("zt", LAMBDA a : TRUE), Flatten([s \in 1..3 |->
              LET side == CASE s = 1 -> "initial" [] s = 2 -> "end" [] OTHER -> "middle"
              IN If(~Did("ztc", LAMBDA a : a.side = side), <<Fr("ztc", "B", [side |-> side] @@ Zt(0, 1, <<1>>, "in", 3, 0, <<>>, <<>>, 1))>>)]))
         \o DistCalls("B", 1) \o RegionCalls("B", 1)
         \o Fresh("B", <<ProbeFr("B", "il", Last("B"), "current"), ProbeFr("B", "off", Off("B"), "voltage")>>)
         \o FieldCalls("B") \o <<RunFr("M", Q(13,5), 0)>> \o Walks("M") \o If(~HasRun, <<StateFr("B")>>)
    [] Menu = "system" ->
         If(SystemOk, <<RunFr("M", Q(13,5), 0), RunFr("M", Q(6,5), Q(1,2))>> \o Walks("M"))
         \o Fresh("B", <<ProbeFr("B", "vl", Last("B"), "voltage")>>)
         \o If(~HasRun, <<Fr("addbundle", "M", [b |-> "O"]), StateFr("B"), StateFr("O")>>)
         \o <<Fr("addbundle", "M", [b |-> "O2"])>>
         \o AddCall("X") \o AddCall("Y") \o AddCall("J")
         \o <<Fr("dist", "B", [a |-> First("B"), b |-> Last("B"), cond |-> 0, w |-> Poly(<<1, -1>>)]), RegionCalls("O", 0)[1]>>

-----------------------------------------------------------------------------
Nodes0(b, line, side, cs) == [j \in 1..Len(cs) |-> [id |-> j, line |-> line, bundle |-> b, side |-> side, cond |-> cs[j]]]
Br(kd, a, w) == [k |-> kd, a |-> a, b |-> 0, R |-> 2, L |-> Q(1,2), C |-> Q(3,4), w |-> w]
Net(o, parts) == Fr("net", o, [parts |-> parts])
BundleFr(o, name, levels) == Fr("bundle", o, [name |-> name, levels |-> [x \in 1..Len(levels) |-> [y \in 1..Len(levels[x]) |-> [name |-> levels[x][y], o |-> levels[x][y]]]]])
Zs0 == [s |-> 0]
Setup ==
  CASE Menu \in {"probes", "copies", "requests", "excite", "steps"} ->
         <<MtlFr("A", 2, IF Menu = "requests" THEN Corner.pts ELSE Straight.pts, IF Menu = "requests" THEN Corner.ndiv ELSE Straight.ndiv, [v |-> <<1, 0>>], [v |-> <<2, 3>>]),
           Fr("state", "A", [v |-> PatV(2, 3), i |-> PatI(2, 3)])>>
    [] Menu = "bundle" ->
         <<MtlFr("s", 1, Straight.pts, Straight.ndiv, Zs0, Zs0), MtlFr("w", 2, Straight.pts, Straight.ndiv, Zs0, Zs0),
           Fr("lumped", "w", [pos |-> <<0, 0, Q(5,2)>>, cond |-> 1, d |-> 2, e |-> 1, p |-> <<>>, q |-> <<>>]),
           Fr("lumped", "w", [pos |-> <<0, 0, 4>>, cond |-> 0, d |-> 1, e |-> 0, p |-> <<<<-1, 0>>>>, q |-> <<<<2, 0>>>>]),
           BundleFr("B", "B", <<<<"s">>, <<"w">>>>),
           Net("P", <<[level |-> 0, nodes |-> Nodes0("B", "s", "S", <<0>>), br |-> <<Br("R", 1, Poly(<<1>>))>>],
                      [level |-> 1, nodes |-> Nodes0("B", "w", "S", <<0, 1>>), br |-> <<Br("LCpRs", 1, Zero), Br("R", 2, Zero)>>]>>),
           Net("N", <<[level |-> 0, nodes |-> Nodes0("B", "s", "L", <<0>>), br |-> <<Br("R", 1, Zero)>>],
                      [level |-> 1, nodes |-> Nodes0("B", "w", "L", <<1, 0>>), br |-> <<Br("C", 1, Zero), Br("R", 2, Poly(<<0, 1>>))>>]>>),
           Fr("system", "M", [bundles |-> <<"B">>, nets |-> <<"P", "N">>])>>
    [] Menu = "system" ->
         <<MtlFr("w", 2, Straight.pts, Straight.ndiv, Zs0, Zs0), BundleFr("B", "B", <<<<"w">>>>),
           MtlFr("o", 1, Corner.pts, Corner.ndiv, Zs0, Zs0), BundleFr("O", "O", <<<<"o">>>>),
           MtlFr("o2", 1, Corner.pts, Corner.ndiv, Zs0, Zs0), BundleFr("O2", "B", <<<<"o2">>>>),
           Net("P", <<[level |-> 0, nodes |-> Nodes0("B", "w", "S", <<0, 1>>), br |-> <<Br("R", 1, Poly(<<1>>)), Br("C", 2, Zero)>>]>>),
           Net("N", <<[level |-> 0, nodes |-> Nodes0("B", "w", "L", <<0, 1>>), br |-> <<Br("R", 1, Zero), Br("LCpRs", 2, Zero)>>]>>),
           Net("X", <<[level |-> 0, nodes |-> Nodes0("O", "o", "S", <<0>>), br |-> <<Br("R", 1, Poly(<<0, 1>>))>>]>>),
           Net("Y", <<[level |-> 0, nodes |-> Nodes0("O", "o", "L", <<0>>), br |-> <<Br("LCpRs", 1, Zero)>>]>>),
           Net("J", <<[level |-> 0, nodes |-> <<[id |-> 4, line |-> "o", bundle |-> "O", side |-> "S", cond |-> 0]>>, br |-> <<Br("R", 4, Zero), Br("C", 4, Poly(<<0, 0, 1>>))>>]>>),
           Fr("system", "M", [bundles |-> <<"B">>, nets |-> <<"P", "N">>])>>
Roots == IF "M" \in DOMAIN os THEN {"M"} ELSE Lines
RunOk(x) == IF x = "M" THEN SystemOk ELSE TRUE

-----------------------------------------------------------------------------
Do(fr) ==
  IF fr.op \in {"run", "walk"}
  THEN LET r == TLCEval(IF fr.op = "run" THEN Ran(os, fr) ELSE Walked(os, fr)) IN os' = r.w /\ hist' = Append(hist, [see |-> r.see, ok |-> TRUE] @@ fr)
  ELSE LET ok == TLCEval(CallOk(os, fr)) IN os' = TLCEval(Call(os, fr)) /\ hist' = Append(hist, [ok |-> ok] @@ fr)

RECURSIVE Setting(_, _)
Setting(w, frs) == IF frs = <<>> THEN w ELSE Setting(Call(w, frs[1]), Tail(frs))
Init == /\ os = TLCEval(Setting(Nothing, Setup))
        /\ hist = [j \in 1..Len(Setup) |-> [ok |-> TRUE] @@ Setup[j]]
        /\ depth = 0 /\ rec = {} /\ todo = 0
(* calls up to the depth, then some steps by hand where that is possible, a run of everything, and the history is reported *)
ByHand(x) == "steps of " \o x
Next ==
  \/ /\ depth < Depth /\ todo = 0              \* choosing and doing are two steps: a random walk does only what it chose
     /\ todo' \in 1..Len(Offered)
     /\ UNCHANGED <<os, hist, depth, rec>>
  \/ /\ todo > 0
     /\ Do(Offered[todo])
     /\ depth' = depth + 1 /\ todo' = 0 /\ UNCHANGED rec
  \/ /\ depth = Depth /\ \E x \in Roots \ rec : CanWalk(x) /\ ByHand(x) \notin rec /\ Do(WalkFr(x, 2)) /\ rec' = rec \cup {ByHand(x)}
     /\ UNCHANGED <<depth, todo>>
  \/ /\ depth = Depth /\ (\A x \in Roots \ rec : ~CanWalk(x) \/ ByHand(x) \in rec)
     /\ \E x \in Roots \ rec : RunOk(x) /\ (\A y \in Roots \ rec : y = x \/ x = "A") /\ Do(RunFr(x, Q(13,5), 0)) /\ rec' = rec \cup {x}
     /\ UNCHANGED <<depth, todo>>
  \/ /\ depth = Depth /\ (\A x \in Roots \ rec : ~RunOk(x))
     /\ REmit(IOEnv.OUT, hist)
     /\ depth' = Depth + 1 /\ UNCHANGED <<os, hist, rec, todo>>

-----------------------------------------------------------------------------
(* Invariants of every history *)
Objects == {x \in DOMAIN os : Has(os[x], "kind") /\ os[x].kind \in {"line", "bundle"}}
Shapes == \A x \in Objects :
  /\ Len(os[x].v) = os[x].n /\ Len(os[x].i) = os[x].n /\ Len(os[x].phi) = Len(os[x].disp)
  /\ \A a \in 1..os[x].n : Len(os[x].v[a]) = os[x].N + 1 /\ Len(os[x].i[a]) = os[x].N
  /\ \A j \in 1..Len(os[x].disp) : os[x].disp[j].row \in 1..os[x].n /\ os[x].disp[j].cell \in 1..os[x].N
  /\ \A j \in 1..Len(os[x].probes) : os[x].probes[j].k \in 1..(os[x].N + 1)
(* one element per place, one time step per run, time only grows *)
OnePlace == \A x \in Objects : \A j, m \in 1..Len(os[x].disp) :
  j # m => <<os[x].disp[j].row, os[x].disp[j].col, os[x].disp[j].cell>> # <<os[x].disp[m].row, os[x].disp[m].col, os[x].disp[m].cell>>
OneDt == Len(hist) > 0 /\ hist[Len(hist)].op \in {"run", "walk"} => LET r == hist[Len(hist)] IN \A j \in 1..Len(r.see.parts) : REq(r.see.parts[j].dt, r.see.dt)
Clean == \A j \in 1..Len(hist) : hist[j].op = "copy" /\ j = Len(hist) => \A a \in 1..os["D"].n : \A k \in 1..(os["D"].N+1) : REq(os["D"].v[a][k], 0)
=============================================================================
