------------------------------- MODULE MC_Args -------------------------------
(***************************************************************************)
(* A caller and its arguments.  The arrays, lists and dictionaries that    *)
(* calls take live in cells of the caller: it may give the same cell to    *)
(* any number of calls and change what is in it at any time in between.    *)
(* What was built keeps the value the cell had when the call was made, and *)
(* no call changes a cell.  Every history of Depth such steps, then runs   *)
(* of everything, is written out for harness/replay.py, which holds real   *)
(* objects in the cells and changes them in place.                         *)
(***************************************************************************)
EXTENDS Model, IOUtils
CONSTANTS Depth

VARIABLES os, hist, depth, rec, todo, cell
vars == <<os, hist, depth, rec, todo, cell>>
Q(p, q) == p (/) q

(* what each cell may hold *)
Holds == [
  rm |-> <<<<<<1, Q(1,4)>>, <<Q(1,4), Q(1,2)>>>>, <<<<2, 0>>, <<0, Q(1,3)>>>>>>,
  lm |-> <<<<<<2, 1>>, <<1, 2>>>>, <<<<8, 4>>, <<4, 8>>>>>>,
  zv |-> <<<<1, 0>>, <<Q(2,3), 3>>>>,
  pt |-> <<<<<<0,0,0>>, <<0,0,1>>, <<0,0,4>>>>, <<<<1,0,0>>, <<1,4,0>>, <<1,4,2>>>>>>,
  nd |-> <<<<1, 2>>, <<2, 1>>>>,
  at |-> <<<<0, 0, Q(1,8)>>, <<1, 4, 2>>>>,
  md |-> <<[d |-> 2, e |-> 1, p |-> <<>>, q |-> <<>>], [d |-> 1, e |-> 0, p |-> <<<<-1, 0>>>>, q |-> <<<<2, 0>>>>]>>,
  zm |-> <<[d |-> 1, e |-> Q(1,4), p |-> <<<<-1, 0>>>>, q |-> <<<<1, 0>>>>, f |-> 2, dir |-> "both"], [d |-> 3, e |-> 0, p |-> <<>>, q |-> <<>>, f |-> 1, dir |-> "in"]>>,
  lv |-> <<<<<<"A">>>>, <<<<"D">>, <<"A">>>>>>,
  cn |-> <<<<0>>, <<1, 0>>>>,
  ds |-> <<[r \in 1..2 |-> [k \in 1..4 |-> <<Q(r,4), Q(1,8), 0>>]], [r \in 1..2 |-> [k \in 1..4 |-> <<0, Q(k,4), Q(-1,r)>>]]>>]
In(c) == Holds[c][cell[c]]
Cells == DOMAIN Holds

C2 == <<<<Q(2,3), Q(-1,3)>>, <<Q(-1,3), Q(2,3)>>>>
Poly(c) == [k |-> "poly", c |-> c]
Fr(op, o, a, by) == [op |-> op, o |-> o, a |-> a, by |-> by]
MtlFr(o) == Fr("mtl", o, [l |-> [m |-> In("lm")], c |-> [m |-> C2], r |-> [m |-> In("rm")], g |-> [m |-> In("rm")], zs |-> [v |-> In("zv")], zl |-> [v |-> In("zv")],
                          pts |-> In("pt"), ndiv |-> In("nd")],
               [l |-> "lm", r |-> "rm", g |-> "rm", zs |-> "zv", zl |-> "zv", pts |-> "pt", ndiv |-> "nd"])
Field0 == [k |-> "poly", x |-> <<<<1, 0, 1, 0, 1>>>>, y |-> <<<<Q(1,2), 1, 0, 0, 0>>>>, z |-> <<<<-1, 1, 0, 1, 0>>, <<Q(1,3), 0, 0, 0, 1>>>>]
LumpedFr(o) == Fr("lumped", o, [pos |-> In("at"), cond |-> 0] @@ In("md"), [pos |-> "at", model |-> "md"])
SourceFr(o) == Fr("source", o, [pos |-> In("at"), cond |-> 1, w |-> Poly(<<1, Q(1,2)>>)], [pos |-> "at"])
ResFr(o) == Fr("res", o, [a |-> In("at"), b |-> In("at"), cond |-> 0, val |-> 2], [a |-> "at", b |-> "at"])
FieldFr(o) == Fr("field", o, [f |-> Field0, dist |-> In("ds"), loc |-> <<>>], [dist |-> "ds"])
ProbeFr(o) == Fr("probe", o, [name |-> "p", pos |-> In("at"), type |-> "current"], [pos |-> "at"])
BundleFr == Fr("bundle", "B", [name |-> "B", levels |-> [x \in 1..Len(In("lv")) |-> [y \in 1..Len(In("lv")[x]) |-> [name |-> In("lv")[x][y], o |-> In("lv")[x][y]]]]],
               [levels |-> "lv"])
ZtFr == Fr("zt", "B", [ol |-> 0, oc |-> <<0>>, il |-> 1, ic |-> In("cn")] @@ In("zm"), [model |-> "zm", ic |-> "cn"])
StateFr(o) == Fr("state", o, [v |-> [a \in 1..os[o].n |-> [j \in 1..(os[o].N+1) |-> IF j \in {1, os[o].N + 1} THEN 0 ELSE ((a * 5 + j * 3) % 7) - 3]],
                              i |-> [a \in 1..os[o].n |-> [j \in 1..os[o].N |-> IF j \in {1, os[o].N} THEN 0 ELSE ((a * 3 + j * 5) % 5) - 2]]], <<>>)
RunFr(o, T) == Fr("run", o, [T |-> T, dt |-> 0], <<>>)
CellFr(c) == Fr("cell", c, [is |-> In(c), becomes |-> Holds[c][3 - cell[c]]], <<>>)

If(c, s) == IF c THEN s ELSE <<>>
Has2(x) == x \in DOMAIN os
Did(op, o) == \E j \in 1..Len(hist) : hist[j].op = op /\ hist[j].o = o /\ hist[j].ok
Tie(o) == Cardinality(NearestSet(os[o].u, In("at"))) > 1
OnA(o) == If(Has2(o), If(~Tie(o), <<LumpedFr(o), SourceFr(o), ResFr(o)>> \o If(~Did("probe", o), <<ProbeFr(o)>>)) \o <<FieldFr(o)>>)
CellSeq == <<"rm", "lm", "zv", "pt", "nd", "at", "md", "zm", "lv", "cn", "ds">>
Matters(c) == \* a cell is changed after it was used
  \E j \in 1..Len(hist) : hist[j].op # "cell" /\ \E k \in DOMAIN hist[j].by : hist[j].by[k] = c
Offered ==
  [j \in 1..Len(CellSeq) |-> CellFr(CellSeq[j])]
  \o If(~Has2("D"), <<MtlFr("D")>>) \o OnA("A") \o OnA("D")
  \o If(Has2("B"), <<FieldFr("B"), StateFr("B")>> \o If(~Did("zt", "B"), <<ZtFr>>))
  \o If(~Has2("B") /\ Has2("D"), <<BundleFr>>) \o <<RunFr("A", Q(5,4))>>
Members == LET j == CHOOSE j \in 1..Len(hist) : hist[j].op = "bundle" /\ hist[j].ok IN hist[j].a.levels
(* a zt between levels that are not there is out of the domain *)
Sensible(fr) == (fr.op = "zt" => Len(Members) > 1) /\ (fr.op = "cell" => Matters(fr.o) \/ fr.o \in {"at", "cn", "ds", "md", "zm", "lv"})

-----------------------------------------------------------------------------
(* in the end the bundle, if there is one, is terminated and run in a system *)
NodesOf(o, side) == [j \in 1..2 |-> [id |-> j, line |-> o, bundle |-> "B", side |-> side, cond |-> j - 1]]
Br(kd, a, w) == [k |-> kd, a |-> a, b |-> 0, R |-> 2, L |-> Q(1,2), C |-> Q(3,4), w |-> w]
NetFr(o, side) == Fr("net", o, [parts |-> [x \in 1..Len(Members) |-> [level |-> x - 1, nodes |-> NodesOf(Members[x][1].o, side),
                       br |-> <<Br("R", 1, Poly(<<1>>)), Br(IF side = "S" THEN "C" ELSE "LCpRs", 2, Zero)>>]]], <<>>)
SystemFr == Fr("system", "M", [bundles |-> <<"B">>, nets |-> <<"P", "N">>], <<>>)
Finish == If(Has2("B") /\ ~Has2("M"), IF ~Has2("P") THEN <<NetFr("P", "S")>> ELSE IF ~Has2("N") THEN <<NetFr("N", "L")>> ELSE <<SystemFr>>)
Roots == {x \in {"A", "D", "M"} : Has2(x)}

Do(fr) ==
  CASE fr.op = "cell" -> cell' = [cell EXCEPT ![fr.o] = 3 - @] /\ hist' = Append(hist, [ok |-> TRUE] @@ fr) /\ UNCHANGED os
    [] fr.op = "run" -> LET r == TLCEval(Ran(os, fr)) IN os' = r.w /\ hist' = Append(hist, [see |-> r.see, ok |-> TRUE] @@ fr) /\ UNCHANGED cell
    [] OTHER -> LET ok == TLCEval(CallOk(os, fr)) IN os' = TLCEval(Call(os, fr)) /\ hist' = Append(hist, [ok |-> ok] @@ fr) /\ UNCHANGED cell

(* the caller starts with one line, or with two lines and a bundle of them *)
Starts(frs, k) == Len(frs) >= k /\ hist = [j \in 1..k |-> [ok |-> TRUE] @@ frs[j]] /\ os = TLCEval(Calling(Nothing, SubSeq(frs, 1, k)))
Init == /\ \E k \in {1, 3} :
             /\ cell = [c \in Cells |-> IF k = 3 /\ c = "lv" THEN 2 ELSE 1]
             /\ Starts(<<MtlFr("A"), MtlFr("D"), BundleFr>>, k)
        /\ depth = 0 /\ rec = {} /\ todo = 0
Next ==
  \/ /\ depth < Depth /\ todo = 0
     /\ todo' \in {j \in 1..Len(Offered) : Sensible(Offered[j])}
     /\ UNCHANGED <<os, hist, depth, rec, cell>>
  \/ /\ todo > 0
     /\ Do(Offered[todo])
     /\ depth' = depth + 1 /\ todo' = 0 /\ UNCHANGED rec
  \/ /\ depth = Depth /\ Finish # <<>> /\ Do(Finish[1]) /\ UNCHANGED <<depth, rec, todo>>
  \/ /\ depth = Depth /\ Finish = <<>>
     /\ \E x \in Roots \ rec : (\A y \in Roots \ rec : y = x \/ x = "A" \/ (x = "D" /\ y = "M")) /\ Do(RunFr(x, Q(13,5))) /\ rec' = rec \cup {x}
     /\ UNCHANGED <<depth, todo>>
  \/ /\ depth = Depth /\ Finish = <<>> /\ Roots = rec
     /\ REmit(IOEnv.OUT, hist)
     /\ depth' = Depth + 1 /\ UNCHANGED <<os, hist, rec, todo, cell>>

-----------------------------------------------------------------------------
(* changing a cell changes nothing that was built *)
ByValue == [][cell' # cell => os' = os]_vars
(* and what a line is does not depend on what else the caller did: it is the value of its own calls *)
RECURSIVE Own(_, _, _)
Own(w, h, o) == IF h = <<>> THEN w ELSE Own(IF h[1].o = o THEN (IF h[1].op = "run" THEN Ran(w, h[1]).w ELSE Call(w, h[1])) ELSE w, Tail(h), o)
OwnHistory == depth = Depth + 1 => \A o \in {"A", "D"} \cap DOMAIN os : Own(Nothing, hist, o)[o] = os[o]
=============================================================================
