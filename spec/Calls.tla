-------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* The calls that build objects: os maps the name of every object that     *)
(* exists to its record.  A call fr is [op, o, a]: operation, the object   *)
(* it is made on (or makes) and its arguments.  CallOk is its acceptance   *)
(* condition, Made the object afterwards; a call that is not acceptable    *)
(* leaves everything as it was.  obs is what a new line or bundle reports  *)
(* of itself (time step, velocities).                                      *)
(***************************************************************************)
EXTENDS Api

LevelsOf(os, a) == [x \in 1..Len(a.levels) |-> [y \in 1..Len(a.levels[x]) |->
                      [name |-> a.levels[x][y].name, o |-> os[a.levels[x][y].o]]]]
Observed(o, obs) == [o EXCEPT !.dt = obs.dt, !.vel = RMaxSeq(Flatten(obs.vels))]

AddNet(os, s, net) ==
  LET a == os[net] IN
  [s EXCEPT !.nets = @ \o [j \in 1..Len(a.parts) |-> Resolve(a.parts[j], os)],
            !.xs = @ \o [j \in 1..Len(a.parts) |-> <<>>],
            !.ys = @ \o [j \in 1..Len(a.parts) |-> <<>>]]
RECURSIVE AddNets(_, _, _)
AddNets(os, s, ns) == IF ns = <<>> THEN s ELSE AddNets(os, AddNet(os, s, ns[1]), Tail(ns))
AddBundle(os, s, b) == [s EXCEPT !.bundles = Append(@, b), !.dt = RMin(@, os[b].dt)]
RECURSIVE AddBundles(_, _, _)
AddBundles(os, s, bs) == IF bs = <<>> THEN s ELSE AddBundles(os, AddBundle(os, s, bs[1]), Tail(bs))

NetOk(a) == \A j \in 1..Len(a.parts) : PartOk(a.parts[j]) /\ \A m \in 1..Len(a.parts[j].br) : BranchOk(a.parts[j], a.parts[j].br[m])
(* a network belongs to bundles of the system *)
NetKnown(os, bundles, net) ==
  \A j \in 1..Len(os[net].parts) : \A m \in 1..Len(os[net].parts[j].nodes) :
    \E q \in 1..Len(bundles) : bundles[q] = os[net].parts[j].nodes[m].bundle
DistinctNames(os, bs) == \A j \in 1..Len(bs) : \A m \in 1..(j-1) : os[bs[j]].name # os[bs[m]].name

BuildOps == {"mtl", "bundle", "net", "system", "addbundle", "addnet", "source", "res", "cond", "lumped", "probe",
             "zt", "ztc", "dist", "field", "copy", "setdt", "state", "invalid"}
CallOk(os, fr) ==
  LET o == os[fr.o] IN
  CASE fr.op = "mtl" -> LineOk(fr.a)
    [] fr.op = "bundle" -> BundleOk(LevelsOf(os, fr.a))
    [] fr.op = "net" -> NetOk(fr.a)
    [] fr.op = "system" -> DistinctNames(os, fr.a.bundles) /\ \A j \in 1..Len(fr.a.nets) : NetKnown(os, fr.a.bundles, fr.a.nets[j])
    [] fr.op = "addbundle" -> \A j \in 1..Len(o.bundles) : os[o.bundles[j]].name # os[fr.a.b].name
    [] fr.op = "addnet" -> NetKnown(os, o.bundles, fr.a.net)
    [] fr.op \in {"res", "cond"} -> RegionOk(o, fr.a.a, fr.a.b)
    [] fr.op = "lumped" -> LumpedOk(o, fr.a.pos, fr.a.cond)
    [] fr.op = "probe" -> OnLine(o, fr.a.pos)
    [] fr.op = "dist" -> OnLine(o, fr.a.a) /\ OnLine(o, fr.a.b)
    [] fr.op = "field" -> /\ Len(fr.a.dist) = FieldRows(o)
                          /\ \A q \in 1..Len(fr.a.dist) : Len(fr.a.dist[q]) = o.N + 1
    [] fr.op = "zt" -> ZtOk(fr.a)
    [] fr.op = "ztc" -> ZtOk(fr.a) /\ SideOk(fr.a.side)
    [] fr.op = "invalid" -> FALSE
    [] OTHER -> TRUE
Made(os, fr) ==
  LET o == os[fr.o] IN
  CASE fr.op = "mtl" -> Observed(Line(fr.a), fr.obs)
    [] fr.op = "bundle" -> [name |-> fr.a.name] @@ Observed(Bundle(LevelsOf(os, fr.a)), fr.obs)
    [] fr.op = "net" -> fr.a
    [] fr.op = "system" -> AddNets(os, AddBundles(os, System, fr.a.bundles), fr.a.nets)
    [] fr.op = "addbundle" -> AddBundle(os, o, fr.a.b)
    [] fr.op = "addnet" -> AddNet(os, o, fr.a.net)
    [] fr.op = "source" -> Source(o, fr.a.pos, fr.a.cond, fr.a.w)
    [] fr.op = "res" -> SetRes(o, fr.a.a, fr.a.b, fr.a.cond, fr.a.val)
    [] fr.op = "cond" -> SetCond(o, fr.a.a, fr.a.b, fr.a.cond, fr.a.val)
    [] fr.op = "lumped" -> Lumped(o, fr.a.pos, fr.a.cond, fr.a.d, fr.a.e, fr.a.p, fr.a.q)
    [] fr.op = "probe" -> Probe(o, fr.a.name, fr.a.pos, fr.a.type)
    [] fr.op = "dist" -> Dist(o, fr.a.a, fr.a.b, fr.a.cond, fr.a.w)
    [] fr.op = "field" -> AddField(o, fr.a.f, fr.a.dist, fr.a.loc)
    [] fr.op = "zt" -> AddZt(o, fr.a)
    [] fr.op = "ztc" -> SetZtConn(o, fr.a)
    [] fr.op = "copy" -> CleanCopy(os[fr.a.of])
    [] fr.op = "setdt" -> [o EXCEPT !.dt = fr.obs.dt]
    [] fr.op = "state" -> [o EXCEPT !.v = fr.a.v, !.i = fr.a.i]

-----------------------------------------------------------------------------
(* Runs.  `name` is the line or system; its parts are the line itself or the bundles. *)
Parts(os, name) == IF os[name].kind = "system" THEN os[name].bundles ELSE <<name>>
RunDt(os, name, dt) == IF os[name].kind = "system" THEN IF REq(dt, 0) THEN os[name].dt ELSE dt ELSE os[name].dt
Objs(names, f(_)) == [x \in {names[j] : j \in 1..Len(names)} |-> f(x)]
(* every part of a run uses one time step; branches are at rest before their first run *)
Started(os, name, dt0) ==
  LET dt == RunDt(os, name, dt0)
      ps == Parts(os, name)
      pt(x) == [os[x] EXCEPT !.cf = DispCoefs(os[x], dt), !.dt = dt]
      s == os[name]
      O1 == Objs(ps, pt) @@ os
  IN IF s.kind = "line" THEN O1
     ELSE (name :> [s EXCEPT !.dt = dt,
                     !.xs = [j \in 1..Len(s.nets) |-> IF s.xs[j] = <<>> THEN FirstBranches(s.nets[j], dt, s.time) ELSE s.xs[j]],
                     !.ys = [j \in 1..Len(s.nets) |-> IF s.ys[j] = <<>> THEN [m \in 1..Len(s.nets[j].br) |-> <<0, 0>>] ELSE s.ys[j]]]) @@ O1
=============================================================================
