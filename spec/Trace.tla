-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Decides recorded behaviours of the implementation against the           *)
(* specification.  A scenario is a sequence of frames: building calls with *)
(* their outcome, states after each time step, ends of runs with what the  *)
(* probes recorded, and relations between runs.  The objects of the        *)
(* specification (variable O) follow the calls; each frame is checked      *)
(* against the clauses of the scenario and the observed state becomes the  *)
(* state from which the next step is judged.  Scenarios are the initial    *)
(* states, so that one TLC run checks all of them.                         *)
(***************************************************************************)
EXTENDS Calls, Relations, Document, IOUtils

Scenarios == RLoad(IOEnv.TRACE)
OutFile == IOEnv.OUT

VARIABLES sc, l, O, fails, cnt
vars == <<sc, l, O, fails, cnt>>
view == <<sc, l>>        \* a scenario is a linear behaviour: its position identifies the state

F == Scenarios[sc].frames
Act(c) == \E j \in 1..Len(Scenarios[sc].act) : Scenarios[sc].act[j] = c

-----------------------------------------------------------------------------
Near(x, y, tol) == RAbs(x (-) y) \preceq (tol (\X) (RAbs(x) (+) RAbs(y))) (+) RPow(10, -300)
NearV(x, y, tol, scale) == Len(x) = Len(y) /\ \A j \in 1..Len(x) : RAbs(x[j] (-) y[j]) \preceq (tol (\X) scale)
NearM(x, y, tol, scale) == Len(x) = Len(y) /\ \A j \in 1..Len(x) : NearV(x[j], y[j], tol, scale)
MScaleAbs(x) == IF x = <<>> \/ x[1] = <<>> THEN 0 ELSE RMaxSeq([j \in 1..Len(x) |-> VMaxAbs(x[j])])

R(c, ok, w) == <<[c |-> c, ok |-> ok, w |-> w]>>
When(c, r) == IF Act(c) THEN r ELSE <<>>

(* the velocities reported for cell k are those of the modes of l c: power sums of 1/v^2 *)
RECURSIVE Traces(_, _, _)
Traces(a, p, k) == IF k = 0 THEN <<>>
                   ELSE <<Trace(p)>> \o Traces(a, IF k = 1 THEN p ELSE TLCEval(MRound(MMul(p, a), 400)), k - 1)
ModesOk(traces, vels) ==
  LET n == Len(traces)
      lam == [j \in 1..n |-> TLCEval(RRound(1 (/) (vels[j] (\X) vels[j]), 200))]
  IN /\ Len(vels) = n
     /\ \A j \in 1..n : 0 \prec vels[j]
     /\ \A k \in 1..n : Near(RSum([j \in 1..n |-> RRound(RPow(lam[j], k), 200)]), traces[k], RPow(10, -9))

(* what is checked of a new object: nodes, cells, velocities, default time step *)
NewRes(obs, o) ==
       LET sz == RMaxSeq(o.len) (\X) Len(o.len)
           reach == MScaleAbs(o.u) (+) sz
       IN When("nodes", R("nodes", NearM(obs.u, o.u, RPow(10, -12), reach), "nodes")
            \o R("nodes", /\ Len(obs.du) = o.N
                          /\ \A k \in 1..o.N : NearV(obs.du[k], VSub(o.u[k+1], o.u[k]), RPow(10, -12), reach), "cells"))
          \o When("modes",
               LET lc == TLCEval(MMul(o.l, o.c))
                   tr == TLCEval(Traces(lc, lc, o.n)) IN
               Flatten([k \in 1..o.N |-> R("modes", Len(obs.vels) = o.N /\ ModesOk(tr, obs.vels[k]), k)]))
CreateRes(fr, o) ==
  IF fr.op = "setdt" THEN When("one dt", R("one dt", Near(fr.obs.dt, fr.a.T (/) fr.a.n, RPow(10, -14)), "set"))
  ELSE IF fr.op \notin {"mtl", "bundle"} THEN <<>>
  ELSE NewRes(fr.obs, o)
          \o When("default dt",
               R("default dt",
                 IF fr.op = "mtl"
                 THEN Near(fr.obs.dt, RMinSeq(o.len) (/) RMaxSeq(Flatten(fr.obs.vels)), RPow(10, -12))
                 ELSE REq(fr.obs.dt, Bundle(LevelsOf(O, fr.a)).dt), fr.obs.dt))

-----------------------------------------------------------------------------
(* Runs *)
AsState(x, st) == [v |-> st.v, i |-> st.i, phi |-> x.phi]
Shaped(x, st) == /\ Len(st.v) = x.n /\ Len(st.i) = x.n
                 /\ \A a \in 1..x.n : Len(st.v[a]) = x.N + 1 /\ Len(st.i[a]) = x.N
LineRes(tl, s, s2, ex, dt, t) ==
  When("node", Flatten([k \in 1..(tl.N-1) |-> R("node", Balanced(NodeBal(tl, s, s2, ex, k+1, dt), Rel9), k+1)]))
  \o When("cell", Flatten([k \in 1..tl.N |-> R("cell", Balanced(CellBal(tl, s, s2, ex, tl.cf, k, dt), Rel9), k)]))
  \o (IF tl.kind # "line" THEN <<>> ELSE
      When("end", R("end", Balanced(EndBal(tl, s, s2, ex, 1, tl.zs, dt, t), Rel9), 1)
               \o R("end", Balanced(EndBal(tl, s, s2, ex, tl.N + 1, tl.zl, dt, t), Rel9), tl.N + 1)))
NetRes(nw, tls, st, st2, exs, xs, xs2, dt, t) ==
  LET sup == SuperNodes(nw)
      vmax == RMaxSeq([a \in 1..Len(nw.nodes) |-> RMax(RAbs(VAt(tls, st, nw.nodes[a])), RAbs(VAt(tls, st2, nw.nodes[a])))])
      ideal == \E j \in 1..Len(nw.br) : Ideal(nw.br[j])
      slack == IF ideal THEN RPow(10, -4) (\X) vmax ELSE 0
      Kcl(S) == LET b == SuperBal(nw, S, tls, st, st2, exs, xs, xs2, dt, t)
                IN R("kcl", RAbs(b.res[1]) \preceq (Rel9 (\X) b.mag) (+) slack (+) RPow(10, -250), S)
      Same(S) ==
        \* an ideal connection of the library is a conductance of 1e10 (over the averages of the step)
        LET vs(a) == IF a = 0 THEN 0 ELSE VAt(tls, st2, nw.nodes[a]) (+) VAt(tls, st, nw.nodes[a])
            b == SuperBal(nw, S, tls, st, st2, exs, xs, xs2, dt, t)
            lim == TLCEval((RPow(10, -6) (\X) vmax) (+) (RPow(10, -8) (\X) b.mag))
        IN R("ideal", \A a, c \in S : RAbs(vs(a) (-) vs(c)) \preceq lim, S)
      seqS == TLCEval(LET RECURSIVE g(_) g(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o g(T \ {x}) IN g(sup))
  IN When("kcl", Flatten([j \in 1..Len(seqS) |-> IF 0 \in seqS[j] THEN <<>> ELSE Kcl(seqS[j])]))
     \o When("ideal", IF ideal THEN Flatten([j \in 1..Len(seqS) |-> Same(seqS[j])]) ELSE <<>>)

BadShape(ps, st) == \E j \in 1..Len(ps) : ~(Has(st, ps[j]) /\ Shaped(O[ps[j]], st[ps[j]]))

Step(fr) ==
  LET root == O[fr.o]
      ps == Parts(O, fr.o)
      names == {ps[j] : j \in 1..Len(ps)}
      dt == root.dt
      t == root.time
      tls == Objs(ps, LAMBDA x : O[x])
      s0 == Objs(ps, LAMBDA x : StateOf(O[x]))
      ex == TLCEval(Objs(ps, LAMBDA x : Exc(O[x], dt, t)))
      s1 == Objs(ps, LAMBDA x : AsState(O[x], fr.st[x]))
      phi == TLCEval(Objs(ps, LAMBDA x : NextPhi(O[x], s0[x], s1[x], O[x].cf)))
      nets == IF root.kind = "system" THEN root.nets ELSE <<>>
      xs2 == TLCEval([j \in 1..Len(nets) |-> NextBranches(nets[j], tls, s0, s1, root.xs[j], dt, t)])
      ys2 == TLCEval([j \in 1..Len(nets) |-> [m \in 1..Len(nets[j].br) |->
                LET b == nets[j].br[m]
                IN BranchAvg(b, root.xs[j][m], xs2[j][m], BranchV(nets[j], tls, s0, b), BranchV(nets[j], tls, s1, b))]])
      tl2 == t (+) dt
      O2 == Objs(ps, LAMBDA x : [O[x] EXCEPT !.v = fr.st[x].v, !.i = fr.st[x].i, !.phi = phi[x]]) @@ O
      O3 == IF root.kind = "system"
            THEN (fr.o :> [root EXCEPT !.xs = xs2, !.ys = ys2, !.time = tl2]) @@ O2
            ELSE (fr.o :> [O2[fr.o] EXCEPT !.time = tl2]) @@ O2
      (* energy of everything, and what the step dissipated *)
      lineE(st) == RSum([j \in 1..Len(ps) |-> LineEnergy(tls[ps[j]], st[ps[j]], dt)])
      brE(ys) == RSum([j \in 1..Len(nets) |-> RSum([m \in 1..Len(nets[j].br) |-> BranchEnergy(nets[j].br[m], ys[j][m])])])
      e0 == lineE(s0) (+) (IF nets = <<>> THEN 0 ELSE brE(root.ys))
      e1 == lineE(s1) (+) (IF nets = <<>> THEN 0 ELSE brE(ys2))
      loss == RSum([j \in 1..Len(ps) |->
                 LET tl == tls[ps[j]] a == s0[ps[j]] b == s1[ps[j]]
                 IN LineLoss(tl, a, b, dt)
                    (+) (IF tl.kind = "line" THEN EndLoss(tl, a, b, tl.zs, 1, dt) (+) EndLoss(tl, a, b, tl.zl, tl.N + 1, dt) ELSE 0)])
              (+) RSum([j \in 1..Len(nets) |-> RSum([m \in 1..Len(nets[j].br) |->
                    LET b == nets[j].br[m]
                    IN BranchLoss(b, root.ys[j][m], ys2[j][m], BranchV(nets[j], tls, s0, b), BranchV(nets[j], tls, s1, b), dt)])])
      etol == IF \E j \in 1..Len(nets) : \E m \in 1..Len(nets[j].br) : Ideal(nets[j].br[m]) THEN RPow(10, -6) ELSE RPow(10, -9)
      eres == IF ~(Act("energy") \/ Act("energy grows") \/ Act("energy kept")) THEN <<>>
              ELSE LET a == TLCEval(e0) b == TLCEval(e1) d == TLCEval(loss) tol == TLCEval(etol (\X) (RAbs(a) (+) RAbs(b)))
                   IN When("energy", R("energy", RAbs((b (+) d) (-) a) \preceq tol, <<RStr(a), RStr(b), RStr(d)>>))
                      \o When("energy grows", R("energy grows", b \preceq a (+) tol /\ RNeg(tol) \preceq b, <<RStr(a), RStr(b)>>))
                      \o When("energy kept", R("energy kept", RAbs(b (-) a) \preceq tol, <<RStr(a), RStr(b)>>))
  IN IF BadShape(ps, fr.st) THEN [O |-> O, r |-> R("shape", FALSE, fr.o)]
     ELSE [O |-> O3,
           r |-> Flatten([j \in 1..Len(ps) |-> LineRes(tls[ps[j]], s0[ps[j]], s1[ps[j]], ex[ps[j]], dt, t)])
                 \o Flatten([j \in 1..Len(nets) |-> NetRes(nets[j], tls, s0, s1, ex, root.xs[j], xs2[j], dt, t)])
                 \o eres]

(* probes of a run: one frame per step, labelled and valued as the states of the run (or, with
   `like`, as those of another run of an identical object) *)
Traj(lab) == TLCEval(SelectSeq(F, LAMBDA f : f.op = "step" /\ f.lab = lab))
Place(P(_)) == LET at == {j \in 1..Len(F) : P(F[j])} IN IF at = {} THEN 0 ELSE CHOOSE j \in at : \A m \in at : m \leq j
TrajFrom(lab, from) == TLCEval(LET is == SelectSeq([j \in 1..Len(F) |-> j], LAMBDA j : j > from /\ j \leq l /\ F[j].op = "step" /\ F[j].lab = lab)
                               IN [m \in 1..Len(is) |-> F[is[m]]])
ProbeRes(pr, tr, n, dt, t0, map) ==
  LET o == O[pr.o]
      p == o.probes[CHOOSE j \in 1..Len(o.probes) : o.probes[j].name = pr.name]
      at == IF Has(map, pr.o) THEN map[pr.o] ELSE pr.o
      vals(st) == [a \in 1..o.n |-> IF p.type = "voltage" THEN st[at].v[a][p.k]
                                    ELSE st[at].i[a][IF p.k > o.N THEN o.N ELSE p.k]]
      when(j) == (t0 (+) (dt (\X) j)) (+) (IF p.type = "voltage" THEN 0 ELSE Half (\X) dt)
  IN R("probe frames", Len(pr.t) = n /\ Len(pr.val) = n, pr.name)
     \o (IF Len(pr.t) # n \/ Len(pr.val) # n THEN <<>> ELSE
         When("probe times", R("probe times",
            \A j \in 1..n : RAbs(pr.t[j] (-) when(j)) \preceq (Rel9 (\X) (RAbs(t0) (+) (dt (\X) n))), pr.name))
         \o (IF Len(tr) # n THEN <<>> ELSE
         When("probe values", R("probe values",
            \A j \in 1..n : /\ Len(pr.val[j]) = o.n
                            /\ LET x == vals(tr[j].st) IN \A a \in 1..o.n : REq(pr.val[j][a], x[a]), pr.name))))
EndRun(fr) ==
  LET root == O[fr.o]
      ps == Parts(O, fr.o)
      dt == root.dt
      n == Steps(fr.a.T, dt)
      own == TrajFrom(fr.lab, 0)
      like == IF fr.like = "" THEN own ELSE Traj(fr.like)
      final == IF Len(own) = 0 THEN [x \in {ps[j] : j \in 1..Len(ps)} |-> [v |-> O[x].v, i |-> O[x].i]] ELSE own[Len(own)].st
      t0 == fr.t0
      seen == Len(own) = n \/ n = 0
      O2 == Objs(ps, LAMBDA x : [O[x] EXCEPT !.v = fr.st[x].v, !.i = fr.st[x].i]) @@ O
      t1 == t0 (+) (dt (\X) n)
  IN IF fr.exc # "" THEN [O |-> O, r |-> R("accepted", FALSE, fr.exc)]
     ELSE IF BadShape(ps, fr.st) THEN [O |-> O, r |-> R("shape", FALSE, fr.o)]
     ELSE [O |-> (fr.o :> [O2[fr.o] EXCEPT !.time = t1]) @@ O2,
      r |-> When("steps", R("steps", RAbs(fr.time (-) t1) \preceq (Rel9 (\X) (RAbs(t0) (+) (dt (\X) (n + 1)))), <<RStr(fr.time), RStr(t1)>>))
            \o When("one dt", Flatten([j \in 1..Len(ps) |-> R("one dt", REq(fr.dts[ps[j]], dt) /\ REq(fr.dt, dt), ps[j])]))
            \o When("final", IF ~seen THEN <<>> ELSE Flatten([j \in 1..Len(ps) |->
                  R("final", fr.st[ps[j]].v = final[ps[j]].v /\ fr.st[ps[j]].i = final[ps[j]].i, ps[j])]))
            \o (IF ~Act("final like") \/ fr.like = "" THEN <<>> ELSE Flatten([j \in 1..Len(ps) |->
                  LET x == like[Len(like)].st[fr.map[ps[j]]]
                  IN R("final like", fr.st[ps[j]].v = x.v /\ fr.st[ps[j]].i = x.i, ps[j])]))
            \o (IF Act("probe frames") THEN Flatten([j \in 1..Len(fr.probes) |-> ProbeRes(fr.probes[j], like, n, dt, t0, fr.map)]) ELSE <<>>)]

(* Steps made by hand after a run: every probe goes on with its record, which begins with the run
   or with the step after the probe was placed. *)
GoneOn(pr, lab, dt, t1) ==
  LET o == O[pr.o]
      p == o.probes[CHOOSE j \in 1..Len(o.probes) : o.probes[j].name = pr.name]
      tr == TrajFrom(lab, Place(LAMBDA f : f.op = "probe" /\ f.o = pr.o /\ f.a.name = pr.name))
      n == Len(tr)
      vals(st) == [a \in 1..o.n |-> IF p.type = "voltage" THEN st[pr.o].v[a][p.k] ELSE st[pr.o].i[a][IF p.k > o.N THEN o.N ELSE p.k]]
      when(j) == (t1 (-) (dt (\X) (n - j))) (+) (IF p.type = "voltage" THEN 0 ELSE Half (\X) dt)
  IN R("probe frames", Len(pr.t) = n /\ Len(pr.val) = n, pr.name)
     \o (IF Len(pr.t) # n \/ Len(pr.val) # n THEN <<>> ELSE
         When("probe times", R("probe times", \A j \in 1..n : RAbs(pr.t[j] (-) when(j)) \preceq (Rel9 (\X) (RAbs(t1) (+) dt)), pr.name))
         \o When("probe values", R("probe values",
              \A j \in 1..n : Len(pr.val[j]) = o.n /\ (LET x == vals(tr[j].st) IN \A a \in 1..o.n : REq(pr.val[j][a], x[a])), pr.name)))
EndWalk(fr) ==
  LET root == O[fr.o]
      ps == Parts(O, fr.o)
      dt == root.dt
      t1 == fr.t0 (+) (dt (\X) fr.a.n)
      own == TrajFrom(fr.lab, 0)
  IN IF fr.exc # "" THEN [O |-> O, r |-> R("accepted", FALSE, fr.exc)]
     ELSE [O |-> O,
      r |-> When("steps", R("steps", RAbs(fr.time (-) t1) \preceq (Rel9 (\X) (RAbs(fr.t0) (+) (dt (\X) (fr.a.n + 1)))), <<RStr(fr.time), RStr(t1)>>))
            \o When("one dt", Flatten([j \in 1..Len(ps) |-> R("one dt", REq(fr.dts[ps[j]], dt) /\ REq(fr.dt, dt), ps[j])]))
            \o (IF Act("probe frames") THEN Flatten([j \in 1..Len(fr.probes) |-> GoneOn(fr.probes[j], fr.lab, dt, t1)]) ELSE <<>>)]

-----------------------------------------------------------------------------
(* A document read by the library *)
Read(fr) ==
  LET d == fr.a
      bs == DocBundles(d)
      names == [j \in 1..Len(bs) |-> d.bundles[j].o]
      ob(x) == Pick(fr.obs, LAMBDA y : y.o = x)
      objs == TLCEval([x \in {names[j] : j \in 1..Len(bs)} |->
                 Observed(bs[CHOOSE j \in 1..Len(bs) : names[j] = x], ob(x))])
      O1 == objs @@ O
      dt(x) == RMinSeq(objs[x].len) (/) objs[x].vel
  IN IF fr.exc # "" THEN [O |-> O, r |-> R("accepted", FALSE, <<"doc", fr.exc>>)]
     ELSE IF Len(fr.obs) # Len(bs) \/ \E j \in 1..Len(bs) : ~Some(fr.obs, LAMBDA y : y.o = names[j])
     THEN [O |-> O, r |-> R("accepted", FALSE, <<"bundles">>)]
     ELSE LET parts == DocParts(d)
              sys0 == AddBundles(O1, System, names)
              sys == [sys0 EXCEPT !.nets = [j \in 1..Len(parts) |-> Resolve(parts[j], O1)],
                                  !.xs = [j \in 1..Len(parts) |-> <<>>], !.ys = [j \in 1..Len(parts) |-> <<>>]]
          IN [O |-> (fr.o :> TLCEval(sys)) @@ O1,
              r |-> R("accepted", TRUE, "")
                    \o Flatten([j \in 1..Len(bs) |-> NewRes(ob(names[j]), objs[names[j]])])
                    \o When("default dt", Flatten([j \in 1..Len(bs) |->
                         R("default dt", Near(ob(names[j]).dt, dt(names[j]), RPow(10, -12)), names[j])]))]

-----------------------------------------------------------------------------
(* Other observations *)
OtherRes(fr) ==
  CASE fr.op = "wave" ->
         LET sc0 == WScale(fr.w)
         IN Flatten([j \in 1..Len(fr.ts) |->
              LET x == W(fr.w, fr.ts[j]) tol == (RPow(10, -9) (\X) (RAbs(x) (+) sc0)) (+) RPow(10, -15)
              IN R("wave", RAbs(fr.vals[j] (-) x) \preceq tol, <<RStr(fr.ts[j]), RStr(fr.vals[j]), RStr(x)>>)])
    [] fr.op = "rel" -> R(fr.c, Related(fr, [lab \in {fr.labs[j] : j \in 1..Len(fr.labs)} |-> Traj(lab)], O), fr.w)
    [] fr.op = "port" -> PortRes(fr)
    [] fr.op = "sparam" -> SparamRes(fr)
    [] fr.op = "twoport" -> TwoPortRes(fr)
    [] fr.op = "sameport" -> R("extracted two-port", Len(fr.a) = Len(fr.b) /\ Len(fr.a) > 0 /\
         \A m \in 1..Len(fr.a) : \A x \in 1..2 : CNear(fr.a[m][x], fr.b[m][x], RPow(10, -4)), fr.w)
    [] fr.op = "same" -> R(fr.c, fr.a = fr.b, fr.w)
    [] fr.op = "flag" -> R(fr.c, fr.ok, fr.w)     \* an observation that is a truth value
    [] OTHER -> R("known frame", FALSE, fr.op)

-----------------------------------------------------------------------------
Count1(c, rs) == IF rs = <<>> THEN c ELSE c + Len(rs)
Bad(rs) == SelectSeq(rs, LAMBDA x : ~x.ok)
Result(fr) ==
  IF fr.op \in BuildOps
  THEN LET ok == TLCEval(CallOk(O, fr))
       IN IF ok /\ fr.exc = ""
          THEN LET o2 == TLCEval(Made(O, fr)) IN [O |-> (fr.o :> o2) @@ O, r |-> R("accepted", TRUE, "") \o CreateRes(fr, o2)]
          ELSE [O |-> O, r |-> IF ok THEN R("accepted", FALSE, <<fr.op, fr.exc>>)
                               ELSE When("rejected", R("rejected", fr.exc # "", fr.op))]
  ELSE CASE fr.op = "run" -> [O |-> Started(O, fr.o, fr.a.dt), r |-> <<>>]
         [] fr.op = "step" -> Step(fr)
         [] fr.op = "endrun" -> EndRun(fr)
         [] fr.op = "endwalk" -> EndWalk(fr)
         [] fr.op = "doc" -> Read(fr)
         [] OTHER -> [O |-> O, r |-> OtherRes(fr)]

Init == /\ sc \in 1..Len(Scenarios)
        /\ l = 1 /\ O = [x \in {"", " "} |-> [kind |-> "none"]] /\ fails = <<>> /\ cnt = 0
Next ==
  \/ /\ l <= Len(F)
     /\ LET fr == F[l]
            q == TLCEval(Result(fr))
            bad == Bad(q.r)
        IN /\ O' = TLCEval(q.O)
           /\ fails' = IF Len(fails) > 20 THEN fails
                       ELSE fails \o [j \in 1..(IF Len(bad) > 5 THEN 5 ELSE Len(bad)) |-> [l |-> l, c |-> bad[j].c, w |-> bad[j].w]]
           /\ cnt' = cnt + Len(q.r)
     /\ l' = l + 1 /\ UNCHANGED sc
  \/ /\ l = Len(F) + 1
     /\ REmit(OutFile, [id |-> Scenarios[sc].id, fails |-> fails, cnt |-> cnt])
     /\ l' = l + 1 /\ UNCHANGED <<sc, O, fails, cnt>>
Spec == Init /\ [][Next]_vars
=============================================================================
