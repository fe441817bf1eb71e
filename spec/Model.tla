-------------------------------- MODULE Model --------------------------------
(***************************************************************************)
(* The exact next state: the balances of Dynamics solved for the state     *)
(* after a step, in the order in which they determine one another: node    *)
(* voltages from the currents, network nodes together with their branches, *)
(* then cell currents from the new voltages.  A world is the map from      *)
(* names to objects of module Calls.                                       *)
(***************************************************************************)
EXTENDS Calls

(* the zero of an affine map of n numbers to n numbers *)
AffZero(F(_), n) ==
  LET r0 == TLCEval(F(ZeroVec(n)))
      col == TLCEval([j \in 1..n |-> VSub(F([ZeroVec(n) EXCEPT ![j] = 1]), r0)])
  IN TLCEval(Solve(Transpose(col), VScale(-1, r0)))

(* a state of which only column k of v (of i) is known *)
OnlyV(k, x) == [v |-> [a \in 1..Len(x) |-> [m \in {k} |-> x[a]]]]
OnlyI(v, k, x) == [v |-> v, i |-> [a \in 1..Len(x) |-> [m \in {k} |-> x[a]]]]

InnerV(tl, s, ex, dt) ==                     \* columns 2..N
  [k \in 2..tl.N |-> AffZero(LAMBDA x : NodeBal(tl, s, OnlyV(k, x), ex, k, dt).res, tl.n)]
EndV(tl, s, ex, k, z, dt, t) == AffZero(LAMBDA x : EndBal(tl, s, OnlyV(k, x), ex, k, z, dt, t).res, tl.n)
NextI(tl, s, v, ex, dt) ==
  LET cs == TLCEval([k \in 1..tl.N |-> AffZero(LAMBDA x : CellBal(tl, s, OnlyI(v, k, x), ex, tl.cf, k, dt).res, tl.n)])
  IN TLCEval([a \in 1..tl.n |-> [k \in 1..tl.N |-> cs[k][a]]])
Columns(n, N, c) == TLCEval([a \in 1..n |-> [k \in 1..(N+1) |-> c[k][a]]])

(* The voltages at the nodes of a network.  Ideally connected nodes keep equal averages over the
   step (those connected to ground, zero); one unknown y per remaining set: v1 = y - v0. *)
SeqOf(S) == LET RECURSIVE g(_) g(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o g(T \ {x}) IN g(S)
NetV(nw, tls, st, exs, xs, dt, t) ==
  LET sup == TLCEval(SeqOf({S \in SuperNodes(nw) : 0 \notin S}))
      at(y) == [a \in 1..Len(nw.nodes) |->
                 LET v0 == VAt(tls, st, nw.nodes[a])
                     mine == {m \in 1..Len(sup) : a \in sup[m]}
                 IN IF mine = {} THEN RNeg(v0) ELSE y[CHOOSE m \in mine : TRUE] (-) v0]
      \* the state with these voltages at the network's nodes (and nothing else known)
      probe(y) ==
        LET w == TLCEval(at(y))
        IN [x \in {nw.nodes[a].line : a \in 1..Len(nw.nodes)} |->
             [v |-> [r \in 1..tls[x].n |-> [k \in {1, tls[x].N + 1} |->
                LET A == {a \in 1..Len(nw.nodes) : nw.nodes[a].line = x /\ nw.nodes[a].row = r /\ NodeIx(tls[x], nw.nodes[a].side) = k}
                IN IF A = {} THEN 0 ELSE w[CHOOSE a \in A : TRUE]]]]]
      F(y) == LET st2 == TLCEval(probe(y))
                  xs2 == NextBranches(nw, tls, st, st2, xs, dt, t)
              IN [m \in 1..Len(sup) |-> SuperBal(nw, sup[m], tls, st, st2, exs, xs, xs2, dt, t).res[1]]
  IN IF sup = <<>> THEN at(<<>>) ELSE TLCEval(at(AffZero(F, Len(sup))))

(* One step of the line or system `name` of the world os (already Started). *)
NextWorld(os, name) ==
  LET root == os[name]
      ps == Parts(os, name)
      dt == root.dt
      t == root.time
      tls == Objs(ps, LAMBDA x : os[x])
      s0 == TLCEval(Objs(ps, LAMBDA x : StateOf(os[x])))
      ex == TLCEval(Objs(ps, LAMBDA x : Exc(os[x], dt, t)))
      nets == IF root.kind = "system" THEN root.nets ELSE <<>>
      nv == TLCEval([j \in 1..Len(nets) |-> NetV(nets[j], tls, s0, ex, root.xs[j], dt, t)])
      \* end voltages of a part: from its resistances, or from the network each row belongs to
      fromNet(x, k) == TLCEval([r \in 1..tls[x].n |->
         LET js == {<<j, a>> \in UNION {{<<j, a>> : a \in 1..Len(nets[j].nodes)} : j \in 1..Len(nets)} :
                      /\ nets[j].nodes[a].line = x /\ nets[j].nodes[a].row = r
                      /\ NodeIx(tls[x], nets[j].nodes[a].side) = k}
             q == CHOOSE q \in js : TRUE
         IN nv[q[1]][q[2]]])
      ends(x, k) == IF tls[x].kind = "line" THEN EndV(tls[x], s0[x], ex[x], k, IF k = 1 THEN tls[x].zs ELSE tls[x].zl, dt, t)
                    ELSE fromNet(x, k)
      newV(x) == LET inner == TLCEval(InnerV(tls[x], s0[x], ex[x], dt))
                     N == tls[x].N
                     a == TLCEval(ends(x, 1))  b == TLCEval(ends(x, N + 1))
                 IN Columns(tls[x].n, N, [k \in 1..(N+1) |-> IF k = 1 THEN a ELSE IF k = N + 1 THEN b ELSE inner[k]])
      v1 == TLCEval(Objs(ps, LAMBDA x : newV(x)))
      i1 == TLCEval(Objs(ps, LAMBDA x : NextI(tls[x], s0[x], v1[x], ex[x], dt)))
      s1 == TLCEval(Objs(ps, LAMBDA x : [v |-> v1[x], i |-> i1[x]]))
      phi == TLCEval(Objs(ps, LAMBDA x : NextPhi(os[x], s0[x], s1[x], os[x].cf)))
      xs2 == TLCEval([j \in 1..Len(nets) |-> NextBranches(nets[j], tls, s0, s1, root.xs[j], dt, t)])
      ys2 == TLCEval([j \in 1..Len(nets) |-> [m \in 1..Len(nets[j].br) |->
                LET b == nets[j].br[m]
                IN BranchAvg(b, root.xs[j][m], xs2[j][m], BranchV(nets[j], tls, s0, b), BranchV(nets[j], tls, s1, b))]])
      O2 == Objs(ps, LAMBDA x : [os[x] EXCEPT !.v = v1[x], !.i = i1[x], !.phi = phi[x]]) @@ os
  IN TLCEval(IF root.kind = "system"
             THEN (name :> [root EXCEPT !.xs = xs2, !.ys = ys2, !.time = t (+) dt]) @@ O2
             ELSE (name :> [O2[name] EXCEPT !.time = t (+) dt]) @@ O2)
RECURSIVE Advance(_, _, _)
Advance(os, name, n) == IF n = 0 THEN os ELSE Advance(NextWorld(os, name), name, n - 1)

(* What a new line or bundle reports of itself, when all its modes have one velocity: l c is a
   multiple of the identity (module MC_Modes shows the general relation). *)
Homogeneous(o) == LET p == MMul(o.l, o.c) IN \A j, k \in 1..o.n : REq(p[j][k], IF j = k THEN p[1][1] ELSE 0)
ModelVel(o) == 1 (/) RSqrt(MMul(o.l, o.c)[1][1], 160)
ModelObs(o) == LET w == ModelVel(o) IN [dt |-> RMinSeq(o.len) (/) w, vels |-> <<<<w>>>>]
WithObs(os, fr) ==
  CASE fr.op = "mtl" -> IF LineOk(fr.a) THEN [obs |-> ModelObs(Line(fr.a))] @@ fr ELSE fr
    [] fr.op = "bundle" -> IF BundleOk(LevelsOf(os, fr.a))
                           THEN LET b == Bundle(LevelsOf(os, fr.a))
                                IN [obs |-> [dt |-> b.dt, vels |-> <<[j \in 1..Len(Flatten(LevelsOf(os, fr.a))) |-> Flatten(LevelsOf(os, fr.a))[j].o.vel]>>]] @@ fr
                           ELSE fr
    [] fr.op = "setdt" -> [obs |-> [dt |-> fr.a.T (/) fr.a.n]] @@ fr
    [] OTHER -> fr
(* the world after a call (unchanged if the call is not acceptable) *)
Call(os, fr) == IF CallOk(os, fr) THEN (fr.o :> TLCEval(Made(os, WithObs(os, fr)))) @@ os ELSE os
RECURSIVE Calling(_, _)
Calling(os, frs) == IF frs = <<>> THEN os ELSE Calling(Call(os, frs[1]), Tail(frs))
Nothing == [x \in {"", " "} |-> [kind |-> "none"]]

-----------------------------------------------------------------------------
(* a run: the states after each of its steps, and what each probe recorded *)
RECURSIVE Course(_, _, _)
Course(w, name, n) == IF n = 0 THEN <<>> ELSE LET w2 == NextWorld(w, name) IN <<w2>> \o Course(w2, name, n - 1)
Record(o, p, ws, name) ==
  [o |-> o, name |-> p.name,
   t |-> [j \in 1..Len(ws) |-> ws[j][name].time (+) (IF p.type = "voltage" THEN 0 ELSE Half (\X) ws[j][name].dt)],
   val |-> [j \in 1..Len(ws) |-> LET x == ws[j][o] IN [a \in 1..x.n |-> IF p.type = "voltage" THEN x.v[a][p.k] ELSE x.i[a][IF p.k > x.N THEN x.N ELSE p.k]]]]
(* a new run starts the records afresh; steps made one by one go on with them *)
Kept(w1, w0, ws, name, afresh) ==
  LET ps == Parts(w0, name)
      with(x) == [w1[x] EXCEPT !.probes = [m \in 1..Len(w0[x].probes) |->
                    LET p == w0[x].probes[m] r == Record(x, p, ws, name)
                    IN [p EXCEPT !.t = IF afresh THEN r.t ELSE p.t \o r.t, !.val = IF afresh THEN r.val ELSE p.val \o r.val]]]
  IN TLCEval(Objs(ps, LAMBDA x : with(x)) @@ w1)
Seen(w, name) ==
  LET ps == Parts(w, name)
  IN [dt |-> w[name].dt, time |-> w[name].time,
      parts |-> [j \in 1..Len(ps) |-> [o |-> ps[j], v |-> w[ps[j]].v, i |-> w[ps[j]].i, dt |-> w[ps[j]].dt]],
      probes |-> Flatten([j \in 1..Len(ps) |-> [m \in 1..Len(w[ps[j]].probes) |->
                    LET p == w[ps[j]].probes[m] IN [o |-> ps[j], name |-> p.name, t |-> p.t, val |-> p.val]]])]
Going(w0, name, n, afresh) ==
  LET ws == TLCEval(Course(w0, name, n))
      w1 == Kept(IF n = 0 THEN w0 ELSE ws[n], w0, ws, name, afresh)
  IN [w |-> w1, see |-> Seen(w1, name)]
Ran(os, fr) == LET w0 == TLCEval(Started(os, fr.o, fr.a.dt)) IN Going(w0, fr.o, Steps(fr.a.T, w0[fr.o].dt), TRUE)
(* steps made by hand, after a run *)
Walked(os, fr) == Going(os, fr.o, fr.a.n, FALSE)

-----------------------------------------------------------------------------
(* Quantities of a world *)
EnergyOf(os, name) ==
  LET ps == Parts(os, name) root == os[name]
  IN RSum([j \in 1..Len(ps) |-> LineEnergy(os[ps[j]], StateOf(os[ps[j]]), root.dt)])
     (+) (IF root.kind # "system" THEN 0 ELSE
          RSum([j \in 1..Len(root.nets) |-> RSum([m \in 1..Len(root.nets[j].br) |-> BranchEnergy(root.nets[j].br[m], root.ys[j][m])])]))
LossOf(os, os2, name) ==
  LET ps == Parts(os, name) root == os[name] dt == root.dt
      tls == Objs(ps, LAMBDA x : os[x])
      s0 == Objs(ps, LAMBDA x : StateOf(os[x]))  s1 == Objs(ps, LAMBDA x : StateOf(os2[x]))
  IN RSum([j \in 1..Len(ps) |->
       LET tl == tls[ps[j]] a == s0[ps[j]] b == s1[ps[j]]
       IN LineLoss(tl, a, b, dt)
          (+) (IF tl.kind = "line" THEN EndLoss(tl, a, b, tl.zs, 1, dt) (+) EndLoss(tl, a, b, tl.zl, tl.N + 1, dt) ELSE 0)])
     (+) (IF root.kind # "system" THEN 0 ELSE
          RSum([j \in 1..Len(root.nets) |-> RSum([m \in 1..Len(root.nets[j].br) |->
             LET nw == root.nets[j] b == nw.br[m]
             IN BranchLoss(b, root.ys[j][m], os2[name].ys[j][m], BranchV(nw, tls, s0, b), BranchV(nw, tls, s1, b), dt)])]))
=============================================================================
