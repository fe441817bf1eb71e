------------------------------ MODULE Dynamics ------------------------------
(***************************************************************************)
(* One time step of lines, bundles and networks, as relations between the  *)
(* state before and the state after: every law is a balance of terms whose *)
(* sum (the residual) is zero.  The same residuals decide recorded steps   *)
(* of the implementation (up to rounding) and, solved for the new state,   *)
(* give the exact next state of the model (module Model).                  *)
(*                                                                         *)
(* A line or bundle tl is a record                                         *)
(*   n conductors, N cells, u node positions, len cell lengths,            *)
(*   l, c matrices; r[k] per cell, g[k] per node; zs, zl end resistances,  *)
(*   disp dispersive elements [row, col, cell, d, e, p, q],                *)
(*   vs generators [row, node, w], el sources [row, cell, w],              *)
(*   fl incident fields [f, row, cells, nodes, dist], vel fastest velocity *)
(* and its state s is [v, i, phi]: v[row][node], i[row][cell],             *)
(* phi[element][pole].                                                     *)
(***************************************************************************)
EXTENDS Geometry, Waves, Fields, Dispersion

Half == 1 (/) 2
Rel9 == RPow(10, -9)

EL(tl, row, k, t) ==
  RSum([j \in 1..Len(tl.el) |-> IF tl.el[j].row = row /\ tl.el[j].cell = k THEN W(tl.el[j].w, t) ELSE 0])
  (+) RSum([j \in 1..Len(tl.fl) |->
        LET f == tl.fl[j]
        IN IF f.row = row /\ k \in f.cells
           THEN LongTerm(f.f, tl.u[k], tl.u[k+1], tl.len[k], f.dist[k], t, tl.vel)
           ELSE 0])
ET(tl, row, k, t) ==
  RSum([j \in 1..Len(tl.fl) |->
        LET f == tl.fl[j]
        IN IF f.row = row /\ k \in f.nodes THEN TransTerm(f.f, tl.u[k], f.dist[k], t, tl.vel) ELSE 0])
VS(tl, row, node, t) ==
  RSum([j \in 1..Len(tl.vs) |-> IF tl.vs[j].row = row /\ tl.vs[j].node = node THEN W(tl.vs[j].w, t) ELSE 0])

(* excitation terms of a step that starts at time t *)
Excited(tl) == tl.fl # <<>>
Exc(tl, dt, t) ==
  TLCEval([
    et0 |-> IF Excited(tl) THEN [a \in 1..tl.n |-> [k \in 1..(tl.N+1) |-> ET(tl, a, k, t (-) dt)]] ELSE ZeroMat(tl.n, tl.N+1),
    et1 |-> IF Excited(tl) THEN [a \in 1..tl.n |-> [k \in 1..(tl.N+1) |-> ET(tl, a, k, t)]] ELSE ZeroMat(tl.n, tl.N+1),
    el  |-> IF Excited(tl) \/ tl.el # <<>>
            THEN [a \in 1..tl.n |-> [k \in 1..tl.N |-> EL(tl, a, k, t (+) (Half (\X) dt)) (+) EL(tl, a, k, t (-) (Half (\X) dt))]]
            ELSE ZeroMat(tl.n, tl.N)])

(* A balance: the terms of each row, and the residual relative to the size of the largest row. *)
Bal(rows) == [res |-> TLCEval([a \in 1..Len(rows) |-> RSum(rows[a].t)]),
              mag |-> RMaxSeq([a \in 1..Len(rows) |-> rows[a].m])]
Balanced(b, tol) == \A a \in 1..Len(b.res) : RAbs(b.res[a]) \preceq (tol (\X) b.mag) (+) RPow(10, -250)
RowBalanced(b, a, tol) == RAbs(b.res[a]) \preceq (tol (\X) b.mag) (+) RPow(10, -250)

(* charge on the stretch of width w at node k over the step, and current leaving it *)
StoreRows(tl, s, s2, ex, k, w, dt) ==
  LET v0 == Col(s.v, k)   v1 == Col(s2.v, k)
      e0 == Col(ex.et0, k)  e1 == Col(ex.et1, k)
      dv == TLCEval(VSub(VAdd(v1, e1), VAdd(v0, e0)))
      sv == TLCEval(VAdd(VAdd(v1, e1), VAdd(v0, e0)))
      av == TLCEval(VAdd(VAdd(VAbs(v1), VAbs(v0)), VAdd(VAbs(e1), VAbs(e0))))
      wd == w (/) dt   wh == Half (\X) w
  IN TLCEval([a \in 1..tl.n |->
      [t |-> <<wd (\X) RDot(tl.c[a], dv), wh (\X) RDot(tl.g[k][a], sv)>>,
       m |-> (wd (\X) RDotAbs(tl.c[a], av)) (+) (wh (\X) RDotAbs(tl.g[k][a], av))]])

(* Kirchhoff's current law at an interior node k of a line *)
NodeBal(tl, s, s2, ex, k, dt) ==
  LET st == StoreRows(tl, s, s2, ex, k, NodeWidth(tl.len, k), dt)
  IN Bal([a \in 1..tl.n |->
      [t |-> st[a].t \o <<s.i[a][k], RNeg(s.i[a][k-1])>>,
       m |-> st[a].m (+) RAbs(s.i[a][k]) (+) RAbs(s.i[a][k-1])]])

(* Thevenin relation at an end (node k = 1 or N+1) with resistances z: averaged over the step,
   resistance times the current into the line equals the generator minus the end voltage *)
EndBal(tl, s, s2, ex, k, z, dt, t) ==
  LET cell == IF k = 1 THEN 1 ELSE tl.N
      sg == IF k = 1 THEN 2 ELSE -2
      st == StoreRows(tl, s, s2, ex, k, tl.len[cell], dt)
      g(a) == VS(tl, a, k, t) (+) VS(tl, a, k, t (-) dt)
  IN Bal([a \in 1..tl.n |->
      [t |-> VScale(z[a], st[a].t) \o <<z[a] (\X) sg (\X) s.i[a][cell], s2.v[a][k], s.v[a][k], RNeg(g(a))>>,
       m |-> (z[a] (\X) (st[a].m (+) RAbs(2 (\X) s.i[a][cell]))) (+) RAbs(s2.v[a][k]) (+) RAbs(s.v[a][k]) (+) RAbs(g(a))]])

(* Kirchhoff's voltage law around cell k *)
DispIn(tl, row, k) == {j \in 1..Len(tl.disp) : tl.disp[j].row = row /\ tl.disp[j].cell = k}
RECURSIVE SetSum(_, _)
SetSum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] (+) SetSum(f, S \ {x})
DispDrop(el, cf, m, i0, i1, dt) ==
  (Half (\X) el.d (\X) (i1 (+) i0)) (+) (((el.e (/) dt)) (\X) (i1 (-) i0)) (+) PoleDrop(cf, m, i0, i1)
DispMag(el, cf, m, i0, i1, dt) ==
  LET ai == RAbs(i1) (+) RAbs(i0)
  IN (Half (\X) RAbs(el.d) (\X) ai) (+) ((RAbs(el.e) (/) dt) (\X) ai)
     (+) RSum([j \in 1..Len(cf) |->
           ((RAbs(cf[j].q1[1]) (+) RAbs(cf[j].q1[2])) (\X) RAbs(i1)) (+) ((RAbs(cf[j].q2[1]) (+) RAbs(cf[j].q2[2])) (\X) RAbs(i0))
           (+) RAbs(m[j][1]) (+) RAbs(m[j][2])])
CellBal(tl, s, s2, ex, cfs, k, dt) ==
  LET i0 == Col(s.i, k)  i1 == Col(s2.i, k)
      di == TLCEval(VSub(i1, i0))  si == TLCEval(VAdd(i1, i0))
      ai == TLCEval(VAdd(VAbs(i1), VAbs(i0)))
      h == tl.len[k]
      Row(a) ==
        LET D == DispIn(tl, a, k)
            dd == [j \in D |-> h (\X) DispDrop(tl.disp[j], cfs[j], s.phi[j], i0[tl.disp[j].col], i1[tl.disp[j].col], dt)]
            dm == [j \in D |-> h (\X) DispMag(tl.disp[j], cfs[j], s.phi[j], i0[tl.disp[j].col], i1[tl.disp[j].col], dt)]
            et == ex.et1[a][k+1] (-) ex.et1[a][k]
            el == Half (\X) h (\X) ex.el[a][k]
        IN [t |-> <<(h (/) dt) (\X) RDot(tl.l[a], di), Half (\X) h (\X) RDot(tl.r[k][a], si),
                    SetSum(dd, D), s2.v[a][k+1] (-) s2.v[a][k], et, RNeg(el)>>,
            m |-> ((h (/) dt) (\X) RDotAbs(tl.l[a], ai)) (+) (Half (\X) h (\X) RDotAbs(tl.r[k][a], ai))
                    (+) SetSum(dm, D) (+) RAbs(s2.v[a][k+1]) (+) RAbs(s2.v[a][k])
                    (+) RAbs(ex.et1[a][k+1]) (+) RAbs(ex.et1[a][k]) (+) RAbs(el)]
  IN Bal(TLCEval([a \in 1..tl.n |-> Row(a)]))
NextPhi(tl, s, s2, cfs) ==
  TLCEval([j \in 1..Len(tl.disp) |->
     LET e == tl.disp[j] IN Memory(cfs[j], s.phi[j], s.i[e.col][e.cell], s2.i[e.col][e.cell])])
DispCoefs(tl, dt) == TLCEval([j \in 1..Len(tl.disp) |-> Coefs(tl.disp[j], dt)])

-----------------------------------------------------------------------------
(* Networks.  A network nw has nodes [line, row, side] (side "S" or "L") and branches
   [k, a, b, R, L, C, w]: k = "R", "C", "LCpRs", "short" from node a to ground, "Rn" and
   "shortn" between nodes a and b.  Branch currents flow into node a.  The state of a
   branch is [i, x1, x2]: its current at the end of the last step, and the voltage across
   the parallel capacitor and the current of the parallel inductor of an LCpRs branch. *)
NoBranch == [i |-> 0, x1 |-> 0, x2 |-> 0]
Ideal(br) == br.k \in {"short", "shortn"}
(* new state of a branch given the voltage across it before and after (v = node a - node b) *)
BranchStep(br, x, v0, v1, dt, t) ==
  LET w1 == W(br.w, t)  w0 == W(br.w, t (-) dt)
  IN CASE br.k \in {"R", "Rn"} -> [x EXCEPT !.i = (w1 (-) v1) (/) br.R]
       [] br.k = "C" -> [x EXCEPT !.i = (br.C (/) dt) (\X) ((w1 (-) w0) (-) (v1 (-) v0))]
       [] br.k = "LCpRs" ->
            \* series resistor, then inductor and capacitor in parallel to ground (implicit Euler):
            \*   C (x1' - x1)/dt + (x1' - (v' - w'))/R + ... with L (x2' - x2)/dt = -x1'
            LET rc == br.R (\X) br.C
                den == 1 (+) (dt (/) rc) (+) ((dt (\X) dt) (/) (br.L (\X) br.C))
                x1 == (x.x1 (+) ((dt (/) br.C) (\X) x.x2) (+) ((dt (/) rc) (\X) (v1 (-) w1))) (/) den
                x2 == x.x2 (-) ((dt (/) br.L) (\X) x1)
            IN [i |-> ((x1 (-) v1) (+) w1) (/) br.R, x1 |-> x1, x2 |-> x2]
       [] OTHER -> x
(* the branch current "before": what the documented scheme averages with the current after *)
BranchBefore(br, x, v0, dt, t) ==
  CASE br.k \in {"R", "Rn"} -> (W(br.w, t (-) dt) (-) v0) (/) br.R
    [] br.k = "LCpRs" -> ((x.x1 (-) v0) (+) W(br.w, t (-) dt)) (/) br.R
    [] br.k = "C" -> x.i (+) 0
    [] OTHER -> 0
BranchMag(br, x, x2, v0, v1, dt, t) ==
  LET av == RAbs(v0) (+) RAbs(v1) (+) RAbs(W(br.w, t)) (+) RAbs(W(br.w, t (-) dt))
  IN CASE br.k \in {"R", "Rn"} -> av (/) br.R
       [] br.k = "C" -> ((br.C (/) dt) (\X) av) (+) RAbs(x.i)
       [] br.k = "LCpRs" -> (av (+) RAbs(x.x1) (+) RAbs(x2.x1)) (/) br.R
       [] OTHER -> 0

(* ideally connected nodes: components, node 0 is ground *)
RECURSIVE Close(_, _)
Close(S, edges) == LET T == S \cup {e[2] : e \in {e \in edges : e[1] \in S}} IN IF T = S THEN S ELSE Close(T, edges)
IdealEdges(nw) ==
  UNION {LET b == nw.br[j] IN
         IF b.k = "short" THEN {<<b.a, 0>>, <<0, b.a>>}
         ELSE IF b.k = "shortn" THEN {<<b.a, b.b>>, <<b.b, b.a>>} ELSE {} : j \in 1..Len(nw.br)}
SuperNodes(nw) == LET ed == IdealEdges(nw) IN {Close({a}, ed) : a \in 1..Len(nw.nodes)}
NodeIx(tl, side) == IF side = "S" THEN 1 ELSE tl.N + 1
CellIx(tl, side) == IF side = "S" THEN 1 ELSE tl.N
VAt(tls, st, nd) == st[nd.line].v[nd.row][NodeIx(tls[nd.line], nd.side)]
BranchV(nw, tls, st, b) ==
  VAt(tls, st, nw.nodes[b.a]) (-) (IF b.b = 0 THEN 0 ELSE VAt(tls, st, nw.nodes[b.b]))
NextBranches(nw, tls, st, st2, xs, dt, t) ==
  TLCEval([j \in 1..Len(nw.br) |->
     BranchStep(nw.br[j], xs[j], BranchV(nw, tls, st, nw.br[j]), BranchV(nw, tls, st2, nw.br[j]), dt, t)])
(* branches before the first step: at rest, with whatever the sources did before *)
FirstBranches(nw, dt, t) ==
  TLCEval([j \in 1..Len(nw.br) |->
     IF nw.br[j].k = "C"
     THEN [NoBranch EXCEPT !.i = (nw.br[j].C (/) dt) (\X) (W(nw.br[j].w, t (-) dt) (-) W(nw.br[j].w, t (-) (2 (\X) dt)))]
     ELSE NoBranch])

(* Kirchhoff's current law over a set of ideally connected nodes; exs are the excitations of
   the lines, xs and xs2 the branch states before and after *)
SuperBal(nw, S, tls, st, st2, exs, xs, xs2, dt, t) ==
  LET Here(a) ==
        LET nd == nw.nodes[a]  tl == tls[nd.line]
            k == NodeIx(tl, nd.side)  c == CellIx(tl, nd.side)
            sg == IF nd.side = "S" THEN 2 ELSE -2
            sr == StoreRows(tl, st[nd.line], st2[nd.line], exs[nd.line], k, tl.len[c], dt)[nd.row]
            Touch == {j \in 1..Len(nw.br) : ~Ideal(nw.br[j]) /\ (nw.br[j].a = a \/ nw.br[j].b = a)}
            cur == [j \in Touch |->
                     LET b == nw.br[j]
                         i == xs2[j].i (+) BranchBefore(b, xs[j], BranchV(nw, tls, st, b), dt, t)
                     IN IF b.a = a THEN RNeg(i) ELSE i]
            mag == [j \in Touch |-> LET b == nw.br[j] IN
                     BranchMag(b, xs[j], xs2[j], BranchV(nw, tls, st, b), BranchV(nw, tls, st2, b), dt, t)]
            ii == sg (\X) st[nd.line].i[nd.row][c]
        IN [r |-> RSum(sr.t) (+) ii (+) SetSum(cur, Touch),
            m |-> sr.m (+) RAbs(ii) (+) SetSum(mag, Touch)]
      hs == TLCEval([a \in S \ {0} |-> Here(a)])
  IN [res |-> <<SetSum([a \in S \ {0} |-> hs[a].r], S \ {0})>>,
      mag |-> SetSum([a \in S \ {0} |-> hs[a].m], S \ {0})]

-----------------------------------------------------------------------------
(* Discrete energy after a step: half of v C v and i L i plus the leap-frog cross term, which
   vanishes with the time step; positive definite below the Courant limit. *)
Quad(a, x) == RDot(x, MVec(a, x))
SelfDisp(tl) == \A j \in 1..Len(tl.disp) : tl.disp[j].row = tl.disp[j].col /\ Len(tl.disp[j].p) = 0
LineEnergy(tl, s, dt) ==
  RSum([k \in 1..(tl.N+1) |-> Half (\X) NodeWidth(tl.len, k) (\X) Quad(tl.c, Col(s.v, k))])
  (+) RSum([k \in 1..tl.N |->
        LET i == Col(s.i, k)
        IN (Half (\X) tl.len[k] (\X) Quad(tl.l, i))
           (+) (Half (\X) dt (\X) RDot(i, VSub(Col(s.v, k+1), Col(s.v, k))))])
  (+) RSum([j \in 1..Len(tl.disp) |->
        LET e == tl.disp[j] IN Half (\X) tl.len[e.cell] (\X) e.e (\X) RPow(s.i[e.row][e.cell], 2)])
(* what the step dissipated inside the line *)
LineLoss(tl, s, s2, dt) ==
  RSum([k \in 1..(tl.N+1) |->
      LET m == VScale(Half, VAdd(Col(s2.v, k), Col(s.v, k)))
      IN dt (\X) NodeWidth(tl.len, k) (\X) Quad(tl.g[k], m)])
  (+) RSum([k \in 1..tl.N |->
      LET m == VScale(Half, VAdd(Col(s2.i, k), Col(s.i, k)))
      IN dt (\X) tl.len[k] (\X) Quad(tl.r[k], m)])
  (+) RSum([j \in 1..Len(tl.disp) |->
        LET e == tl.disp[j]
        IN dt (\X) tl.len[e.cell] (\X) e.d (\X) RPow(Half (\X) (s2.i[e.row][e.cell] (+) s.i[e.row][e.cell]), 2)])
(* ... and in its end resistances *)
EndLoss(tl, s, s2, z, k, dt) ==
  RSum([a \in 1..tl.n |-> IF REq(z[a], 0) THEN 0
     ELSE dt (\X) (RPow(Half (\X) (s2.v[a][k] (+) s.v[a][k]), 2) (/) z[a])])
(* reactive branches store energy in their step averages; y is the last pair of averages *)
BranchAvg(b, x, x2, v0, v1) ==
  IF b.k = "C" THEN <<Half (\X) (v0 (+) v1), 0>>
  ELSE IF b.k = "LCpRs" THEN <<Half (\X) (x.x1 (+) x2.x1), Half (\X) (x.x2 (+) x2.x2)>> ELSE <<0, 0>>
BranchEnergy(b, y) ==
  IF b.k = "C" THEN Half (\X) b.C (\X) RPow(y[1], 2)
  ELSE IF b.k = "LCpRs" THEN (Half (\X) b.C (\X) RPow(y[1], 2)) (+) (Half (\X) b.L (\X) RPow(y[2], 2)) ELSE 0
BranchLoss(b, y, y2, v0, v1, dt) ==
  LET m == Half (\X) (v0 (+) v1)
  IN CASE b.k \in {"R", "Rn"} -> dt (\X) (RPow(m, 2) (/) b.R)
       [] b.k = "C" -> Half (\X) b.C (\X) RPow(y2[1] (-) y[1], 2)
       [] b.k = "LCpRs" -> (dt (\X) (RPow(m (-) y2[1], 2) (/) b.R))
             (+) (Half (\X) b.C (\X) RPow(y2[1] (-) y[1], 2)) (+) (Half (\X) b.L (\X) RPow(y2[2] (-) y[2], 2))
       [] OTHER -> 0
=============================================================================
