------------------------------ MODULE Relations ------------------------------
(* Relations between recorded runs (trajectories: sequences of frames with   *)
(* the states of all objects after each step).                               *)
EXTENDS Api

SameLength(fr, tr) == \A j, m \in 1..Len(fr.labs) : Len(tr[fr.labs[j]]) = Len(tr[fr.labs[m]])

(* Linear relation: sum of factor times run = 0, row by row (map gives for each common row
   the object and row of the run), at every node, cell and step; fi is the factor of currents.
   A reversed run is read from its other end, its currents with the opposite sign. *)
TermV(tm, row, k, st) ==
  LET x == st[tm.map[row].o].v[tm.map[row].r + 1] IN tm.f (\X) x[IF tm.rev = 1 THEN Len(x) + 1 - k ELSE k]
TermI(tm, row, k, st) ==
  LET x == st[tm.map[row].o].i[tm.map[row].r + 1]
  IN IF tm.rev = 1 THEN RNeg(tm.fi (\X) x[Len(x) + 1 - k]) ELSE tm.fi (\X) x[k]
LinRel(fr, tr) ==
  LET n == Len(tr[fr.labs[1]])
      rows == 1..Len(fr.terms[1].map)
      st(tm, j) == tr[tm.lab][j].st
      t1 == fr.terms[1]
      nv(row) == Len(st(t1, 1)[t1.map[row].o].v[t1.map[row].r + 1])
      T == 1..Len(fr.terms)
      vals(j, row, k) == [x \in T |-> TermV(fr.terms[x], row, k, st(fr.terms[x], j))]
      curs(j, row, k) == [x \in T |-> TermI(fr.terms[x], row, k, st(fr.terms[x], j))]
      vmax == TLCEval(RMaxSeq([j \in 1..n |-> RMaxSeq([row \in rows |-> RMaxSeq([k \in 1..nv(row) |-> VMaxAbs(vals(j, row, k))])])]))
      imax == TLCEval(RMaxSeq([j \in 1..n |-> RMaxSeq([row \in rows |-> RMaxSeq([k \in 1..(nv(row)-1) |-> VMaxAbs(curs(j, row, k))])])]))
  IN n > 0 /\ \A j \in 1..n : \A row \in rows :
       /\ \A k \in 1..nv(row) : RAbs(RSum(vals(j, row, k))) \preceq (fr.tol (\X) vmax)
       /\ \A k \in 1..(nv(row)-1) : RAbs(RSum(curs(j, row, k))) \preceq (fr.tol (\X) imax)

(* Everything is exactly zero. *)
ZeroRel(fr, tr) ==
  LET x == tr[fr.labs[1]]
  IN Len(x) > 0 /\ \A j \in 1..Len(x) : \A o \in DOMAIN x[j].st :
       /\ \A a \in 1..Len(x[j].st[o].v) : \A k \in 1..Len(x[j].st[o].v[a]) : REq(x[j].st[o].v[a][k], 0)
       /\ \A a \in 1..Len(x[j].st[o].i) : \A k \in 1..Len(x[j].st[o].i[a]) : REq(x[j].st[o].i[a][k], 0)

(* Dependence: one step carries a change from a node to the cells that touch it and from a cell
   to the nodes that touch it; a network carries a change of any of its line ends to all of its
   line ends at once.  A set of changed places is a set of <<object, "v"|"i", index>>. *)
EndsOf(nw, O) == {<<nw.nodes[j].line, "v", NodeIx(O[nw.nodes[j].line], nw.nodes[j].side)>> : j \in 1..Len(nw.nodes)}
ViaCells(D, O) == {q \in UNION {{<<x[1], "v", x[3]>>, <<x[1], "v", x[3] + 1>>} : x \in {y \in D : y[2] = "i"}} : TRUE}
ViaNodes(D, O) == {q \in UNION {{<<x[1], "i", x[3] - 1>>, <<x[1], "i", x[3]>>} : x \in {y \in D : y[2] = "v"}} : q[3] >= 1 /\ q[3] <= O[q[1]].N}
ViaNets(D, nets, O) == D \cup UNION {IF EndsOf(nets[j], O) \cap D # {} THEN EndsOf(nets[j], O) ELSE {} : j \in 1..Len(nets)}
(* places that may differ after m steps, when `always` are disturbed in every step (a generator)
   and `start` before the first *)
RECURSIVE Cone(_, _, _, _, _)
Cone(m, start, always, nets, O) ==
  IF m = 0 THEN start
  ELSE LET D == Cone(m - 1, start, always, nets, O)
           v == ViaNets(D \cup ViaCells(D, O) \cup {x \in always : x[2] = "v"}, nets, O)
       IN TLCEval(v \cup ViaNodes(v, O) \cup {x \in always : x[2] = "i"})
ConeRel(fr, tr, O) ==
  LET a == tr[fr.labs[1]]  b == tr[fr.labs[2]]
      nets == IF fr.sys = "" THEN <<>> ELSE O[fr.sys].nets
      places(ps) == {<<ps[j].o, ps[j].q, ps[j].k + 1>> : j \in 1..Len(ps)}
      pr == fr.pairs                          \* sequence of [a, b]: object in the first and in the second run
      scale == TLCEval(RMaxSeq(Flatten([j \in 1..Len(a) |-> Flatten([p \in 1..Len(pr) |->
                  LET s == a[j].st[pr[p].a] q == b[j].st[pr[p].b] IN [r \in 1..Len(s.v) |-> RMax(VMaxAbs(s.v[r]), VMaxAbs(q.v[r]))]])])))
      scalei == TLCEval(RMaxSeq(Flatten([j \in 1..Len(a) |-> Flatten([p \in 1..Len(pr) |->
                  LET s == a[j].st[pr[p].a] q == b[j].st[pr[p].b] IN [r \in 1..Len(s.i) |-> RMax(VMaxAbs(s.i[r]), VMaxAbs(q.i[r]))]])])))
      tol == RPow(10, -12)
  IN \A j \in 1..Len(a) :
       LET D == Cone(IF j > fr.first THEN j - fr.first ELSE 0, places(fr.start), places(fr.always), nets, O)
           D2 == IF j > fr.first THEN D ELSE {}
       IN \A p \in 1..Len(pr) :
            LET s == a[j].st[pr[p].a]  q == b[j].st[pr[p].b]
            IN /\ \A r \in 1..Len(s.v) : \A k \in 1..Len(s.v[r]) :
                     <<pr[p].a, "v", k>> \in D2 \/ RAbs(s.v[r][k] (-) q.v[r][k]) \preceq (tol (\X) scale)
               /\ \A r \in 1..Len(s.i) : \A k \in 1..Len(s.i[r]) :
                     <<pr[p].a, "i", k>> \in D2 \/ RAbs(s.i[r][k] (-) q.i[r][k]) \preceq (tol (\X) scalei)

(* Ideal homogeneous line at the default time step: the forward wave v_k + Z i_{k-1} moves one cell
   per step, the backward wave v_k - Z i_k too, and at an end with resistances R the outgoing wave
   is (R - Z)(R + Z)^-1 times the incoming one.  Z is the velocity times the inductance matrix, its
   inverse the velocity times the capacitance matrix. *)
MaxOf(m) == RMaxSeq([a \in 1..Len(m) |-> VMaxAbs(m[a])])
MagicRel(fr, tr, O) ==
  LET x == tr[fr.labs[1]]  tl == O[fr.o]  n == tl.n
      lc == MMul(tl.l, tl.c)
      Zc == TLCEval(MScale(1 (/) RSqrt(lc[1][1], 160), tl.l))
      Yc == TLCEval(MScale(1 (/) RSqrt(lc[1][1], 160), tl.c))
      v(j, k) == Col(x[j].st[fr.o].v, k)
      i(j, k) == Col(x[j].st[fr.o].i, k)
      fw(j, k) == VAdd(v(j, k), MVec(Zc, i(j, k - 1)))
      bw(j, k) == VSub(v(j, k), MVec(Zc, i(j, k)))
      N == tl.N
      scale == TLCEval(RMaxSeq([j \in 1..Len(x) |->
                 MaxOf(x[j].st[fr.o].v) (+) (n (\X) MaxOf(Zc) (\X) MaxOf(x[j].st[fr.o].i))]))
      close(p, q) == \A a \in 1..n : RAbs(p[a] (-) q[a]) \preceq (fr.tol (\X) scale)
      \* resistance times the current (in - out)/2Z is the voltage (in + out)/2
      reflected(z, out, inc) ==
        LET p == MVec(Yc, VSub(inc, out))
        IN \A a \in 1..n : RAbs((z[a] (\X) p[a]) (-) (inc[a] (+) out[a])) \preceq (fr.tol (\X) scale (\X) (1 (+) (n (\X) z[a] (\X) MaxOf(Yc))))
      quiet(node) == \A m \in 1..Len(tl.vs) : tl.vs[m].node # node
  IN /\ Len(x) > 1
     /\ \A j \in 1..(Len(x)-1) :
         /\ \A k \in 2..N : close(fw(j+1, k+1), fw(j, k))
         /\ \A k \in 1..(N-1) : close(bw(j+1, k), bw(j, k+1))
         /\ quiet(N + 1) => reflected(tl.zl, bw(j+1, N), fw(j, N+1))
         /\ quiet(1) => reflected(tl.zs, fw(j+1, 2), bw(j, 1))

(* The last state of a long run has at most the energy at its start. *)
BoundRel(fr, tr, O) ==
  LET a == tr[fr.labs[1]]
      En(st) == RSum([j \in 1..Len(fr.objs) |-> LineEnergy(O[fr.objs[j]], st[fr.objs[j]], O[fr.objs[j]].dt)])
  IN En(a[Len(a)].st) \preceq (En(a[1].st) (\X) (1 (+) RPow(10, -6)))

Related(fr, tr, O) ==
  IF ~SameLength(fr, tr) THEN FALSE
  ELSE CASE fr.k = "lin" -> LinRel(fr, tr)
         [] fr.k = "zero" -> ZeroRel(fr, tr)
         [] fr.k = "cone" -> ConeRel(fr, tr, O)
         [] fr.k = "magic" -> MagicRel(fr, tr, O)
         [] fr.k = "bound" -> BoundRel(fr, tr, O)

-----------------------------------------------------------------------------
(* Ports.  The port voltage is the mean of the two nodes of the end cell, its current the mean
   of the cell's current over the step, into the line; waves are those of the discrete Fourier
   transform of these (n samples, frequencies ordered from the most negative). *)
Cis(x) == <<RCos(x, 120), RSin(x, 120)>>
Dft(xs, k) ==                         \* sum of x_m exp(-2 pi i k m/n)
  LET n == Len(xs)
      z(m) == CScale(xs[m], Cis(RNeg((2 (\X) RPi(140) (\X) (k * (m - 1))) (/) n)))
      zs == TLCEval([m \in 1..n |-> z(m)])
  IN <<RSum([m \in 1..n |-> zs[m][1]]), RSum([m \in 1..n |-> zs[m][2]])>>
PortRes(fr) ==
  LET n == Len(fr.v0)
      v == [m \in 1..n |-> Half (\X) (fr.v0[m] (+) fr.v1[m])]
      i == [m \in 1..n |-> (IF fr.term = "L" THEN -1 ELSE 1) (\X) Half (\X) (fr.i0[m] (+) fr.i0[IF m = 1 THEN 1 ELSE m - 1])]
      k(j) == (j - 1) - (n \div 2)
      rz == RSqrt(fr.z0, 160)
      scale == (RSumAbs(v) (+) (fr.z0 (\X) RSumAbs(i))) (/) rz
      near(p, q) == /\ RAbs(p[1] (-) q[1]) \preceq (RPow(10, -9) (\X) scale)
                    /\ RAbs(p[2] (-) q[2]) \preceq (RPow(10, -9) (\X) scale)
      one(j) ==
        LET V == Dft(v, k(j))  I == Dft(i, k(j))
            a == CScale(1 (/) (2 (\X) rz), CAdd(V, CScale(fr.z0, I)))
            b == CScale(1 (/) (2 (\X) rz), CSub(V, CScale(fr.z0, I)))
            f == k(j) (/) (n (\X) fr.dt)
        IN <<[c |-> "port waves", ok |-> near(fr.a[j], a) /\ near(fr.b[j], b), w |-> j],
             [c |-> "port frequencies", ok |-> RAbs(fr.f[j] (-) f) \preceq (RPow(10, -9) (/) fr.dt), w |-> j]>>
  IN IF Len(fr.a) # n \/ Len(fr.b) # n \/ Len(fr.f) # n
     THEN <<[c |-> "port frames", ok |-> FALSE, w |-> ""]>>
     ELSE Flatten([j \in 1..n |-> one(j)])

(* Scattering parameters: ratios of the waves of two ports; and those of two runs of a line, one
   excited at each of its ends: reciprocity, passivity and independence of the amplitude. *)
CNear(p, q, tol) == RAbs(p[1] (-) q[1]) \preceq tol /\ RAbs(p[2] (-) q[2]) \preceq tol
CSize(p) == RAbs(p[1]) (+) RAbs(p[2])
SparamRes(fr) ==
  LET one(m, r, k, a, b) ==
        LET x == CMul(fr.s[m][r][k], a)
        IN IF REq(CSize(a), 0) THEN TRUE ELSE CNear(x, b, RPow(10, -9) (\X) (CSize(b) (+) CSize(x)))
  IN [m \in 1..Len(fr.s) |-> [c |-> "scattering", w |-> m,
        ok |-> /\ one(m, 1, 1, fr.a1[m], fr.b1[m]) /\ one(m, 2, 1, fr.a1[m], fr.b2[m])
               /\ one(m, 1, 2, fr.a2[m], fr.b1[m]) /\ one(m, 2, 2, fr.a2[m], fr.b2[m])]]
CAbs2(z) == (z[1] (\X) z[1]) (+) (z[2] (\X) z[2])
TwoPortRes(fr) ==
  LET pc == RPow(10, -2)
      n == Len(fr.a)
  IN <<[c |-> "reciprocal", w |-> "", ok |-> n > 0 /\ Len(fr.b) = n /\ \A m \in 1..n : CNear(fr.a[m][2], fr.b[m][2], 2 (\X) pc)],
       [c |-> "amplitude", w |-> "", ok |-> Len(fr.c) = n /\ \A m \in 1..n : \A x \in 1..2 : CNear(fr.a[m][x], fr.c[m][x], RPow(10, -6))],
       [c |-> "passive", w |-> "", ok |-> \A m \in 1..n : (CAbs2(fr.a[m][1]) (+) CAbs2(fr.a[m][2])) \preceq (1 (+) (2 (\X) pc))],
       [c |-> "lossless", w |-> "", ok |-> fr.lossless = 1 => \A m \in 1..n : (1 (-) (2 (\X) pc)) \preceq (CAbs2(fr.a[m][1]) (+) CAbs2(fr.a[m][2]))]>>
=============================================================================
