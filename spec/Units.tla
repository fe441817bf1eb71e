------------------------------- MODULE Units --------------------------------
(***************************************************************************)
(* The same system described in other units.  u = [x, t, z, v]: how many   *)
(* new units make an old one, of length, time, resistance and voltage; the *)
(* other quantities follow.  What is computed may only change as voltages  *)
(* (by v) and currents (by v/z) do.                                        *)
(***************************************************************************)
EXTENDS Waves

SameUnits == [x |-> 1, t |-> 1, z |-> 1, v |-> 1]
SeqS(s, f) == [j \in 1..Len(s) |-> f (\X) s[j]]
MatS(m, f) == [j \in 1..Len(m) |-> SeqS(m[j], f)]
(* an argument given as a number, a list or a matrix *)
ArgS(a, f) == IF "s" \in DOMAIN a THEN [s |-> f (\X) a.s] ELSE IF "v" \in DOMAIN a THEN [v |-> SeqS(a.v, f)] ELSE [m |-> MatS(a.m, f)]
(* a function of time with values in units of f *)
RECURSIVE WaveS(_, _, _)
WaveS(w, u, f) ==
  CASE w.k = "zero" -> w
    [] w.k = "poly" -> [w EXCEPT !.c = [j \in 1..Len(w.c) |-> (f (\X) w.c[j]) (/) RPow(u.t, j - 1)]]
    [] w.k = "step" -> [w EXCEPT !.a = f (\X) @, !.t0 = u.t (\X) @]
    [] w.k = "pwl" -> [w EXCEPT !.pts = [j \in 1..Len(w.pts) |-> <<u.t (\X) w.pts[j][1], f (\X) w.pts[j][2]>>]]
    [] w.k = "scaled" -> [w EXCEPT !.w = WaveS(w.w, u, f)]
    [] w.k = "sum" -> [w EXCEPT !.ws = [j \in 1..Len(w.ws) |-> WaveS(w.ws[j], u, f)]]
MonoS(m, u) == <<(u.v (\X) m[1]) (/) (RPow(u.x, m[2] + m[3] + m[4] + 1) (\X) RPow(u.t, m[5])), m[2], m[3], m[4], m[5]>>
CompS(c, u) == [j \in 1..Len(c) |-> MonoS(c[j], u)]
FieldS(f, u) ==
  CASE f.k = "poly" -> [f EXCEPT !.x = CompS(f.x, u), !.y = CompS(f.y, u), !.z = CompS(f.z, u)]
    [] f.k = "plane" -> [f EXCEPT !.c = [j \in 1..Len(f.c) |-> (u.v (\X) f.c[j]) (/) (u.x (\X) RPow(u.t, j - 1))]]
    [] f.k = "moving" -> LET co(c) == [j \in 1..Len(c) |-> (u.v (\X) c[j]) (/) (u.x (\X) RPow(u.t, j - 1))]
                         IN [f EXCEPT !.x = co(f.x), !.y = co(f.y), !.z = co(f.z)]
(* an impedance d + e s + sum of q/(s - p) in units of f *)
ImpS(a, u, f) == [a EXCEPT !.d = f (\X) @, !.e = f (\X) u.t (\X) @,
                           !.p = [j \in 1..Len(a.p) |-> SeqS(a.p[j], 1 (/) u.t)], !.q = [j \in 1..Len(a.q) |-> SeqS(a.q[j], f (/) u.t)]]
BranchS(b, u) == [b EXCEPT !.R = u.z (\X) @, !.L = u.z (\X) u.t (\X) @, !.C = (u.t (/) u.z) (\X) @, !.w = WaveS(b.w, u, u.v)]
Scaled(fr, u) ==
  LET a == fr.a IN
  CASE fr.op = "mtl" ->
         [fr EXCEPT !.a = [a EXCEPT !.l = ArgS(a.l, (u.z (\X) u.t) (/) u.x), !.c = ArgS(a.c, u.t (/) (u.z (\X) u.x)), !.r = ArgS(a.r, u.z (/) u.x),
                                    !.g = ArgS(a.g, 1 (/) (u.z (\X) u.x)), !.zs = ArgS(a.zs, u.z), !.zl = ArgS(a.zl, u.z), !.pts = MatS(a.pts, u.x)]]
    [] fr.op = "source" -> [fr EXCEPT !.a = [a EXCEPT !.pos = SeqS(a.pos, u.x), !.w = WaveS(a.w, u, u.v)]]
    [] fr.op = "res" -> [fr EXCEPT !.a = [a EXCEPT !.a = SeqS(a.a, u.x), !.b = SeqS(a.b, u.x), !.val = u.z (\X) @]]
    [] fr.op = "cond" -> [fr EXCEPT !.a = [a EXCEPT !.a = SeqS(a.a, u.x), !.b = SeqS(a.b, u.x), !.val = @ (/) u.z]]
    [] fr.op = "lumped" -> [fr EXCEPT !.a = [ImpS(a, u, u.z) EXCEPT !.pos = SeqS(a.pos, u.x)]]
    [] fr.op \in {"zt", "ztc"} -> [fr EXCEPT !.a = ImpS(a, u, u.z (/) u.x)]
    [] fr.op = "probe" -> [fr EXCEPT !.a = [a EXCEPT !.pos = SeqS(a.pos, u.x)]]
    [] fr.op = "dist" -> [fr EXCEPT !.a = [a EXCEPT !.a = SeqS(a.a, u.x), !.b = SeqS(a.b, u.x), !.w = WaveS(a.w, u, u.v (/) u.x)]]
    [] fr.op = "field" -> [fr EXCEPT !.a = [a EXCEPT !.f = FieldS(a.f, u), !.dist = [j \in 1..Len(a.dist) |-> MatS(a.dist[j], u.x)], !.loc = MatS(a.loc, u.x)]]
    [] fr.op = "state" -> [fr EXCEPT !.a = [v |-> MatS(a.v, u.v), i |-> MatS(a.i, u.v (/) u.z)]]
    [] fr.op = "setdt" -> [fr EXCEPT !.a = [a EXCEPT !.T = u.t (\X) @]]
    [] fr.op = "run" -> [fr EXCEPT !.a = [T |-> u.t (\X) a.T, dt |-> u.t (\X) a.dt]]
    [] fr.op = "net" -> [fr EXCEPT !.a = [parts |-> [j \in 1..Len(a.parts) |-> [a.parts[j] EXCEPT !.br = [m \in 1..Len(a.parts[j].br) |-> BranchS(a.parts[j].br[m], u)]]]]]
    [] OTHER -> fr
(* a function of time that happens d later *)
RECURSIVE Later(_, _)
Later(w, d) ==
  CASE w.k = "zero" -> w
    [] w.k = "step" -> [w EXCEPT !.t0 = @ (+) d]
    [] w.k = "pwl" -> [w EXCEPT !.pts = [j \in 1..Len(w.pts) |-> <<w.pts[j][1] (+) d, w.pts[j][2]>>]]
    [] w.k = "scaled" -> [w EXCEPT !.w = Later(w.w, d)]
    [] w.k = "sum" -> [w EXCEPT !.ws = [j \in 1..Len(w.ws) |-> Later(w.ws[j], d)]]
Postponed(fr, d) ==
  LET a == fr.a IN
  CASE fr.op \in {"source", "dist"} -> [fr EXCEPT !.a = [a EXCEPT !.w = Later(a.w, d)]]
    [] fr.op = "net" -> [fr EXCEPT !.a = [parts |-> [j \in 1..Len(a.parts) |-> [a.parts[j] EXCEPT !.br = [m \in 1..Len(a.parts[j].br) |-> [a.parts[j].br[m] EXCEPT !.w = Later(@, d)]]]]]]
    [] OTHER -> fr
=============================================================================
