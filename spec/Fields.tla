------------------------------- MODULE Fields -------------------------------
(* Incident electric fields as functions of position and time, and the       *)
(* source terms with which they excite a line (Taylor/Agrawal).              *)
EXTENDS Waves

(* a polynomial component is a sequence of monomials <<coef, px, py, pz, pt>> *)
Mono(m, p, t) == m[1] (\X) RPow(p[1], m[2]) (\X) RPow(p[2], m[3]) (\X) RPow(p[3], m[4]) (\X) RPow(t, m[5])
Poly4(ms, p, t) == RSum([j \in 1..Len(ms) |-> Mono(ms[j], p, t)])

(* Direction from which a plane wave arrives and its electric vector. *)
Arrival(f) == LET cp == RCos(f.polar, WB) sp == RSin(f.polar, WB)
              IN TLCEval(<<cp, sp (\X) RCos(f.azimuth, WB), sp (\X) RSin(f.azimuth, WB)>>)
EVector(f) ==
  LET cp == RCos(f.polar, WB)    sp == RSin(f.polar, WB)
      ca == RCos(f.azimuth, WB)  sa == RSin(f.azimuth, WB)
      cd == RCos(f.pol, WB)      sd == RSin(f.pol, WB)
  IN TLCEval(<<sd (\X) sp,
       RNeg(sd (\X) cp (\X) ca) (-) (cd (\X) sa),
       (cd (\X) ca) (-) (sd (\X) cp (\X) sa)>>)

(* field vector at p, t.  vel is the velocity a field may refer to: the fastest mode *)
E(f, p, t, vel) ==
  CASE f.k = "poly" -> <<Poly4(f.x, p, t), Poly4(f.y, p, t), Poly4(f.z, p, t)>>
    [] f.k = "moving" ->   \* components are waveforms of t + (d . p)/v
         LET s == t (+) (Dot3(f.d, p) (/) vel) IN <<Horner(f.x, s), Horner(f.y, s), Horner(f.z, s)>>
    [] f.k = "plane" ->
         LET s == t (+) (Dot3(f.arr, p) (/) vel)
             a == Horner(f.c, s)
         IN VScale(a, f.ev)
Prepared(f) == IF f.k = "plane" THEN [k |-> "plane", c |-> f.c, arr |-> Arrival(f), ev |-> EVector(f)] ELSE f

(* Longitudinal term of a cell from a to b, conductor displaced by d from its reference. *)
LongTerm(f, a, b, len, d, t, vel) ==
  LET mid == VScale(1 (/) 2, VAdd(a, b))  dir == VScale(1 (/) len, VSub(b, a))
  IN Dot3(dir, VSub(E(f, VAdd(mid, d), t, vel), E(f, mid, t, vel)))
(* Transverse term of a node: line integral from reference to conductor (Boole's rule, exact up
   to degree five along the path). *)
TransTerm(f, p, d, t, vel) ==
  LET at(s) == Dot3(d, E(f, VAdd(p, VScale(s, d)), t, vel))
  IN RSum(<<7 (\X) at(0), 32 (\X) at(1 (/) 4), 12 (\X) at(1 (/) 2), 32 (\X) at(3 (/) 4), 7 (\X) at(1)>>) (/) 90
=============================================================================
