----------------------------- MODULE Dispersion -----------------------------
(* Pole-residue impedances, discretised by exact convolution with a current  *)
(* that varies linearly within each step.  A complex number is <<re, im>>.   *)
EXTENDS LinAlg
DB == 160
CAdd(a, b) == <<a[1] (+) b[1], a[2] (+) b[2]>>
CSub(a, b) == <<a[1] (-) b[1], a[2] (-) b[2]>>
CMul(a, b) == <<(a[1] (\X) b[1]) (-) (a[2] (\X) b[2]), (a[1] (\X) b[2]) (+) (a[2] (\X) b[1])>>
CScale(k, a) == <<k (\X) a[1], k (\X) a[2]>>
CInv(a) == LET m == (a[1] (\X) a[1]) (+) (a[2] (\X) a[2]) IN <<a[1] (/) m, RNeg(a[2]) (/) m>>
CDiv(a, b) == CMul(a, CInv(b))
CExp(a) == CScale(RExp(a[1], DB), <<RCos(a[2], DB), RSin(a[2], DB)>>)
CRound(a) == <<RRound(a[1], DB), RRound(a[2], DB)>>
One == <<1, 0>>

(* The memory m(t) = integral of r exp(p (t - s)) i(s) ds obeys m' = p m + r i; over one step of
   length h, with i linear from i0 to i1,
     m1 = exp(p h) m0 + r i0 (exp(x)(1 - 1/x) + 1/x)/p ... (see Q1, Q2, Q3), x = p h.      *)
Q3(p, h) == CRound(CExp(CScale(h, p)))
Q1(p, r, h) ==
  LET x == CScale(h, p)
  IN CRound(CScale(-1, CMul(CDiv(r, p), CSub(One, CDiv(CSub(CExp(x), One), x)))))
Q2(p, r, h) ==
  LET x == CScale(h, p)
  IN CRound(CMul(CDiv(r, p), CAdd(CInv(x), CMul(CExp(x), CSub(One, CInv(x))))))
Coefs(el, h) == TLCEval([j \in 1..Len(el.p) |-> [q1 |-> Q1(el.p[j], el.q[j], h), q2 |-> Q2(el.p[j], el.q[j], h), q3 |-> Q3(el.p[j], h)]])
NoMemory(el) == [j \in 1..Len(el.p) |-> <<0, 0>>]
(* memory after a step, rounded so that exact numbers stay of bounded size *)
Memory(cf, m, i0, i1) ==
  TLCEval([j \in 1..Len(cf) |-> CRound(CAdd(CAdd(CScale(i1, cf[j].q1), CScale(i0, cf[j].q2)), CMul(cf[j].q3, m[j])))])
(* voltage per unit length of the pole part at the end of the step *)
PoleDrop(cf, m, i0, i1) == RSum([j \in 1..Len(cf) |-> Memory(cf, m, i0, i1)[j][1]])
=============================================================================
