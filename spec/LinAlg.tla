------------------------------- MODULE LinAlg -------------------------------
(* Vectors are sequences of numbers, matrices sequences of rows.            *)
EXTENDS Rat, TLC, FiniteSets

Vec(n, f(_)) == TLCEval([j \in 1..n |-> f(j)])
ZeroVec(n) == [j \in 1..n |-> 0]
ZeroMat(n, m) == [j \in 1..n |-> ZeroVec(m)]
IdMat(n) == [j \in 1..n |-> [k \in 1..n |-> IF j = k THEN 1 ELSE 0]]
VAdd(a, b) == [j \in 1..Len(a) |-> a[j] (+) b[j]]
VSub(a, b) == [j \in 1..Len(a) |-> a[j] (-) b[j]]
VScale(k, a) == [j \in 1..Len(a) |-> k (\X) a[j]]
VAbs(a) == [j \in 1..Len(a) |-> RAbs(a[j])]
VMaxAbs(a) == RMaxSeq(VAbs(a))
MAdd(a, b) == [j \in 1..Len(a) |-> VAdd(a[j], b[j])]
MScale(k, a) == [j \in 1..Len(a) |-> VScale(k, a[j])]
MRound(a, bits) == [j \in 1..Len(a) |-> TLCEval([k \in 1..Len(a[j]) |-> RRound(a[j][k], bits)])]
MVec(a, x) == [j \in 1..Len(a) |-> RDot(a[j], x)]
Transpose(a) == [k \in 1..Len(a[1]) |-> [j \in 1..Len(a) |-> a[j][k]]]
MMul(a, b) == LET t == Transpose(b) IN [j \in 1..Len(a) |-> [k \in 1..Len(t) |-> RDot(a[j], t[k])]]
IsSquare(a) == \A j \in 1..Len(a) : Len(a[j]) = Len(a)
Diag(d) == [j \in 1..Len(d) |-> [k \in 1..Len(d) |-> IF j = k THEN d[j] ELSE 0]]
Col(a, k) == TLCEval([j \in 1..Len(a) |-> a[j][k]])

(* Gaussian elimination: the solution of a x = b for a regular matrix a. *)
RECURSIVE Elim(_, _, _)
Elim(a, b, col) ==
  IF col > Len(a) THEN b
  ELSE LET n == Len(a)
           p == CHOOSE j \in col..n : ~REq(a[j][col], 0)
           sw(j) == IF j = col THEN p ELSE IF j = p THEN col ELSE j
           piv == a[p][col]
           row == VScale(1 (/) piv, a[p])
           rb == b[p] (/) piv
           a2 == TLCEval([j \in 1..n |-> IF j = col THEN row
                                         ELSE VSub(a[sw(j)], VScale(a[sw(j)][col], row))])
           b2 == TLCEval([j \in 1..n |-> IF j = col THEN rb
                                         ELSE b[sw(j)] (-) (a[sw(j)][col] (\X) rb)])
       IN Elim(a2, b2, col + 1)
Solve(a, b) == Elim(a, b, 1)

RECURSIVE Det(_)
Det(a) == IF Len(a) = 1 THEN a[1][1]
          ELSE LET n == Len(a)
                   Minor(k) == [j \in 1..(n-1) |-> [m \in 1..(n-1) |-> a[j+1][IF m < k THEN m ELSE m+1]]]
                   T(k) == (IF k % 2 = 1 THEN a[1][k] ELSE RNeg(a[1][k])) (\X) Det(Minor(k))
               IN RSum([k \in 1..n |-> T(k)])
Trace(a) == RSum([j \in 1..Len(a) |-> a[j][j]])

(* 3-vectors *)
Dot3(a, b) == RDot(a, b)
Norm2(a) == RDot(a, a)
Bits == 160
Norm(a) == RSqrt(Norm2(a), Bits)
Cross(a, b) == <<(a[2] (\X) b[3]) (-) (a[3] (\X) b[2]),
                 (a[3] (\X) b[1]) (-) (a[1] (\X) b[3]),
                 (a[1] (\X) b[2]) (-) (a[2] (\X) b[1])>>

Count(s, P(_)) == Cardinality({j \in 1..Len(s) : P(s[j])})
RECURSIVE SumInt(_)
SumInt(s) == IF s = <<>> THEN 0 ELSE s[1] + SumInt(Tail(s))
=============================================================================
