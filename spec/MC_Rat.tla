------------------------------- MODULE MC_Rat -------------------------------
(* The arithmetic that TLC evaluates is an ordered field, agrees with the   *)
(* definitions over pairs, and its elementary functions satisfy their laws. *)
EXTENDS Rat, TLC
CONSTANT N
VARIABLES a, b, c
Num == {p (/) q : p \in -N..N, q \in 1..N}
Init == a \in Num /\ b \in Num /\ c \in Num
Next == UNCHANGED <<a, b, c>>
Field ==
  /\ a (+) b = b (+) a /\ a (\X) b = b (\X) a
  /\ (a (+) b) (+) c = a (+) (b (+) c) /\ (a (\X) b) (\X) c = a (\X) (b (\X) c)
  /\ a (\X) (b (+) c) = (a (\X) b) (+) (a (\X) c)
  /\ a (+) RNeg(a) = 0 /\ a (-) b = a (+) RNeg(b)
  /\ (b # 0 => (a (/) b) (\X) b = a)
  /\ (b = 0 => ~RIsNum(a (/) b) /\ ~((a (/) b) \preceq c) /\ ~(c \preceq (a (/) b)))
Order ==
  /\ (a \preceq b) = ~(b \prec a)
  /\ (a \preceq b /\ b \preceq c => a \preceq c)
  /\ (a \preceq b => a (+) c \preceq b (+) c)
  /\ (a \preceq b /\ 0 \preceq c => a (\X) c \preceq b (\X) c)
  /\ RAbs(a) = IF a \prec 0 THEN RNeg(a) ELSE a
  /\ (RFloor(a) \preceq a /\ a \prec RFloor(a) + 1)
  /\ (a = b) = REq(a, b)
Sums ==
  /\ RSum(<<a, b, c>>) = a (+) b (+) c
  /\ RSumAbs(<<a, b>>) = RAbs(a) (+) RAbs(b)
  /\ RDot(<<a, b>>, <<b, c>>) = (a (\X) b) (+) (b (\X) c)
  /\ RDotAbs(<<a, b>>, <<b, c>>) = RAbs(a (\X) b) (+) RAbs(b (\X) c)
Tiny == RPow(2, -100)
Near(x, y) == RAbs(x (-) y) \preceq Tiny (\X) (1 (+) RAbs(x))
Elementary ==
  /\ (0 \preceq a => Near(RSqrt(a, 120) (\X) RSqrt(a, 120), a))
  /\ Near(RExp(a (+) b, 140), RExp(a, 140) (\X) RExp(b, 140))
  /\ Near(RPow(RSin(a, 120), 2) (+) RPow(RCos(a, 120), 2), 1)
  /\ Near(RSin(a (+) b, 120), (RSin(a, 120) (\X) RCos(b, 120)) (+) (RCos(a, 120) (\X) RSin(b, 120)))
  /\ Near(RSin(RPi(140), 120), 0) /\ Near(RCos(RPi(140), 120), -1)
  /\ (a # 0 => RAbs(RRound(a, 60) (-) a) \preceq RAbs(a) (\X) RPow(2, -59))
  /\ (0 \prec a => 1 (+) a \prec RExp(a, 100) /\ RSin(a, 100) \prec a)
(* agreement with the definitions over pairs *)
PAdd(x, y) == <<x[1]*y[2] + y[1]*x[2], x[2]*y[2]>>
PMul(x, y) == <<x[1]*y[1], x[2]*y[2]>>
Val(p) == p[1] (/) p[2]
ASSUME \A x \in (-N..N) \X (1..N), y \in (-N..N) \X (1..N) :
  /\ Val(x) (+) Val(y) = Val(PAdd(x, y)) /\ Val(x) (\X) Val(y) = Val(PMul(x, y))
  /\ (Val(x) \prec Val(y)) = (x[1]*y[2] < y[1]*x[2]) /\ RFloor(Val(x)) = x[1] \div x[2]
=============================================================================
