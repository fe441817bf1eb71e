-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic.  TLC's integers have 32 bits, which is far   *)
(* too small for a specification of a numerical simulator, so a number is  *)
(* an abstract value that TLC evaluates with spec/java/Rat.java (big       *)
(* integers).  A definition here gives the meaning of each operator over   *)
(* pairs <<numerator, denominator>>; MC_Rat checks the field and order     *)
(* axioms of the Java evaluation and its agreement with these definitions. *)
(* Integers are accepted wherever a number is.  An undefined result        *)
(* (division by zero, a NaN or infinity observed in the implementation)    *)
(* is a number for which every comparison is FALSE, so that a test of the  *)
(* form "residual <= tolerance" fails on it.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences

RAdd(a, b) == <<a[1]*b[2] + b[1]*a[2], a[2]*b[2]>>
RSub(a, b) == <<a[1]*b[2] - b[1]*a[2], a[2]*b[2]>>
RMul(a, b) == <<a[1]*b[1], a[2]*b[2]>>
RDiv(a, b) == IF b[1] > 0 THEN <<a[1]*b[2], a[2]*b[1]>> ELSE <<-(a[1]*b[2]), -(a[2]*b[1])>>
RNeg(a) == <<-a[1], a[2]>>
RAbs(a) == IF a[1] < 0 THEN <<-a[1], a[2]>> ELSE a
RLt(a, b) == a[1]*b[2] < b[1]*a[2]
RLe(a, b) == a[1]*b[2] <= b[1]*a[2]
REq(a, b) == a[1]*b[2] = b[1]*a[2]
RFloor(a) == a[1] \div a[2]            \* an integer (saturated at 32 bits by TLC)
RIsNum(a) == TRUE                      \* FALSE for the undefined number
RRound(a, bits) == a                   \* to the given number of significant bits
RStr(a) == "a"                         \* decimal text, for messages

a (+) b == RAdd(a, b)
a (-) b == RSub(a, b)
a (\X) b == RMul(a, b)
a (/) b == RDiv(a, b)
a \prec b == RLt(a, b)
a \preceq b == RLe(a, b)
a \succ b == RLt(b, a)
a \succeq b == RLe(b, a)

RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RMin(a, b) == IF RLe(a, b) THEN a ELSE b

(* sums over sequences of numbers *)
RECURSIVE RSum(_), RSumAbs(_), RDot(_, _), RDotAbs(_, _)
RSum(s) == IF s = <<>> THEN <<0, 1>> ELSE RAdd(s[1], RSum(Tail(s)))
RSumAbs(s) == IF s = <<>> THEN <<0, 1>> ELSE RAdd(RAbs(s[1]), RSumAbs(Tail(s)))
RDot(s, t) == IF s = <<>> THEN <<0, 1>> ELSE RAdd(RMul(s[1], t[1]), RDot(Tail(s), Tail(t)))
RDotAbs(s, t) == IF s = <<>> THEN <<0, 1>> ELSE RAdd(RAbs(RMul(s[1], t[1])), RDotAbs(Tail(s), Tail(t)))

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flatten(Tail(ss))

RECURSIVE RMaxSeq(_)
RMaxSeq(s) == IF Len(s) = 1 THEN s[1] ELSE RMax(s[1], RMaxSeq(Tail(s)))
RECURSIVE RMinSeq(_)
RMinSeq(s) == IF Len(s) = 1 THEN s[1] ELSE RMin(s[1], RMinSeq(Tail(s)))

(* powers with an integer exponent *)
RECURSIVE RPow(_, _)
RPow(a, n) == IF n = 0 THEN 1 ELSE IF n < 0 THEN 1 (/) RPow(a, -n) ELSE a (\X) RPow(a, n - 1)

(* transcendental functions to a number of significant bits: no TLA+ definition, given by Rat.java *)
RSqrt(a, bits) == CHOOSE x \in {} : TRUE
RExp(a, bits) == CHOOSE x \in {} : TRUE
RSin(a, bits) == CHOOSE x \in {} : TRUE
RCos(a, bits) == CHOOSE x \in {} : TRUE
RPi(bits) == CHOOSE x \in {} : TRUE

(* observations of the implementation (JSON) and reports; given by Rat.java *)
RLoad(path) == CHOOSE x \in {} : TRUE
REmit(path, v) == TRUE
=============================================================================
