-------------------------------- MODULE Num --------------------------------
(* Small integer helpers shared by all modules.  All arithmetic is integer  *)
(* (TLC integers are 32 bit): lengths are integer multiples of a unit that  *)
(* cancels, variogram ratios are in thousandths.                            *)
EXTENDS Integers, Sequences, FiniteSets

Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b
Abs(a)    == IF a >= 0 THEN a ELSE -a

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdSeq(Tail(s))

(* The values a C++ truncation of the real number a/b (a >= 0, b > 0) may   *)
(* give when a/b is first rounded to a double: exact unless a/b is itself   *)
(* an integer, where a rounding error may drop it below.                    *)
TruncSet(a, b) == IF a % b = 0 /\ a > 0 THEN {a \div b, a \div b - 1} ELSE {a \div b}
============================================================================
