------------------------------ MODULE FftSize ------------------------------
(* Transform lengths: the smallest product of powers of 2, 3, 5, 7 that is  *)
(* not below the request (and even, where the caller needs an even length). *)
EXTENDS Num

RECURSIVE Strip(_, _)
Strip(n, p) == IF n % p = 0 THEN Strip(n \div p, p) ELSE n

Smooth(n) == Strip(Strip(Strip(Strip(n, 2), 3), 5), 7) = 1

Good(m, even) == Smooth(m) /\ (even => m % 2 = 0)

(* n = 1 is its own answer also where an even length is asked for: a grid   *)
(* of one cell and no padding is not transformed along that axis at all.    *)
FftLen(n, even) ==
  IF n = 1 THEN 1 ELSE CHOOSE m \in n .. 2*n : Good(m, even) /\ \A k \in n .. m-1 : ~Good(k, even)

(* The same value by a linear scan (the definition above is quadratic);    *)
(* FftLenAgree is checked by TLC for all small n.                           *)
RECURSIVE ScanLen(_, _)
ScanLen(m, even) == IF Good(m, even) THEN m ELSE ScanLen(m + 1, even)
FftLenFast(n, even) == IF n = 1 THEN 1 ELSE ScanLen(n, even)

FftLenAgree(N) == \A n \in 1 .. N, e \in BOOLEAN : FftLen(n, e) = FftLenFast(n, e)

(* All lengths up to 2^31 by generation, and the rule as a minimum over     *)
(* them: the same value again, for requests too large to scan.              *)
Limit == 2147483647
RECURSIVE PowersUpTo(_, _)
PowersUpTo(p, x) == IF x > Limit \div p THEN {x} ELSE {x} \cup PowersUpTo(p, x * p)
AllProds(A, B) == {a * b : <<a, b>> \in {ab \in A \X B : ab[1] <= Limit \div ab[2]}}
SmoothSet == AllProds(AllProds(PowersUpTo(2, 1), PowersUpTo(3, 1)), AllProds(PowersUpTo(5, 1), PowersUpTo(7, 1)))
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
FftLenSet(S, n, even) == IF n = 1 THEN 1 ELSE Least({m \in S : m >= n /\ (even => m % 2 = 0)})
============================================================================
