-------------------------------- MODULE Rat --------------------------------
(* Rational numbers <<n, d>> in lowest terms, d > 0.                         *)
EXTENDS Integers, Sequences
RAbs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Q(n, d) == IF d = 1 THEN <<n, 1>> ELSE LET g == Gcd(RAbs(n), RAbs(d)) s == IF d < 0 THEN -1 ELSE 1 IN << s * (n \div g), s * (d \div g) >>
QI(n) == <<n, 1>>
QAdd(a, b) == IF a[2] = 1 /\ b[2] = 1 THEN <<a[1] + b[1], 1>> ELSE LET g == Gcd(a[2], b[2]) IN Q(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
QSub(a, b) == QAdd(a, <<-b[1], b[2]>>)
QMul(a, b) == IF a[2] = 1 /\ b[2] = 1 THEN <<a[1] * b[1], 1>> ELSE Q(a[1] * b[1], a[2] * b[2])
QDiv(a, b) == Q(a[1] * b[2], a[2] * b[1])
QLess(a, b) == IF a[2] = b[2] THEN a[1] < b[1] ELSE a[1] * b[2] < b[1] * a[2]
(* small enough that the operations above stay within TLC's integers         *)
QSmall(a) == RAbs(a[1]) <= 2000 /\ 6720 % a[2] = 0
RECURSIVE QSum(_)
QSum(s) == IF s = <<>> THEN QI(0) ELSE QAdd(s[1], QSum(Tail(s)))
=============================================================================
