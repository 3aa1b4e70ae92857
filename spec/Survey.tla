------------------------------- MODULE Survey -------------------------------
(* A survey: inlines and crosslines crossing at right angles.  Step k of the *)
(* inlines moves by the integer vector u, step k of the crosslines by w.     *)
(* Positions are also given in eighths of a step, all exactly in integers.   *)
EXTENDS Integers, Sequences, FiniteSets

Perp(c) == c.u[1] * c.w[1] + c.u[2] * c.w[2] = 0
IL(c, a) == c.il0 + a * c.sI
XL(c, b) == c.xl0 + b * c.sX
(* eight times the position of a point given in eighths of steps *)
Pos8(c, a8, b8) == << 8 * c.o[1] + a8 * c.u[1] + b8 * c.w[1], 8 * c.o[2] + a8 * c.u[2] + b8 * c.w[2] >>
IL8(c, a8) == 8 * c.il0 + a8 * c.sI
XL8(c, b8) == 8 * c.xl0 + b8 * c.sX
Inside(c, a8, b8) == a8 > -4 /\ a8 < 8 * c.nI - 4 /\ b8 > -4 /\ b8 < 8 * c.nX - 4
Cell(a8) == (a8 + 4) \div 8

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
MinIL(c) == Min2(IL(c, 0), IL(c, c.nI - 1))
MaxIL(c) == Max2(IL(c, 0), IL(c, c.nI - 1))
MinXL(c) == Min2(XL(c, 0), XL(c, c.nX - 1))
MaxXL(c) == Max2(XL(c, 0), XL(c, c.nX - 1))

(* the inverse: the line coordinate of a position is its projection on u (w) *)
Dot(a, b) == a[1] * b[1] + a[2] * b[2]
Inverse(c, a8, b8) ==
  LET p == Pos8(c, a8, b8)  d == << p[1] - 8 * c.o[1], p[2] - 8 * c.o[2] >> IN
  Dot(d, c.u) = a8 * Dot(c.u, c.u) /\ Dot(d, c.w) = b8 * Dot(c.w, c.w)

(* part of the survey: every st-th line (st a multiple of the step) from lo, *)
(* up to the first at or beyond hi, or the last one that exists              *)
SubLast(lo, hi, st, max) ==
  LET n == (hi - lo + st - 1) \div st IN IF lo + n * st <= max THEN lo + n * st ELSE lo + (n - 1) * st
SubOk(c, q) == /\ q.a >= MinIL(c) /\ q.a <= MaxIL(c) /\ q.b >= MinIL(c) /\ q.b <= MaxIL(c)
               /\ q.c >= MinXL(c) /\ q.c <= MaxXL(c) /\ q.d >= MinXL(c) /\ q.d <= MaxXL(c)
Sub(c, q) ==
  LET si == IF q.si < 0 THEN Abs(c.sI) ELSE q.si
      sx == IF q.sx < 0 THEN Abs(c.sX) ELSE q.sx IN
  IF ~SubOk(c, q) THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, il |-> <<q.a, SubLast(q.a, q.b, si, MaxIL(c)), si>>, xl |-> <<q.c, SubLast(q.c, q.d, sx, MaxXL(c)), sx>>]

(* smallest range of lines around an interval of line numbers (in eighths)  *)
FloorDiv(a, b) == a \div b                       \* b > 0; TLA+ division rounds down
CeilDiv(a, b) == -((-a) \div b)
AreaAxis(lo8, hi8, min, max, st) ==
  << Max2(min, min + st * FloorDiv(lo8 - 8 * min, 8 * st)), Min2(max, min + st * CeilDiv(hi8 - 8 * min, 8 * st)) >>
(* a rectangle, at any angle to the lines, given by its four corners *)
LowHigh(S) == << CHOOSE x \in S : \A y \in S : x <= y, CHOOSE x \in S : \A y \in S : x >= y >>
Area(c, q) ==
  LET i == LowHigh({IL8(c, q[k][1]) : k \in 1..4})  x == LowHigh({XL8(c, q[k][2]) : k \in 1..4}) IN
  AreaAxis(i[1], i[2], MinIL(c), MaxIL(c), Abs(c.sI)) \o AreaAxis(x[1], x[2], MinXL(c), MaxXL(c), Abs(c.sX))
(* four positions that are the corners of a rectangle; the steps are in the *)
(* ratio r[1] : r[2]                                                        *)
IsRectangle(q, r) ==
  LET e == << q[2][1] - q[1][1], q[2][2] - q[1][2] >>  f == << q[4][1] - q[1][1], q[4][2] - q[1][2] >> IN
  /\ q[3] = << q[2][1] + f[1], q[2][2] + f[2] >>
  /\ e[1] * f[1] * r[1] * r[1] + e[2] * f[2] * r[2] * r[2] = 0

=============================================================================
