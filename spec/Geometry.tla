------------------------------ MODULE Geometry ------------------------------
(* Points, lines (segments, rays, infinite), planes, triangles, boxes and    *)
(* polygons with integer coordinates, in exact rational arithmetic.          *)
EXTENDS Rat, FiniteSets, TLC

Sub(a, b) == [i \in 1 .. 3 |-> a[i] - b[i]]
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == << a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1] >>
N2(a) == Dot(a, a)
Zero == <<0, 0, 0>>
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
CrossXY(a, b) == a[1] * b[2] - a[2] * b[1]
RECURSIVE QMin(_)
QMin(s) == IF Len(s) = 1 THEN s[1] ELSE LET m == QMin(Tail(s)) IN IF QLess(s[1], m) THEN s[1] ELSE m
(* the point a + (n/d) b as <<numerators, denominator>> *)
Along(a, n, d, b) == << [i \in 1 .. 3 |-> a[i] * d + n * b[i]], d >>

(* --- lines: from p towards q, ending in p (e1) and in q (e2) ---------------- *)
Dir(L) == Sub(L.q, L.p)
PointLine2(x, L) ==                                        \* squared distance
  LET d == Dir(L)  a == N2(d)  t == Dot(d, Sub(x, L.p)) IN
  IF a = 0 \/ (t < 0 /\ L.e1) THEN QI(N2(Sub(x, L.p)))
  ELSE IF t > a /\ L.e2 THEN QI(N2(Sub(x, L.q)))
  ELSE Q(N2(Cross(d, Sub(x, L.p))), a)
Foot(x, L) ==
  LET d == Dir(L)  a == N2(d)  t == Dot(d, Sub(x, L.p)) IN
  IF a = 0 \/ (t < 0 /\ L.e1) THEN <<L.p, 1>> ELSE IF t > a /\ L.e2 THEN <<L.q, 1>> ELSE Along(L.p, t, a, d)
Within(L, n, d) == (~L.e1 \/ n >= 0) /\ (~L.e2 \/ n <= d)  \* n/d, d > 0, is a parameter of L
Ends(L) == (IF L.e1 THEN <<L.p>> ELSE <<>>) \o (IF L.e2 THEN <<L.q>> ELSE <<>>)
LineLine2(L, M) ==
  LET u == Dir(L)  v == Dir(M)  n == Cross(u, v)  w == Sub(M.p, L.p)  d == N2(n)
      s == Dot(Cross(w, v), n)  t == Dot(Cross(w, u), n)
      c == [i \in DOMAIN Ends(L) |-> PointLine2(Ends(L)[i], M)] \o [i \in DOMAIN Ends(M) |-> PointLine2(Ends(M)[i], L)] IN
  IF d # 0 /\ Within(L, s, d) /\ Within(M, t, d) THEN Q(Dot(w, n) * Dot(w, n), d)
  ELSE IF c = <<>> THEN PointLine2(L.p, M) ELSE QMin(c)
Parallel(L, M) == Cross(Dir(L), Dir(M)) = Zero
Overlap(L, M) == Parallel(L, M) /\ LineLine2(L, M)[1] = 0
Side(x, L) == Sign(CrossXY(Sub(x, L.p), Dir(L)))           \* 1 right, -1 left
(* crossing seen from above; edge: exactly in an end, which rounding decides  *)
MeetXY(L, M, inf) ==
  LET d == Dir(L)  e == Dir(M)  w == Sub(M.p, L.p)  D0 == CrossXY(d, e)
      D == IF D0 < 0 THEN -D0 ELSE D0  t1 == Sign(D0) * CrossXY(w, e)  t2 == Sign(D0) * CrossXY(w, d) IN
  IF D = 0 THEN [hit |-> FALSE, edge |-> FALSE]
  ELSE [hit |-> (inf \/ (t1 >= 0 /\ t1 <= D)) /\ t2 >= 0 /\ t2 <= D, edge |-> t2 \in {0, D} \/ (~inf /\ t1 \in {0, D}), at |-> Along(L.p, t1, D, d)]
Segment(a, b) == [p |-> a, q |-> b, e1 |-> TRUE, e2 |-> TRUE]

(* --- planes ------------------------------------------------------------------ *)
Normal(T) == Cross(Sub(T[2], T[1]), Sub(T[3], T[1]))
PointPlane2(x, T) == LET n == Normal(T)  k == Dot(n, Sub(x, T[1])) IN Q(k * k, N2(n))
FootPlane(x, T) == LET n == Normal(T) IN Along(x, -Dot(n, Sub(x, T[1])), N2(n), n)
LinePlane(L, T) ==
  LET n == Normal(T)  D0 == Dot(n, Dir(L))  k == Sign(D0) * Dot(n, Sub(T[1], L.p))  D == RAbs(D0) IN
  IF D = 0 THEN [hit |-> FALSE, edge |-> FALSE, par |-> TRUE]
  ELSE [hit |-> Within(L, k, D), edge |-> (L.e1 /\ k = 0) \/ (L.e2 /\ k = D), par |-> FALSE, at |-> Along(L.p, k, D, Dir(L))]

(* --- triangles ---------------------------------------------------------------- *)
(* the side of edge ab of triangle T that the point x (numerators X over D) is on *)
EdgeSide(T, a, b, X, D) == Sign(Dot(Normal(T), Cross(Sub(b, a), [i \in 1 .. 3 |-> X[i] - D * a[i]])))
EdgeSides(T, X, D) == {EdgeSide(T, T[1], T[2], X, D), EdgeSide(T, T[2], T[3], X, D), EdgeSide(T, T[3], T[1], X, D)}
LineTriangle(L, T) ==
  IF Normal(T) = Zero THEN [hit |-> FALSE, edge |-> FALSE]
  ELSE LET m == LinePlane(L, T) IN
       IF m.par \/ ~m.hit THEN [hit |-> FALSE, edge |-> m.edge]
       ELSE LET S == EdgeSides(T, m.at[1], m.at[2]) IN [hit |-> -1 \notin S, edge |-> m.edge \/ (0 \in S /\ -1 \notin S), at |-> m.at]
Triangle2(L, T) ==
  LET m == LineTriangle(L, T)
      over == SelectSeq(Ends(L), LAMBDA e : Normal(T) # Zero /\ -1 \notin EdgeSides(T, e, 1)) IN
  IF m.hit THEN QI(0)
  ELSE QMin(<< LineLine2(L, Segment(T[1], T[2])), LineLine2(L, Segment(T[2], T[3])), LineLine2(L, Segment(T[1], T[3])) >>
            \o [i \in DOMAIN over |-> PointPlane2(over[i], T)])

(* --- boxes: in their own axes, from 0 to len ----------------------------------- *)
InBox(x, len) == \A i \in 1 .. 3 : x[i] >= 0 /\ x[i] <= len[i]
Out(x, l) == IF x < 0 THEN -x ELSE IF x > l THEN x - l ELSE 0
MinI(S) == CHOOSE x \in S : \A y \in S : x <= y
BoxDist2(x, len) ==
  IF InBox(x, len) THEN LET m == MinI({x[i] : i \in 1 .. 3} \cup {len[i] - x[i] : i \in 1 .. 3}) IN m * m
  ELSE LET o == [i \in 1 .. 3 |-> Out(x[i], len[i])] IN N2(o)
(* where the line enters and leaves each pair of sides *)
Slab(L, len, i) == LET d == Dir(L)[i]  a == Q(-L.p[i], d)  b == Q(len[i] - L.p[i], d) IN IF QLess(a, b) THEN <<a, b>> ELSE <<b, a>>
QMax(s) == LET m == QMin([i \in DOMAIN s |-> <<-s[i][1], s[i][2]>>]) IN <<-m[1], m[2]>>
BoxHits(L, len) ==
  LET ax == SelectSeq(<<1, 2, 3>>, LAMBDA i : Dir(L)[i] # 0)
      still == {1, 2, 3} \ {ax[k] : k \in DOMAIN ax}
      s == [k \in DOMAIN ax |-> Slab(L, len, ax[k])]
      lo == QMax([k \in DOMAIN s |-> s[k][1]])  hi == QMin([k \in DOMAIN s |-> s[k][2]])
      on == \E i \in still : L.p[i] \in {0, len[i]}
      Many(t) == Cardinality({k \in DOMAIN s : s[k][1] = t \/ s[k][2] = t}) > 1
      T == IF (\E i \in still : L.p[i] < 0 \/ L.p[i] > len[i]) \/ QLess(hi, lo) THEN {}
           ELSE {t \in {lo, hi} : (L.e1 => t[1] >= 0) /\ (L.e2 => t[1] <= t[2])} IN
  [at |-> {Along(L.p, t[1], t[2], Dir(L)) : t \in T},
   plain |-> ~on /\ lo # hi /\ ~Many(lo) /\ ~Many(hi) /\ \A t \in {lo, hi} : t # QI(0) /\ t # QI(1)]

(* --- polygons in the plane ------------------------------------------------------ *)
Nx(P, i) == IF i = Len(P) THEN 1 ELSE i + 1
Sub2(a, b) == <<a[1] - b[1], a[2] - b[2]>>
C2(a, b) == a[1] * b[2] - a[2] * b[1]
RECURSIVE Shoe(_, _)
Shoe(P, i) == IF i = 0 THEN 0 ELSE C2(P[i], P[Nx(P, i)]) + Shoe(P, i - 1)
Area2(P) == Shoe(P, Len(P))
Between(a, b, x) == x >= (IF a < b THEN a ELSE b) /\ x <= (IF a < b THEN b ELSE a)
OnEdge(a, b, x) == C2(Sub2(b, a), Sub2(x, a)) = 0 /\ Between(a[1], b[1], x[1]) /\ Between(a[2], b[2], x[2])
OnBorder(P, x) == \E i \in DOMAIN P : OnEdge(P[i], P[Nx(P, i)], x)
(* edges above the point: odd inside *)
Above(a, b, x) == (a[1] > x[1]) # (b[1] > x[1]) /\ (IF b[1] > a[1] THEN C2(Sub2(b, a), Sub2(x, a)) < 0 ELSE C2(Sub2(b, a), Sub2(x, a)) > 0)
Inside(P, x) == Cardinality({i \in DOMAIN P : Above(P[i], P[Nx(P, i)], x)}) % 2 = 1
Left(a, b, x) == Sign(C2(Sub2(b, a), Sub2(x, a)))
EdgesMeet(a, b, c, d) == (Left(a, b, c) * Left(a, b, d) < 0 /\ Left(c, d, a) * Left(c, d, b) < 0) \/ OnEdge(a, b, c) \/ OnEdge(a, b, d) \/ OnEdge(c, d, a) \/ OnEdge(c, d, b)
Simple(P) == /\ Len(P) >= 3 /\ Area2(P) # 0
             /\ \A i, j \in DOMAIN P : i < j => P[i] # P[j]
             /\ \A i, j \in DOMAIN P : (i < j /\ j # Nx(P, i) /\ i # Nx(P, j)) => ~EdgesMeet(P[i], P[Nx(P, i)], P[j], P[Nx(P, j)])
             /\ \A i \in DOMAIN P : LET j == Nx(P, i)  k == Nx(P, j) IN ~OnEdge(P[i], P[j], P[k]) /\ ~OnEdge(P[j], P[k], P[i])
Convex(P) == \A i, j \in DOMAIN P : Left(P[i], P[Nx(P, i)], P[j]) * Sign(Area2(P)) >= 0
RECURSIVE InOrder(_, _)
InOrder(R, P) == IF R = <<>> THEN TRUE ELSE IF P = <<>> THEN FALSE ELSE IF R[1] = P[1] THEN InOrder(Tail(R), Tail(P)) ELSE InOrder(R, Tail(P))
(* what is left when points are taken away until the polygon is convex *)
Convexified(P, R) == InOrder(R, P) /\ Len(R) >= 3 /\ Convex(R) /\ (Convex(P) => R = P)
(* the smallest rectangle with a side along an edge: area times length squared *)
MaxI(S) == CHOOSE x \in S : \A y \in S : x >= y
Span(S) == MaxI(S) - MinI(S)
EdgeRect(P, i) == LET e == Sub2(P[Nx(P, i)], P[i]) IN
  Q(Span({P[k][1] * e[1] + P[k][2] * e[2] : k \in DOMAIN P}) * Span({C2(e, P[k]) : k \in DOMAIN P}), e[1] * e[1] + e[2] * e[2])
SmallestRect(P) == QMin([i \in DOMAIN P |-> EdgeRect(P, i)])
(* vertices seen at the far right and the far left from a point outside *)
Tangents(P, x, sgn) == {i \in DOMAIN P : \A j \in DOMAIN P : Left(x, P[i], P[j]) * sgn >= 0}
D2(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])

(* --- movements of space: one step at a time on a point <<numerators, denominator>> *)
Move(x, m) ==
  LET p == x[1]  D == x[2] IN
  CASE m[1] = "T" -> << [p EXCEPT ![m[2]] = @ + m[3] * D], D >>
    [] m[1] = "S" -> << [p EXCEPT ![m[2]] = @ * m[3]], D >>
    [] m[1] = "M" -> << [p EXCEPT ![m[2]] = -@], D >>
    [] m[1] = "H" -> LET o == {1, 2, 3} \ {m[2]}  i == MinI(o)  j == MaxI(o) IN << [p EXCEPT ![i] = @ + m[3] * p[m[2]], ![j] = @ + m[4] * p[m[2]]], D >>
    [] m[1] = "R" -> LET i == (m[2] % 3) + 1  j == (i % 3) + 1  c == m[3][1]  s == m[3][2]  h == m[3][3] IN   \* axis m[2], from i towards j
                     << [[k \in 1 .. 3 |-> p[k] * h] EXCEPT ![i] = c * p[i] - s * p[j], ![j] = s * p[i] + c * p[j]], D * h >>
RECURSIVE Moves(_, _)
Moves(x, ms) == IF ms = <<>> THEN x ELSE Moves(Move(x, ms[1]), Tail(ms))

(* --- interpolation over knots X (increasing), values Y --------------------------- *)
Piece(X, x) == LET S == {i \in 1 .. Len(X) - 1 : QLess(QI(X[i]), x)} IN IF S = {} THEN 1 ELSE MaxI(S)
Linear(X, Y, x) == LET i == Piece(X, x) IN QAdd(QI(Y[i]), QMul(QSub(x, QI(X[i])), Q(Y[i + 1] - Y[i], X[i + 1] - X[i])))
(* natural cubic spline: second derivatives z with z = 0 at both ends            *)
H(X, i) == X[i + 1] - X[i]
B6(X, Y, i) == Q(6 * (Y[i + 1] - Y[i]), H(X, i))
RECURSIVE Fwd(_, _, _)
Fwd(X, Y, i) ==                                             \* <<u, v>> of row i in 2 .. n - 1
  IF i = 2 THEN << QI(2 * (H(X, 1) + H(X, 2))), QSub(B6(X, Y, 2), B6(X, Y, 1)) >>
  ELSE LET f == Fwd(X, Y, i - 1)  h == QI(H(X, i - 1)) IN
       << QSub(QI(2 * (H(X, i) + H(X, i - 1))), QDiv(QMul(h, h), f[1])), QSub(QSub(B6(X, Y, i), B6(X, Y, i - 1)), QDiv(QMul(h, f[2]), f[1])) >>
RECURSIVE Z2(_, _, _)
Z2(X, Y, i) == IF i = 1 \/ i = Len(X) THEN QI(0) ELSE LET f == Fwd(X, Y, i) IN QDiv(QSub(f[2], QMul(QI(H(X, i)), Z2(X, Y, i + 1))), f[1])
Spline(X, Y, x) ==
  LET i == Piece(X, x)  h == QI(H(X, i))  z0 == Z2(X, Y, i)  z1 == Z2(X, Y, i + 1)  d == QSub(x, QI(X[i]))
      A == QDiv(QSub(z1, z0), QMul(QI(6), h))  B == QDiv(z0, QI(2))
      C == QSub(Q(Y[i + 1] - Y[i], H(X, i)), QMul(h, QAdd(QDiv(z1, QI(6)), QDiv(z0, QI(3))))) IN
  QAdd(QI(Y[i]), QMul(d, QAdd(C, QMul(d, QAdd(B, QMul(d, A))))))
=============================================================================
