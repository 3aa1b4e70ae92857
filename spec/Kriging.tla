------------------------------- MODULE Kriging -------------------------------
(* Simple kriging with the covariance (a - |dx|)+ (b - |dy|)+, whose values  *)
(* are integers: estimates in exact rational arithmetic. Positions are in    *)
(* half grid steps; node (i, j) lies in <<2 i, 2 j>>.                        *)
EXTENDS Rat, FiniteSets, SequencesExt, TLC
MISS == 99999
Tent(d, a) == IF RAbs(d) >= a THEN 0 ELSE a - RAbs(d)
Cov(c, p, q) == Tent(p[1] - q[1], c.a) * Tent(p[2] - q[2], c.b)

(* the data used: where, and what (the mean of what is given for a node)     *)
Given(c) == SelectSeq(c.d, LAMBDA e : e[3] # MISS)
NodeOf(e) == <<2 * (e[1] \div 2), 2 * (e[2] \div 2)>>
Where(c, e) == IF c.nodal THEN NodeOf(e) ELSE <<e[1], e[2]>>
RECURSIVE ISum(_)
ISum(s) == IF s = <<>> THEN 0 ELSE s[1] + ISum(Tail(s))
MeanAt(c, p) == LET s == SelectSeq(Given(c), LAMBDA e : Where(c, e) = p) IN Q(ISum([i \in DOMAIN s |-> s[i][3]]), Len(s))
Places(c) == SetToSeq({Where(c, Given(c)[i]) : i \in DOMAIN Given(c)})
Trend(c, i, j) == c.m[i + 1 + c.ni * j]
(* between nodes the trend is bilinear *)
TrendAt(c, p) ==
  LET i == p[1] \div 2  j == p[2] \div 2  i2 == (p[1] + 1) \div 2  j2 == (p[2] + 1) \div 2 IN
  Q(Trend(c, i, j) + Trend(c, i2, j) + Trend(c, i, j2) + Trend(c, i2, j2), 4)

(* --- the kriging system: K w = r ------------------------------------------ *)
Det(M) == CASE Len(M) = 1 -> M[1][1]
            [] Len(M) = 2 -> M[1][1] * M[2][2] - M[1][2] * M[2][1]
            [] OTHER -> M[1][1] * (M[2][2] * M[3][3] - M[2][3] * M[3][2]) - M[1][2] * (M[2][1] * M[3][3] - M[2][3] * M[3][1]) + M[1][3] * (M[2][1] * M[3][2] - M[2][2] * M[3][1])
Strike(M, i, j) == [k \in 1 .. Len(M) - 1 |-> LET kk == IF k < i THEN k ELSE k + 1 IN [l \in 1 .. Len(M) - 1 |-> M[kk][IF l < j THEN l ELSE l + 1]]]
Cof(M, i, j) == IF Len(M) = 1 THEN 1 ELSE (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det(Strike(M, i, j))
Weights(M, r) == [j \in DOMAIN M |-> QDiv(QSum([i \in DOMAIN M |-> QMul(QI(Cof(M, i, j)), r[i])]), QI(Det(M)))]
System(c) ==
  LET P == Places(c)  K == [i \in DOMAIN P |-> [j \in DOMAIN P |-> Cov(c, P[i], P[j])]]
      r == [i \in DOMAIN P |-> QSub(MeanAt(c, P[i]), TrendAt(c, P[i]))] IN
  [p |-> P, k |-> K, r |-> r, w |-> IF P = <<>> THEN <<>> ELSE Weights(K, r)]
Estimate(c, s, p) == QSum([i \in DOMAIN s.p |-> QMul(QI(Cov(c, p, s.p[i])), s.w[i])])    \* of the residual

(* --- kriging in blocks: the data within h ranges of a node are always used - *)
RECURSIVE Grow(_, _, _, _)
Grow(c, s, S, n) == IF n = 0 THEN S ELSE Grow(c, s, S \cup {j \in DOMAIN s.p : \E i \in S : Cov(c, s.p[i], s.p[j]) > 0}, n - 1)
Influences(c, s, p) == Grow(c, s, {j \in DOMAIN s.p : Cov(c, p, s.p[j]) > 0}, 3)
MaxI0(S) == CHOOSE x \in S : \A y \in S : x >= y
(* ranges in nodes: for nodal data as far as the correlation is 0.05 at least *)
RX(c) == IF c.nodal THEN MaxI0({0} \cup {i \in 0 .. c.ni - 1 : 20 * Tent(2 * i, c.a) >= c.a}) ELSE c.a \div 2
RY(c) == IF c.nodal THEN MaxI0({0} \cup {j \in 0 .. c.nj - 1 : 20 * Tent(2 * j, c.b) >= c.b}) ELSE c.b \div 2
Settled(c, s, p) == c.h = 0 \/ \A j \in Influences(c, s, p) : RAbs(p[1] - s.p[j][1]) <= 2 * c.h * RX(c) /\ RAbs(p[2] - s.p[j][2]) <= 2 * c.h * RY(c)

Node(c, n) == <<2 * ((n - 1) % c.ni), 2 * ((n - 1) \div c.ni)>>
Field(c) == LET s == System(c) IN [n \in 1 .. c.ni * c.nj |-> << Estimate(c, s, Node(c, n)), IF Settled(c, s, Node(c, n)) THEN 1 ELSE 0 >>]
(* many data: only the nodes with a datum, and those out of reach of all data *)
Apart(c, p) == \A i \in DOMAIN c.d : c.d[i][3] = MISS \/ LET q == Where(c, c.d[i]) IN (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2]) >= c.r * c.r
Known(c) == {Where(c, Given(c)[i]) : i \in DOMAIN Given(c)}
Marks(c) == LET K == Known(c) IN [n \in 1 .. c.ni * c.nj |-> LET p == Node(c, n) IN
              IF p \in K THEN QSub(MeanAt(c, p), TrendAt(c, p)) ELSE IF c.r > 0 /\ Apart(c, p) THEN QI(0) ELSE <<0, 0>>]
=============================================================================
