----------------------------- MODULE GeometryTab -----------------------------
EXTENDS Geometry, Json, Gen
CONSTANT Chunk
VARIABLE k
Row(c) ==
  CASE c.t = "lines" -> [d2 |-> LineLine2(c.l, c.m), par |-> Parallel(c.l, c.m), over |-> Overlap(c.l, c.m), xy |-> MeetXY(c.l, c.m, FALSE), inf |-> MeetXY(c.l, c.m, TRUE),
                         len |-> IF c.l.e1 /\ c.l.e2 THEN N2(Dir(c.l)) ELSE -1, x2 |-> PointLine2(c.x, c.l), foot |-> Foot(c.x, c.l), side |-> Side(c.x, c.l),
                         dot |-> Dot(c.x, c.m.p), n |-> <<N2(c.x), N2(c.m.p)>>, left |-> CrossXY(Sub(c.l.q, c.l.p), Sub(c.x, c.l.p))]
    [] c.t = "plane" -> [n |-> Normal(c.a), x2 |-> PointPlane2(c.x, c.a), foot |-> FootPlane(c.x, c.a), side |-> Sign(Dot(Normal(c.a), Sub(c.x, c.a[1]))), line |-> LinePlane(c.l, c.a),
                         n2 |-> Normal(c.b), par |-> Cross(Normal(c.a), Normal(c.b)) = Zero]
    [] c.t = "tri" -> [line |-> LineTriangle(c.l, c.a), d2 |-> Triangle2(c.l, c.a)]
    [] c.t = "box" -> [in |-> InBox(c.x, c.len), border |-> InBox(c.x, c.len) /\ BoxDist2(c.x, c.len) = 0, d2 |-> BoxDist2(c.x, c.len),
                       hits |-> LET h == BoxHits(c.l, c.len) IN [at |-> h.at, plain |-> h.plain]]
    [] c.t = "poly" -> [area |-> Area2(c.p), convex |-> Convex(c.p), in |-> [i \in DOMAIN c.q |-> IF OnBorder(c.p, c.q[i]) THEN 2 ELSE IF Inside(c.p, c.q[i]) THEN 1 ELSE 0],
                        edges |-> [i \in DOMAIN c.p |-> D2(c.p[i], c.p[Nx(c.p, i)])],
                        rect |-> IF Convex(c.p) /\ Area2(c.p) > 0 THEN SmallestRect(c.p) ELSE <<0, 1>>,
                        tan |-> IF Convex(c.p) /\ Area2(c.p) > 0 THEN [i \in DOMAIN c.q |-> IF OnBorder(c.p, c.q[i]) \/ Inside(c.p, c.q[i]) THEN <<{}, {}>> ELSE << Tangents(c.p, c.q[i], 1), Tangents(c.p, c.q[i], -1) >>] ELSE <<>>]
    [] c.t = "move" -> [at |-> Moves(<<c.x, 1>>, c.m)]
    [] c.t = "curve" -> [lin |-> [i \in DOMAIN c.q |-> Linear(c.x, c.y, Q(c.q[i], 4))], spl |-> IF Len(c.x) > 2 THEN [i \in DOMAIN c.q |-> Spline(c.x, c.y, Q(c.q[i], 4))] ELSE <<>>]
    [] c.t = "convexified" -> [ok |-> Convexified(c.p, c.r)]
(* what the definitions must satisfy *)
Thm(c) ==
  CASE c.t = "lines" -> /\ LineLine2(c.l, c.m) = LineLine2(c.m, c.l)
                        /\ \A e \in {c.m.p, c.m.q} : ~QLess(PointLine2(e, c.l), LineLine2(c.l, c.m))
                        /\ (MeetXY(c.l, c.m, FALSE).hit => MeetXY(c.m, c.l, FALSE).hit /\ MeetXY(c.l, c.m, TRUE).hit)
                        /\ LET f == Foot(c.x, c.l) IN Q(N2([i \in 1 .. 3 |-> f[1][i] - f[2] * c.x[i]]), f[2] * f[2]) = PointLine2(c.x, c.l)
    [] c.t = "tri" -> LET d == Triangle2(c.l, c.a) IN \A i \in 1 .. 3 : ~QLess(PointLine2(c.a[i], c.l), d)
    [] c.t = "poly" -> /\ Simple(c.p)
                       /\ \A i \in DOMAIN c.q : Inside(c.p, c.q[i]) = Inside([j \in DOMAIN c.p |-> <<c.p[j][2], c.p[j][1]>>], <<c.q[i][2], c.q[i][1]>>) \/ OnBorder(c.p, c.q[i])
    [] c.t = "curve" -> \A i \in DOMAIN c.x : Linear(c.x, c.y, QI(c.x[i])) = QI(c.y[i]) /\ (Len(c.x) > 2 => Spline(c.x, c.y, QI(c.x[i])) = QI(c.y[i]))
    [] OTHER -> TRUE
Init == k = 0
Next == /\ k < Len(GCases)
        /\ LET hi == IF k + Chunk > Len(GCases) THEN Len(GCases) ELSE k + Chunk IN
           /\ \A i \in k + 1 .. hi : Assert(Thm(GCases[i]), GCases[i])
           /\ PrintT(<<"@", "R", ToJson([i \in 1 .. hi - k |-> Row(GCases[k + i])])>>) /\ k' = hi
Spec == Init /\ [][Next]_k
=============================================================================
