------------------------------ MODULE SegyGeom ------------------------------
(* Tables of survey conversions, with the theorems each case must satisfy.   *)
EXTENDS Survey, TLC, Json, Gen
CONSTANT Chunk
VARIABLE k

Row(c) == [lat |-> [a \in 1 .. c.nI |-> [b \in 1 .. c.nX |-> << IL(c, a - 1), XL(c, b - 1) >> \o Pos8(c, 8 * (a - 1), 8 * (b - 1)) ]],
           lim |-> << MinIL(c), MaxIL(c), Abs(c.sI), MinXL(c), MaxXL(c), Abs(c.sX) >>,
           pts |-> [i \in DOMAIN c.pts |-> LET p == c.pts[i] IN
                     Pos8(c, p[1], p[2]) \o << IL8(c, p[1]), XL8(c, p[2]), IF Inside(c, p[1], p[2]) THEN 1 ELSE 0, Cell(p[1]), Cell(p[2]) >>],
           subs |-> [i \in DOMAIN c.subs |-> Sub(c, c.subs[i])],
           areas |-> [i \in DOMAIN c.areas |-> Area(c, c.areas[i])]]

Thm(c) == /\ Perp(c)
          /\ \A i \in DOMAIN c.pts : Inverse(c, c.pts[i][1], c.pts[i][2])
          /\ Cardinality({Pos8(c, 8 * a, 8 * b) : a \in 0 .. c.nI - 1, b \in 0 .. c.nX - 1}) = c.nI * c.nX
          /\ \A i \in DOMAIN c.pts : Inside(c, c.pts[i][1], c.pts[i][2]) => Cell(c.pts[i][1]) \in 0 .. c.nI - 1 /\ Cell(c.pts[i][2]) \in 0 .. c.nX - 1
          /\ \A i \in DOMAIN c.subs : LET s == Sub(c, c.subs[i]) IN s.ok => s.il[2] <= MaxIL(c) /\ s.xl[2] <= MaxXL(c)
                                         /\ (s.il[2] - s.il[1]) % s.il[3] = 0 /\ (s.xl[2] - s.xl[1]) % s.xl[3] = 0
          /\ \A i \in DOMAIN c.areas : IsRectangle(c.areas[i], c.ratio)
          /\ c.ratio[1] * c.ratio[1] * Dot(c.w, c.w) = c.ratio[2] * c.ratio[2] * Dot(c.u, c.u) \/ c.ratio[1] * c.ratio[2] > 40
Init == k = 0
Next == /\ k < Len(GCases)
        /\ LET hi == IF k + Chunk > Len(GCases) THEN Len(GCases) ELSE k + Chunk IN
           /\ \A i \in k + 1 .. hi : Assert(Thm(GCases[i]), GCases[i])
           /\ PrintT(<<"@", "R", ToJson([i \in 1 .. hi - k |-> Row(GCases[k + i])])>>) /\ k' = hi
Spec == Init /\ [][Next]_k
=============================================================================
