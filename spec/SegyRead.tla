------------------------------ MODULE SegyRead ------------------------------
(* A survey in a file, some traces missing, loaded between two depths or     *)
(* looked up trace by trace: what every query must answer.                   *)
EXTENDS Survey, TLC, Json, Gen
CONSTANT Chunk
VARIABLE k

Val(id, n) == ((id * 37 + n * n * 5 + n * 3 + ((id * n) % 7)) % 401) - 200
Has(c, a, b) == a >= 0 /\ a < c.nI /\ b >= 0 /\ b < c.nX /\ <<a, b>> \notin {<<c.holes[i][1], c.holes[i][2]>> : i \in DOMAIN c.holes}
Id(c, a, b) == 1 + a * c.nX + b
S(c, a, b, z) == Val(Id(c, a, b), z + 1)                                \* sample z counts from 0

(* the part of each trace that is loaded *)
J0(c) == LET x == 4 * c.top8 - c.zq * (c.base8 - c.top8) IN IF x < 0 THEN 0 ELSE x \div 32
J1(c) == LET x == (4 * c.base8 + c.zq * (c.base8 - c.top8)) \div 32 IN IF x > c.nz - 1 THEN c.nz - 1 ELSE x
Known(c, a, b, z) == Has(c, a, b) /\ z >= J0(c) /\ z <= J1(c)

(* interpolation: a parabola through the sample and its two neighbours in    *)
(* each direction, a line when one neighbour is unknown; u in 800ths         *)
Part(h0, v0, v1, h2, v2, u) ==
  CASE h0 /\ h2 -> (v2 + v0 - 2 * v1) * u * u + (v2 - v0) * u * 800
    [] h0 /\ ~h2 -> 2 * (v1 - v0) * u * 800
    [] ~h0 /\ h2 -> 2 * (v2 - v1) * u * 800
    [] OTHER -> 0
Get(c, a, b, z) == IF Known(c, a, b, z) THEN S(c, a, b, z) ELSE 0
Interp(c, a, b, z, ua, ub, uz) ==
  LET v1 == Get(c, a, b, z) IN
  v1 * 1280000 + Part(Known(c, a - 1, b, z), Get(c, a - 1, b, z), v1, Known(c, a + 1, b, z), Get(c, a + 1, b, z), ua)
               + Part(Known(c, a, b - 1, z), Get(c, a, b - 1, z), v1, Known(c, a, b + 1, z), Get(c, a, b + 1, z), ub)
               + Part(Known(c, a, b, z - 1), Get(c, a, b, z - 1), v1, Known(c, a, b, z + 1), Get(c, a, b, z + 1), uz)
U(x8) == ((x8 % 8) - 4) * 100
Clip(c, z) == IF z < J0(c) THEN J0(c) ELSE IF z > J1(c) THEN J1(c) ELSE z
(* q = <<a8, b8, z8, mode>>; mode 0 missing, 1 zero, 2 closest *)
Value(c, q) ==
  LET a == Cell(q[1])  b == Cell(q[2])  z == q[3] \div 8  ua == U(q[1] + 4)  ub == U(q[2] + 4)  none == [k |-> IF q[4] = 1 THEN "zero" ELSE "missing"] IN
  IF ~Inside(c, q[1], q[2]) \/ ~Has(c, a, b) \/ q[3] < 0 \/ q[3] > 8 * c.nz THEN none
  ELSE IF Known(c, a, b, z) THEN [k |-> "val", v |-> Interp(c, a, b, z, ua, ub, U(q[3]))]
  ELSE IF q[4] # 2 THEN none
  ELSE LET y == Clip(c, z) IN [k |-> "val", v |-> Interp(c, a, b, y, ua, ub, IF Known(c, a, b, y - 1) THEN 392 ELSE 0 - 400)]

(* lines asked for by number: <<il, xl>> *)
Where(c, il, xl) == {x \in (0 .. c.nI - 1) \X (0 .. c.nX - 1) : IL(c, x[1]) = il /\ XL(c, x[2]) = xl}
Line(c, q) == LET W == Where(c, q[1], q[2]) IN
  IF W = {} THEN [k |-> "no"]
  ELSE LET x == CHOOSE x \in W : TRUE IN
       IF Has(c, x[1], x[2]) THEN [k |-> "id", id |-> Id(c, x[1], x[2]), p |-> Pos8(c, 8 * x[1], 8 * x[2])] ELSE [k |-> "hole"]
Near(c, q) == IF ~Inside(c, q[1], q[2]) THEN [k |-> "no"]
              ELSE IF Has(c, Cell(q[1]), Cell(q[2])) THEN [k |-> "id", id |-> Id(c, Cell(q[1]), Cell(q[2]))] ELSE [k |-> "hole"]

Row(c) == [j |-> << J0(c), J1(c) >>,
           file |-> [i \in DOMAIN c.order |-> LET x == c.order[i] IN
                      << IL(c, x[1]), XL(c, x[2]), Id(c, x[1], x[2]) >> \o Pos8(c, 8 * x[1], 8 * x[2]) ],
           smp |-> [i \in 1 .. c.nI * c.nX |-> [z \in 1 .. c.nz |-> Val(i, z)]],
           vals |-> [i \in DOMAIN c.vals |-> Value(c, c.vals[i])], vpos |-> [i \in DOMAIN c.vals |-> Pos8(c, c.vals[i][1], c.vals[i][2])],
           lines |-> [i \in DOMAIN c.lines |-> Line(c, c.lines[i])],
           near |-> [i \in DOMAIN c.near |-> Near(c, c.near[i])], npos |-> [i \in DOMAIN c.near |-> Pos8(c, c.near[i][1], c.near[i][2])]]

(* each present trace is in the file once, a hole is not in it; at the middle of a sample the value is the sample *)
Thm(c) == /\ Perp(c) /\ J0(c) <= J1(c)
          /\ {<<c.order[i][1], c.order[i][2]>> : i \in DOMAIN c.order} = {x \in (0 .. c.nI - 1) \X (0 .. c.nX - 1) : Has(c, x[1], x[2])}
          /\ Len(c.order) + Len(c.holes) = c.nI * c.nX
          /\ \A x \in (0 .. c.nI - 1) \X (0 .. c.nX - 1) : Has(c, x[1], x[2]) =>
               Value(c, <<8 * x[1], 8 * x[2], 8 * J0(c) + 4, 0>>) = [k |-> "val", v |-> 1280000 * S(c, x[1], x[2], J0(c))]
Init == k = 0
Next == /\ k < Len(GCases)
        /\ LET hi == IF k + Chunk > Len(GCases) THEN Len(GCases) ELSE k + Chunk IN
           /\ \A i \in k + 1 .. hi : Assert(Thm(GCases[i]), GCases[i])
           /\ PrintT(<<"@", "R", ToJson([i \in 1 .. hi - k |-> Row(GCases[k + i])])>>) /\ k' = hi
Spec == Init /\ [][Next]_k
=============================================================================
