---------------------------- MODULE SegyFileGen ----------------------------
EXTENDS SegyFile, Json, Gen
CONSTANTS Depth, RDepth
VARIABLES hist, fin
gvars == <<c, file, tab, rd, obs, hist, fin>>
Log(op) == hist' = Append(hist, [op |-> op, obs |-> obs'])
R(S) == {RandomElement(S)}
(* points near the traces: line numbers between the lines are not asked for  *)
A8 == IF Abs(c.sI) = 1 THEN {8 * (i \div 3) + ((i % 3) - 1) * 3 : i \in 0 .. 3 * c.nI - 1} ELSE {8 * i : i \in 0 .. c.nI - 1}
B8 == IF Abs(c.sX) = 1 THEN {8 * (i \div 3) + ((i % 3) - 1) * 2 : i \in 0 .. 3 * c.nX - 1} ELSE {8 * i : i \in 0 .. c.nX - 1}
Out(n) == {0 - 20, 0 - 6, 8 * n - 1, 8 * n + 30}
F == 0 .. c.nz - 1
W == \E k \in R(1 .. 12) :
     CASE k \in 1 .. 3 -> \E a \in R(A8), b \in R(B8), il \in R(0 - 5 .. 4000), xl \in R(1 .. 300), id \in R(1 .. 60) :
                            WriteAt(il, xl, a, b, id) /\ Log(<<"at", il, xl, Pos8(c, a, b), id>>)
       [] k = 4 -> \E a \in R(A8), b \in R(B8), il \in R(0 .. 4000), xl \in R(0 - 3 .. 300), id \in R(1 .. 60) :
                          \E f \in R(F), n \in R(0 .. c.nz), t \in R(0 - 3 .. 3), b0 \in R(0 - 3 .. 3), v \in R(0 .. 2) :
                            LET g == IF v = 1 THEN f ELSE 0   m == IF v = 0 \/ n > c.nz - g THEN c.nz - g ELSE n IN
                            WriteHead(il, xl, a, b, id, g, m, t, b0, v = 2) /\ Log(<<"head", Pos8(c, a, b), id, g, m, t, b0, v, il, xl>>)
       [] k \in 5 .. 7 -> \E a \in R(A8), b \in R(B8), id \in R(1 .. 60), f \in R(F), n \in R(0 .. c.nz), t \in R(0 - 3 .. 3), b0 \in R(0 - 3 .. 3), v \in R({0, 0, 1, 1, 2}) :
                            LET g == IF v = 1 THEN f ELSE 0   m == IF n > c.nz - g THEN c.nz - g ELSE n IN
                            WriteXY(a, b, id, g, m, t, b0, v = 2) /\ Log(<<"xy", Pos8(c, a, b), id, g, m, t, b0, v>>)
       [] k \in 8 .. 10 -> \E a \in R(A8), b \in R(B8), id \in R(1 .. 60), f \in R(F), n \in R(0 .. c.nz), t \in R(0 - 3 .. 3), b0 \in R(0 - 3 .. 3), v \in R({0, 0, 1, 1, 2}) :
                            LET g == IF v = 1 THEN f ELSE 0   m == IF n > c.nz - g THEN c.nz - g ELSE n IN
                            Store(a, b, id, g, m, t, b0, v = 2) /\ Log(<<"store", Pos8(c, a, b), id, g, m, t, b0, v>>)
       [] k = 11 -> \E x \in R({0, 1}), o \in R(Out(c.nI)), q \in R(Out(c.nX)), a \in R(A8), b \in R(B8), s \in R({0, 1}) :
                      LET p == IF x = 0 THEN <<o, b>> ELSE <<a, q>> IN
                      IF s = 0 THEN WriteXY(p[1], p[2], 1, 0, c.nz, 0, 0, FALSE) /\ Log(<<"xy", Pos8(c, p[1], p[2]), 1, 0, c.nz, 0, 0, 0>>)
                      ELSE Store(p[1], p[2], 1, 0, c.nz, 0, 0, FALSE) /\ Log(<<"store", Pos8(c, p[1], p[2]), 1, 0, c.nz, 0, 0, 0>>)
       [] OTHER -> Len(file) <= 30 /\ Flush /\ Log(<<"flush">>)
Rd == \E k \in R(1 .. 8) :
     CASE k \in 1 .. 4 -> NextTrace /\ Log(<<"next">>)
       [] k \in 5 .. 7 -> \E t \in R(0 .. 8 * c.nz), d \in R(0 .. 8 * c.nz), pad \in R({0, 1, 2, 4}) :
                            LET b == IF t + d > 8 * c.nz THEN 8 * c.nz ELSE t + d IN NextBetween(t, b, pad) /\ Log(<<"btw", t, b, pad>>)
       [] OTHER -> Again /\ Log(<<"again">>)
GNext == \/ Writing /\ Len(hist) < Depth /\ UNCHANGED fin /\ W
         \/ Writing /\ Len(hist) = Depth /\ UNCHANGED fin /\ (IF Len(file) = 0 THEN (IF Stored # {} THEN Flush /\ Log(<<"flush">>)
                                                                ELSE WriteAt(1, 1, 0, 0, 7) /\ Log(<<"at", 1, 1, Pos8(c, 0, 0), 7>>)) ELSE Open /\ Log(<<"open">>))
         \/ Writing /\ Len(hist) = Depth + 1 /\ UNCHANGED fin /\ Open /\ Log(<<"open">>)
         \/ ~Writing /\ Len(hist) < Depth + RDepth /\ UNCHANGED fin /\ Rd
         \/ ~Writing /\ Len(hist) = Depth + RDepth /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<svars, hist>>
            /\ PrintT(<<"@", "H", ToJson([case |-> c, hist |-> hist, file |-> file])>>)
GSpec == (\E i \in DOMAIN GCases : Start(GCases[i])) /\ hist = <<>> /\ fin = FALSE /\ [][GNext]_gvars
(* exhaustive: one small survey *)
MCNext == /\ UNCHANGED <<hist, fin>>
          /\ \/ \E a \in {0, 11, 30}, b \in {2} : WriteXY(a, b, 1, 0, 1, 2, 3, FALSE) \/ Store(a, b, 2, 1, 1, 0, 0, FALSE) \/ WriteAt(5, 6, a, b, 3) \/ WriteHead(5, 6, a, b, 4, 0, 1, 1, 1, b = 2)
             \/ Flush \/ Open \/ NextTrace \/ Again
             \/ \E t \in {0, 5, 8}, b \in {8, 16}, p \in {0, 2} : NextBetween(t, b, p)
Bound == Len(file) <= GMax
MCSpec == (\E i \in DOMAIN GCases : Start(GCases[i])) /\ hist = <<>> /\ fin = FALSE /\ [][MCNext]_gvars
=============================================================================
