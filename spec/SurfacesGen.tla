----------------------------- MODULE SurfacesGen -----------------------------
EXTENDS Surfaces, Json, Gen
CONSTANTS Depth
VARIABLES hist, fin
gvars == <<sf, file, obs, hist, fin>>
R(S) == {RandomElement(S)}
Log(op) == hist' = Append(hist, [op |-> op, obs |-> obs', v |-> <<View(sf'[1]), View(sf'[2])>>])
Sizes == {2, 3, 4, 5}
Lens == {96, 192, 288, 480}
Orig == {0, 48, -96, 12, 100, 1000}
Vals == -9 .. 9
Codes == {STORM, IRAP, 7, -3, 1000}
Tris == {NoRot, <<3, 4, 5>>, <<-4, 3, 5>>, <<5, -12, 13>>, <<0, 1, 1>>, <<-8, -15, 17>>, <<-1, 0, 1>>, <<24, 7, 25>>, <<0, -1, 1>>}
Ops == {"add", "sub", "mul"}
Ops4 == {"add", "sub", "mul", "div"}
NewK(kk) == \E x \in R({1, 2}), k \in R({"plain", "plain", "rot"}), x0 \in R(Orig), y0 \in R(Orig), lx \in R(Lens), ly \in R(Lens), ni \in R(Sizes), nj \in R(Sizes), v \in R(Vals), t \in R(Tris), g \in R({0, 1}) :
          LET z == [m \in 1 .. ni * nj |-> QI(IF g = 0 THEN v ELSE RandomElement(Vals))]
              tr == IF k = "plain" THEN NoRot ELSE t IN
          \E zz \in {z} : New(x, Surf(k, x0, y0, lx, ly, ni, nj, zz, STORM, tr, "")) /\ Log(<<"new", x, k, x0, y0, lx, ly, ni, nj, g, IF g = 0 THEN <<QI(v)>> ELSE zz, tr>>)
D == {x \in {1, 2} : Def(sf[x])}
I(x) == 0 .. sf[x].ni - 1
J(x) == 0 .. sf[x].nj - 1
DyadicAll(s) == TRUE = \A m \in 1 .. N(s) : 64 % s.z[m][2] = 0
Op(k, x) ==
  CASE k = 1 -> \E i \in R(I(x)), j \in R(J(x)), v \in R(Vals) : Put(x, i, j, QI(v)) /\ Log(<<"put", x, i, j, v>>)
    [] k = 2 -> \E i \in R(I(x)), j \in R(J(x)) : PutMissing(x, i, j) /\ Log(<<"miss", x, i, j>>)
    [] k = 3 -> \E v \in R(Codes) : DyadicAll(sf[x]) /\ Recode(x, v) /\ Log(<<"code", x, v>>)
    [] k = 4 -> \E c \in R(-3 .. 3), op \in R(Ops) : Arith(x, op, c) /\ Log(<<"arith", x, op, c>>)
    [] k = 5 -> \E op \in R(Ops4) : Combine(x, 3 - x, op) /\ Log(<<"comb", x, 3 - x, op>>)
    [] k = 6 -> \E c \in R({-2, 2, 3, 4}), op \in R(Ops4) : CombineConst(x, c, op) /\ Log(<<"combc", x, c, op>>)
    [] k = 7 -> \E i \in R(I(x)), j \in R(J(x)) : NeighbourMean(x, i, j) /\ Log(<<"neigh", x, i, j>>)
    [] k = 8 -> \E x0 \in R(Orig), y0 \in R(Orig), lx \in R(Lens), ly \in R(Lens) : Move(x, x0, y0, lx, ly) /\ Log(<<"move", x, x0, y0, lx, ly>>)
    [] k = 9 -> \E ni \in R(Sizes), nj \in R(Sizes), v \in R(Vals) : Reshape(x, ni, nj, v) /\ Log(<<"resize", x, ni, nj, v>>)
    [] k = 10 -> \E t \in R(Tris) : Turn(x, t) /\ Log(<<"turn", x, t>>)
    [] k = 11 -> Swap(x, 3 - x) /\ Log(<<"swap", x, 3 - x>>)
    [] k = 12 -> \E c \in R({0, 1}) : CopyOf(3 - x, x) /\ Log(<<"copy", 3 - x, x, c>>)
    [] k = 13 -> \E t \in R(Tris) : Rotate(3 - x, x, t) /\ Log(<<"rotate", 3 - x, x, t>>)
    [] k = 14 -> \E f \in R({"f1", "f2"}), fmt \in R({"irap", "storm"}) : Save(x, f, fmt) /\ Log(<<"save", x, f, fmt>>)
    [] k = 15 -> \E f \in R({g \in {"f1", "f2"} : file[g].k # "undef"} \cup {"f1"}), kind \in R({"plain", "rot"}), how \in R({0, 1, 2}) : Load(x, f, kind) /\ Log(<<"load", x, f, kind, how, file[f].k>>)
    [] k = 16 -> \E n \in R({"a", "top"}) : Name(x, n) /\ Log(<<"name", x, n>>)
    [] k = 17 -> \E c \in R(Vals) : Fill(x, c) /\ Log(<<"fill", x, c>>)
    [] k = 18 -> \E x1 \in R(-1100 .. 1200), w \in R(1 .. 400), y1 \in R(-1100 .. 1200), h \in R(1 .. 400), n \in R({0, 1}) :
                   LET s == sf[x]  b == Box(s)  t == s.tri[3]
                       r == IF n = 0 THEN <<x1, x1 + w, y1, y1 + h>>
                            ELSE << (b[1] + w) \div t + (x1 % 5) - 2, b[2] \div t + (x1 % 7) - 3, b[3] \div t + (y1 % 5) - 1, b[4] \div t + (y1 % 3) - 2 >> IN
                   /\ r[1] * t # b[1] /\ r[2] * t # b[2] /\ r[3] * t # b[3] /\ r[4] * t # b[4]
                   /\ AskRect(x, r) /\ Log(<<"rect", x, r>>)
    [] OTHER -> \E a8 \in R(-12 .. 8 * sf[x].ni + 4), b8 \in R(-12 .. 8 * sf[x].nj + 4), n \in R({0, 1, 2}) :
                   LET ca == IF n = 2 \/ sf[x].k = "rot" THEN a8 ELSE 8 * (a8 \div 8)  cb == IF n = 1 \/ sf[x].k = "rot" THEN b8 ELSE 8 * (b8 \div 8) IN
                   /\ TRUE = (sf[x].k = "rot" => ca % 8 # 0 /\ cb % 8 # 0)
                   /\ Ask(x, ca, cb) /\ Log(<<"ask", x, ca, cb, sf[x].tri, PosH(sf[x], ca * (DX(sf[x]) \div 8), cb * (DY(sf[x]) \div 8))>>)
Do1(k) == IF k <= 1 \/ D = {} THEN NewK(k) ELSE \E x \in R(D) : Op(k - 1, x)
GNext == \/ /\ Len(hist) < Depth /\ UNCHANGED fin
            /\ IF Len(hist) < 2 THEN NewK(1) ELSE \E k \in {RandomElement(1 .. 29), RandomElement(2 .. 29), RandomElement(2 .. 19), IF \E f \in {"f1", "f2"} : file[f].k # "undef" THEN RandomElement({6, 15, 16}) ELSE 15, RandomElement(20 .. 29)} : Do1(k)
         \/ /\ ~fin /\ Len(hist) = Depth /\ fin' = TRUE /\ UNCHANGED <<svars, hist>> /\ PrintT(<<"@", "H", ToJson(hist)>>)
GSpec == Init /\ hist = <<>> /\ fin = FALSE /\ [][GNext]_gvars

(* exhaustive: surfaces of 2 x 2 nodes *)
MCz == {<<a, b, c, d>> : a \in {QI(0), QI(STORM)}, b \in {QI(0), QI(3), QI(STORM)}, c \in {QI(3), QI(STORM)}, d \in {QI(2), QI(STORM)}}
MCz2 == {<<QI(0), QI(3), QI(STORM), QI(3)>>, <<QI(1), QI(0), QI(3), QI(3)>>, <<QI(STORM), QI(STORM), QI(STORM), QI(3)>>, <<QI(2), QI(2), QI(2), QI(2)>>}
MCNew(x) == \E z \in (IF x = 1 THEN MCz ELSE MCz2), k \in {"plain"}, x0 \in {0, 4} : New(x, Surf(k, x0, 0, 8, 8, 2, 2, z, STORM, NoRot, ""))
MCNext == /\ UNCHANGED <<hist, fin>>
          /\ \/ \E x \in {1} : \/ sf[x].k = "undef" /\ MCNew(x)
                               \/ sf[x].k # "undef" /\ sf[2].k = "undef" /\ MCNew(2)
             \/ \E x \in {1, 2} : /\ sf[x].k # "undef" /\ sf[2].k # "undef"
                                  /\ \/ Combine(x, 3 - x, "add") \/ NeighbourMean(x, 0, 0) \/ Save(x, "f1", "irap") \/ Save(x, "f1", "storm") \/ Load(x, "f1", "plain")
                                     \/ Arith(x, "mul", 2) \/ PutMissing(x, 1, 1)
Bound == TLCGet("level") <= GLevel /\ \A x \in {1, 2} : sf[x].k # "undef" => \A m \in Present(sf[x]) : sf[x].z[m][1] <= 9 /\ sf[x].z[m][1] >= -9 /\ sf[x].z[m][2] <= 2
MCSpec == Init /\ hist = <<>> /\ fin = FALSE /\ [][MCNext]_gvars
=============================================================================
