------------------------------ MODULE Surfaces ------------------------------
(* Surfaces given by values in the nodes of a regular grid, possibly rotated *)
(* about its corner.  A node whose value equals the surface's missing value  *)
(* has no value.  Lengths are integers, values are rationals, angles are     *)
(* Pythagorean triples <<c, s, h>>; positions in a cell are in eighths.      *)
EXTENDS Rat, FiniteSets, TLC

VARIABLES sf, file, obs
svars == <<sf, file, obs>>

IRAP == 9999900
STORM == -999
NoRot == <<1, 0, 1>>

Undef == [k |-> "undef"]
Surf(k, x0, y0, lx, ly, ni, nj, z, mv, tri, nm) ==
  [k |-> k, x0 |-> x0, y0 |-> y0, lx |-> lx, ly |-> ly, ni |-> ni, nj |-> nj, z |-> z, mv |-> mv, tri |-> tri, nm |-> nm]
DX(s) == s.lx \div (s.ni - 1)
DY(s) == s.ly \div (s.nj - 1)
N(s) == s.ni * s.nj
At(s, i, j) == s.z[i + j * s.ni + 1]
Miss(s, v) == v = QI(s.mv)
Def(s) == s.k \in {"plain", "rot"}

(* --- values between the nodes ------------------------------------------- *)
CellOf(a8) == a8 \div 8
Corner(s, i, j) == IF i \in 0 .. s.ni - 1 /\ j \in 0 .. s.nj - 1 THEN At(s, i, j) ELSE QI(s.mv)
Corners(s, a8, b8) ==
  LET i == CellOf(a8)  j == CellOf(b8) IN << Corner(s, i, j), Corner(s, i + 1, j), Corner(s, i, j + 1), Corner(s, i + 1, j + 1) >>
Weights(a8, b8) == LET u == a8 % 8  v == b8 % 8 IN << (8 - u) * (8 - v), u * (8 - v), (8 - u) * v, u * v >>
(* the weighted mean of the corners that have a value *)
Z(s, a8, b8) ==
  LET c == Corners(s, a8, b8)  w == Weights(a8, b8)
      K == {k \in 1 .. 4 : ~Miss(s, c[k])}
      Part(k) == IF k \in K THEN QMul(QI(w[k]), c[k]) ELSE QI(0)
      W(k) == IF k \in K THEN w[k] ELSE 0
      sw == W(1) + W(2) + W(3) + W(4) IN
  IF sw = 0 THEN QI(s.mv)
  ELSE QDiv(QAdd(QAdd(Part(1), Part(2)), QAdd(Part(3), Part(4))), QI(sw))
ZInside(s, a8, b8) == LET c == Corners(s, a8, b8) IN IF \E k \in 1 .. 4 : Miss(s, c[k]) THEN QI(s.mv) ELSE Z(s, a8, b8)
InsideS(s, a8, b8) == a8 >= 0 /\ a8 <= 8 * (s.ni - 1) /\ b8 >= 0 /\ b8 <= 8 * (s.nj - 1)
Clamp(i, n) == IF i < 0 THEN 0 ELSE IF i >= n THEN n - 1 ELSE i
Nearest(s, a8, b8) == << Clamp((a8 + 4) \div 8, s.ni), Clamp((b8 + 4) \div 8, s.nj) >>

(* --- positions ------------------------------------------------------------ *)
(* h times the position of the point (a, b) along the axes of the surface    *)
PosH(s, a, b) == << s.tri[3] * s.x0 + s.tri[1] * a - s.tri[2] * b, s.tri[3] * s.y0 + s.tri[2] * a + s.tri[1] * b >>
CornerPos(s) == {PosH(s, a, b) : a \in {0, s.lx}, b \in {0, s.ly}}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Box(s) == LET P == CornerPos(s) IN << MinOf({p[1] : p \in P}), MaxOf({p[1] : p \in P}), MinOf({p[2] : p \in P}), MaxOf({p[2] : p \in P}) >>
Encloses(s, r) == LET b == Box(s)  h == s.tri[3] IN r[1] * h >= b[1] /\ r[2] * h <= b[2] /\ r[3] * h >= b[3] /\ r[4] * h <= b[4]

(* --- summaries ------------------------------------------------------------ *)
Present(s) == {m \in 1 .. N(s) : ~Miss(s, s.z[m])}
(* over the nodes 1 .. m: <<smallest, largest, sum>> of the values there are  *)
RECURSIVE Scan(_, _)
Scan(s, m) == IF m = 0 THEN <<>>
              ELSE LET r == Scan(s, m - 1)  v == s.z[m] IN
                   IF Miss(s, v) THEN r ELSE IF r = <<>> THEN <<v, v, v>>
                   ELSE << IF QLess(v, r[1]) THEN v ELSE r[1], IF QLess(r[2], v) THEN v ELSE r[2], QAdd(r[3], v) >>
Summary(s) == LET r == Scan(s, N(s)) IN IF r = <<>> THEN <<QI(s.mv), QI(s.mv), QI(0)>> ELSE r
RECURSIVE SumOver(_, _)
SumOver(s, M) == IF M = {} THEN QI(0) ELSE LET m == CHOOSE m \in M : TRUE IN QAdd(s.z[m], SumOver(s, M \ {m}))

(* --- operations ------------------------------------------------------------ *)
Do(x, t) == sf' = [sf EXCEPT ![x] = t] /\ UNCHANGED file
None == obs' = <<>>
(* no value becomes equal to the missing value by arithmetic, and rationals stay small *)
Tame(s, t) == TRUE = \A m \in 1 .. N(t) : QSmall(t.z[m]) \/ Miss(t, t.z[m])
Fresh(s, t) == TRUE = \A m \in 1 .. N(t) : ~Miss(s, s.z[m]) => ~Miss(t, t.z[m])
New(x, s) == Do(x, s) /\ None
Put(x, i, j, v) == Def(sf[x]) /\ None /\ Do(x, [sf[x] EXCEPT !.z[i + j * sf[x].ni + 1] = v])
PutMissing(x, i, j) == Put(x, i, j, QI(sf[x].mv))
Recode(x, v) == Def(sf[x]) /\ Tame(sf[x], [sf[x] EXCEPT !.mv = v]) /\ None /\ Do(x, [sf[x] EXCEPT !.mv = v])
Map(x, F(_)) == LET s == sf[x]  t == [s EXCEPT !.z = [m \in 1 .. N(s) |-> IF Miss(s, s.z[m]) THEN s.z[m] ELSE F(s.z[m])]] IN
                Tame(s, t) /\ Fresh(s, t) /\ Do(x, t) /\ None
Fill(x, c) == Def(sf[x]) /\ None /\ Do(x, [sf[x] EXCEPT !.z = [m \in 1 .. N(sf[x]) |-> QI(c)]])
Arith(x, op, c) == Def(sf[x]) /\ CASE op = "add" -> Map(x, LAMBDA v : QAdd(v, QI(c)))
                                   [] op = "sub" -> Map(x, LAMBDA v : QSub(v, QI(c)))
                                   [] op = "mul" -> Map(x, LAMBDA v : QMul(v, QI(c)))
Both(op, a, b) == CASE op = "add" -> QAdd(a, b) [] op = "sub" -> QSub(a, b) [] op = "mul" -> QMul(a, b) [] op = "div" -> QDiv(a, b)
(* the other surface's value in a node of this one; where it has none, this  *)
(* surface loses its own                                                      *)
Aligned(s, t) ==
  \/ /\ s.tri = NoRot /\ t.tri = NoRot
     /\ ((s.x0 - t.x0) * 8) % DX(t) = 0 /\ (DX(s) * 8) % DX(t) = 0
     /\ ((s.y0 - t.y0) * 8) % DY(t) = 0 /\ (DY(s) * 8) % DY(t) = 0
     /\ \A k \in {s, t} : k.k = "rot" => Present(t) = 1 .. N(t)
  \/ /\ s.tri = t.tri /\ s.x0 = t.x0 /\ s.y0 = t.y0 /\ (DX(s) * 8) % DX(t) = 0 /\ (DY(s) * 8) % DY(t) = 0 /\ Present(t) = 1 .. N(t)
     /\ s.lx <= t.lx /\ s.ly <= t.ly
OtherZ(s, t, m) ==
  LET i == (m - 1) % s.ni  j == (m - 1) \div s.ni IN
  Z(t, ((s.x0 - t.x0 + i * DX(s)) * 8) \div DX(t), ((s.y0 - t.y0 + j * DY(s)) * 8) \div DY(t))
Combine(x, y, op) ==
  LET s == sf[x]  t == sf[y] IN
  /\ Def(s) /\ Def(t) /\ TRUE = Aligned(s, t)
  /\ LET o == [m \in 1 .. N(s) |-> OtherZ(s, t, m)]
         ok == {m \in 1 .. N(s) : ~Miss(s, s.z[m]) /\ ~Miss(t, o[m])}
         r == [s EXCEPT !.z = [m \in 1 .. N(s) |-> IF m \in ok THEN Both(op, s.z[m], o[m]) ELSE QI(s.mv)]] IN
     /\ TRUE = (op = "div" => \A m \in ok : o[m][1] # 0)
     /\ TRUE = \A m \in ok : QSmall(o[m]) /\ QSmall(s.z[m]) /\ ~Miss(r, r.z[m])
     /\ Tame(s, r)
     /\ Do(x, r) /\ None
CombineConst(x, c, op) == Def(sf[x]) /\ TRUE = (op = "div" => c # 0) /\ Map(x, LAMBDA v : Both(op, v, QI(c)))
(* the mean of the neighbours that have a value *)
Around(s, i, j) == {q \in {<<i + a, j + b>> : a \in -1 .. 1, b \in -1 .. 1} : q # <<i, j>> /\ q[1] \in 0 .. s.ni - 1 /\ q[2] \in 0 .. s.nj - 1
                                                                            /\ ~Miss(s, At(s, q[1], q[2]))}
NeighbourMean(x, i, j) ==
  LET s == sf[x]  K == Around(s, i, j)
      v == IF K = {} THEN QI(s.mv) ELSE QDiv(SumOver(s, {q[1] + q[2] * s.ni + 1 : q \in K}), QI(Cardinality(K))) IN
  /\ s.k = "plain" /\ TRUE = (K # {} => QSmall(v) /\ ~Miss(s, v))
  /\ sf' = [sf EXCEPT ![x].z[i + j * s.ni + 1] = v] /\ UNCHANGED file /\ obs' = <<IF K = {} THEN 0 ELSE 1>>
Move(x, x0, y0, lx, ly) == Def(sf[x]) /\ None /\ Do(x, [sf[x] EXCEPT !.x0 = x0, !.y0 = y0, !.lx = lx, !.ly = ly])
Reshape(x, ni, nj, v) == Def(sf[x]) /\ None /\ Do(x, [sf[x] EXCEPT !.ni = ni, !.nj = nj, !.z = [m \in 1 .. ni * nj |-> QI(v)]])
Turn(x, tri) == sf[x].k = "rot" /\ None /\ Do(x, [sf[x] EXCEPT !.tri = tri])
Swap(x, y) == sf[x].k = "plain" /\ sf[y].k = "plain" /\ sf' = [sf EXCEPT ![x] = sf[y], ![y] = sf[x]] /\ UNCHANGED file /\ None
CopyOf(x, y) == Def(sf[y]) /\ Do(x, sf[y]) /\ None
Rotate(x, y, tri) == sf[y].k = "plain" /\ Do(x, [sf[y] EXCEPT !.k = "rot", !.tri = tri]) /\ None
Name(x, nm) == sf[x].k \in {"plain", "rot"} /\ Do(x, [sf[x] EXCEPT !.nm = nm]) /\ None

(* --- files ------------------------------------------------------------------ *)
(* A file holds everything but the surface's own code for a missing value.    *)
Dyadic(s) == \A m \in Present(s) : 64 % s.z[m][2] = 0
Save(x, f, fmt) ==
  LET s == sf[x]  code == IF fmt = "irap" THEN IRAP ELSE STORM IN
  /\ Def(s) /\ TRUE = ((fmt = "irap" => Dyadic(s)) /\ (fmt = "storm" => s.tri = NoRot))
  /\ TRUE = \A m \in Present(s) : s.z[m] # QI(code)
  /\ file' = [file EXCEPT ![f] = Surf(fmt, s.x0, s.y0, s.lx, s.ly, s.ni, s.nj, [m \in 1 .. N(s) |-> IF Miss(s, s.z[m]) THEN QI(code) ELSE s.z[m]], code, s.tri, f)]
  /\ UNCHANGED sf /\ None
Load(x, f, kind) ==
  LET s == file[f] IN
  /\ s.k # "undef"
  /\ IF kind = "plain" /\ s.tri # NoRot THEN Do(x, Undef) /\ obs' = <<"error">>
     ELSE Do(x, [s EXCEPT !.k = kind]) /\ obs' = <<"ok">>

(* --- questions -------------------------------------------------------------- *)
B01(b) == IF b THEN 1 ELSE 0
Ask(x, a8, b8) ==
  LET s == sf[x] IN
  /\ Def(s) /\ UNCHANGED <<sf, file>>
  /\ obs' = [z |-> Z(s, a8, b8), zi |-> ZInside(s, a8, b8), in |-> B01(InsideS(s, a8, b8)), c |-> Corners(s, a8, b8),
             cell |-> <<CellOf(a8), CellOf(b8)>>, near |-> Nearest(s, a8, b8)]
AskRect(x, r) == /\ Def(sf[x]) /\ UNCHANGED <<sf, file>> /\ obs' = <<B01(Encloses(sf[x], r))>>
(* the whole of a surface as seen from outside *)
View(s) == IF ~Def(s) THEN [k |-> s.k]
           ELSE [k |-> s.k, x0 |-> s.x0, y0 |-> s.y0, lx |-> s.lx, ly |-> s.ly, ni |-> s.ni, nj |-> s.nj, dx |-> DX(s), dy |-> DY(s), z |-> s.z, mv |-> s.mv,
                 tri |-> s.tri, nm |-> s.nm, box |-> Box(s), sum |-> Summary(s), n |-> Cardinality(Present(s))]

(* --- what the operations promise -------------------------------------------- *)
Init == sf = [x \in {1, 2} |-> Undef] /\ file = [f \in {"f1", "f2"} |-> Undef] /\ obs = <<>>
(* between nodes that have values the surface stays between them, in a node it has the node's value *)
Bounded == \A x \in {1, 2} : LET s == sf[x] IN Def(s) =>
             \A a8 \in {-3, 0, 5, 8 * (s.ni - 1)}, b8 \in {0, 3, 8 * s.nj - 1} :
               LET z == Z(s, a8, b8)  c == {v \in {Corners(s, a8, b8)[k] : k \in 1 .. 4} : ~Miss(s, v)} IN
               /\ (z # QI(s.mv) => (\E v \in c : ~QLess(z, v)) /\ (\E v \in c : ~QLess(v, z)))
               /\ (a8 % 8 = 0 /\ b8 % 8 = 0 => z = Corners(s, a8, b8)[1])
               /\ (ZInside(s, a8, b8) # QI(s.mv) => ZInside(s, a8, b8) = z)
Extremes == \A x \in {1, 2} : LET s == sf[x] IN Def(s) => LET r == Summary(s) IN
              \A m \in Present(s) : ~QLess(s.z[m], r[1]) /\ ~QLess(r[2], s.z[m])
InBox == \A x \in {1, 2} : LET s == sf[x] IN Def(s) => \A p \in CornerPos(s) : LET b == Box(s) IN p[1] >= b[1] /\ p[1] <= b[2] /\ p[2] >= b[3] /\ p[2] <= b[4]
(* a file read again is the surface written: same nodes, same values, and missing where it was missing *)
FilesKeep == [][\A f \in {"f1", "f2"} : file[f] # file'[f] => \E x \in {1, 2} :
                   /\ Def(sf[x]) /\ N(sf[x]) = N(file'[f]) /\ \A m \in 1 .. N(sf[x]) : IF Miss(sf[x], sf[x].z[m]) THEN Miss(file'[f], file'[f].z[m]) ELSE file'[f].z[m] = sf[x].z[m]]_svars
=============================================================================
