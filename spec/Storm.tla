-------------------------------- MODULE Storm --------------------------------
(* Volumes between two surfaces, turned by an angle, and grids of cells that *)
(* fill them (StormContGrid, StormFaciesGrid), with their files. Lengths are *)
(* integers relative to an origin of the case; angles are given by integers  *)
(* <<c, s, h>> with c^2 + s^2 = h^2; a surface is a plane a + (b x + c y)/4, *)
(* known within a box, or constant and known everywhere.                     *)
EXTENDS Rat, FiniteSets, SequencesExt, TLC
None == [k |-> "none"]
Id(t) == t = <<1, 0, 1>>
(* --- places ---------------------------------------------------------------- *)
Turn(v, X, Y) == LET t == v.tri IN                       \* local (rational) to global
  << QAdd(QI(v.x0), QMul(Q(1, t[3]), QSub(QMul(QI(t[1]), X), QMul(QI(t[2]), Y)))),
     QAdd(QI(v.y0), QMul(Q(1, t[3]), QAdd(QMul(QI(t[2]), X), QMul(QI(t[1]), Y)))) >>
Loc(v, a8, b8) == << Q(a8 * v.lx, 8 * v.ni), Q(b8 * v.ly, 8 * v.nj) >>
At8(v, a8, b8) == LET l == Loc(v, a8, b8) IN Turn(v, l[1], l[2])
Z(f, p) == QAdd(QI(f.a), QMul(Q(1, 4), QAdd(QMul(QI(f.b), p[1]), QMul(QI(f.c), p[2]))))
Thick(v, p) == QSub(Z(v.bot, p), Z(v.top, p))
Corners(v) == { Turn(v, QI(i * v.lx), QI(j * v.ly)) : i, j \in 0 .. 1 }
(* --- does the surface cover the volume: "yes", "no", "edge" ------------------ *)
Cover(v, f) ==
  IF f.box = <<>> THEN "yes"
  ELSE LET cs == Corners(v)  q(n) == QI(f.box[n])
           Out(p) == QLess(p[1], q(1)) \/ QLess(q(3), p[1]) \/ QLess(p[2], q(2)) \/ QLess(q(4), p[2])
           On(p) == p[1] = q(1) \/ p[1] = q(3) \/ p[2] = q(2) \/ p[2] = q(4) IN
       IF \E p \in cs : Out(p) THEN "no" ELSE IF \E p \in cs : On(p) THEN "edge" ELSE "yes"
Covers(v, fs) == LET r == {Cover(v, fs[i]) : i \in DOMAIN fs} IN IF "no" \in r THEN "no" ELSE IF "edge" \in r THEN "edge" ELSE "yes"
Both(v) == <<v.top, v.bot>>
All(v) == Both(v) \o v.ero
Covered(v) == Covers(v, Both(v)) = "yes"

(* --- cells ------------------------------------------------------------------- *)
NCells(v) == v.ni * v.nj * v.nk
Pos(v, i, j, k) == 1 + i + v.ni * (j + v.nj * k)
Val(v, i, j, k) == v.z[Pos(v, i, j, k)]
Centre(v, i, j, k) == LET p == At8(v, 8 * i + 4, 8 * j + 4) IN <<p[1], p[2], QAdd(Z(v.top, p), QMul(Thick(v, p), Q(2 * k + 1, 2 * v.nk)))>>
Plain(v) == v.top.b = 0 /\ v.top.c = 0 /\ v.bot.b = 0 /\ v.bot.c = 0 /\ v.nk \in {1, 2, 4}
(* a point c8 eighths of a layer below the top, in local eighths of cells        *)
Column(v, a8, b8) == IF a8 < 0 \/ b8 < 0 \/ a8 >= 8 * v.ni \/ b8 >= 8 * v.nj THEN <<-1, -1>> ELSE <<a8 \div 8, b8 \div 8>>
ClearXY(v, a8, b8) == Id(v.tri) \/ ~ (a8 \in {0, 8 * v.ni} \/ b8 \in {0, 8 * v.nj} \/ a8 % 8 = 0 \/ b8 % 8 = 0)
Layer(v, c8) == IF c8 < 0 \/ c8 > 8 * v.nk THEN -1 ELSE IF c8 = 8 * v.nk THEN v.nk - 1 ELSE c8 \div 8
Mix(x, y, t8) == Q(x * (8 - t8) + y * t8, 8)
(* interpolation between centres of cells, constant beyond the first and last    *)
Between(v, i, j, c8) ==
  LET u == c8 - 4 IN
  IF u <= 0 THEN QI(Val(v, i, j, 0)) ELSE IF u >= 8 * (v.nk - 1) THEN QI(Val(v, i, j, v.nk - 1))
  ELSE LET k == u \div 8  p == Val(v, i, j, k)  q == Val(v, i, j, k + 1) IN
       IF p = v.miss THEN QI(q) ELSE IF q = v.miss THEN QI(p) ELSE Mix(p, q, u % 8)
Touches(v, i, j, c8) == LET u == c8 - 4 IN      \* the cells that take part
  IF u <= 0 THEN {Val(v, i, j, 0)} ELSE IF u >= 8 * (v.nk - 1) THEN {Val(v, i, j, v.nk - 1)} ELSE {Val(v, i, j, u \div 8), Val(v, i, j, u \div 8 + 1)}
FromTop(v, i, j, c8) ==                                   \* by layer number
  LET k == c8 \div 8  p == Val(v, i, j, k)  q == Val(v, i, j, IF k = v.nk - 1 THEN k ELSE k + 1) IN
  IF p = v.miss THEN QI(p) ELSE IF q = v.miss THEN QI(p) ELSE Mix(p, q, c8 % 8)

Ask(v, a8, b8, c8, tol) ==
  LET p == At8(v, a8, b8)  T == Thick(v, p)  col == Column(v, a8, b8)  in == col[1] >= 0
      flat == T = QI(0)  dead == QLess(T, QI(0))  exact == Plain(v) /\ ~ flat
      zc == exact \/ (~ flat /\ c8 % 2 = 1)
      z == IF flat THEN Z(v.top, p) ELSE QAdd(Z(v.top, p), QMul(T, Q(c8, 8 * v.nk)))
      box == a8 >= 0 /\ b8 >= 0 /\ a8 <= 8 * v.ni /\ b8 <= 8 * v.nj IN
  [x |-> p[1], y |-> p[2], z |-> z, cell |-> col,
   layer |-> IF ~ in THEN -1 ELSE IF flat THEN 0 ELSE Layer(v, c8),
   box |-> IF box THEN 1 ELSE 0,
   in |-> IF box /\ ~ flat /\ c8 > 0 /\ c8 < 8 * v.nk THEN 1 ELSE 0,
   nearz |-> IF box /\ QLess(QSub(Z(v.top, p), Q(tol, 64)), z) /\ QLess(z, QAdd(Z(v.bot, p), Q(tol, 64))) THEN 1 ELSE 0,
   val |-> IF in /\ ~ flat THEN Between(v, col[1], col[2], c8) ELSE QI(0),
   near |-> IF ~ in THEN QI(v.miss) ELSE IF flat \/ v.miss \in Touches(v, col[1], col[2], c8) THEN QI(0) ELSE Between(v, col[1], col[2], c8),
   nearok |-> IF in /\ ~flat /\ v.miss \in Touches(v, col[1], col[2], c8) THEN 0 ELSE 1,
   lay |-> IF in /\ c8 >= 0 /\ c8 < 8 * v.nk THEN FromTop(v, col[1], col[2], c8) ELSE QI(0),
   layok |-> IF in /\ c8 >= 0 /\ c8 < 8 * v.nk THEN 1 ELSE 0,
   okxy |-> IF ClearXY(v, a8, b8) THEN 1 ELSE 0,
   v |-> v, okz |-> IF ~ dead /\ (zc \/ (flat /\ Plain(v))) THEN 1 ELSE 0, flat |-> IF flat THEN 1 ELSE 0]

MaxQ(S) == CHOOSE x \in S : \A y \in S : ~ QLess(x, y)
MinQ(S) == CHOOSE x \in S : \A y \in S : ~ QLess(y, x)
(* the largest height: not below that in the near corners of the cells, not     *)
(* above that in the corners of the volume                                      *)
Heights(v) == <<MaxQ({QI(0)} \cup {Thick(v, At8(v, 8 * i, 8 * j)) : i \in 0 .. v.ni - 1, j \in 0 .. v.nj - 1}), MaxQ({QI(0)} \cup {Thick(v, p) : p \in Corners(v)})>>
Cells(v) ==
  LET cc == [n \in 1 .. v.ni * v.nj |-> At8(v, 8 * ((n - 1) % v.ni) + 4, 8 * ((n - 1) \div v.ni) + 4)]
      T == {Z(v.top, cc[n]) : n \in DOMAIN cc}  B == {Z(v.bot, cc[n]) : n \in DOMAIN cc} IN
  [xyz |-> [m \in 1 .. NCells(v) |-> Centre(v, (m - 1) % v.ni, ((m - 1) \div v.ni) % v.nj, (m - 1) \div (v.ni * v.nj))],
   clear |-> IF \A n \in DOMAIN cc : QLess(QI(0), Thick(v, cc[n])) THEN 1 ELSE 0,
   ext |-> <<MinQ(T), MaxQ(T), MinQ(B), MaxQ(B)>>,
   mid |-> LET p == Turn(v, Q(v.lx, 2), Q(v.ly, 2)) IN <<p[1], p[2], QMul(Q(1, 2), QAdd(Z(v.top, p), Z(v.bot, p)))>>,
   rel |-> [n \in 1 .. 4 |-> Turn(v, QI(((n - 1) % 2) * v.lx), QI(((n - 1) \div 2) * v.ly))],
   sum |-> QSum([n \in DOMAIN cc |-> Thick(v, cc[n])]),
   v |-> v,
   ztop |-> [n \in 1 .. 4 |-> LET p == Turn(v, Q((2 * ((n - 1) % 2) + 1) * v.lx, 4), Q((2 * ((n - 1) \div 2) + 1) * v.ly, 4)) IN [i \in DOMAIN All(v) |-> Z(All(v)[i], p)]],
   lz |-> Heights(v)]
View(v) == [c |-> v, cov |-> IF Covered(v) THEN 1 ELSE 0]

(* --- bodies and facies --------------------------------------------------------- *)
Consistent(v) == v.k = "cont" \/
  /\ \A i \in DOMAIN v.bodies : v.bodies[i] \in 0 .. Len(v.names) - 1
  /\ \A m \in DOMAIN v.z : v.z[m] = v.miss \/ v.z[m] \in 0 .. Len(v.bodies) - 1
Facies(v) == [m \in DOMAIN v.z |-> IF v.z[m] \in 0 .. Len(v.bodies) - 1 THEN v.bodies[v.z[m] + 1] ELSE -1]
NameOf(v, f) == IF f \in 0 .. Len(v.names) - 1 THEN v.names[f + 1] ELSE ""

(* --- operations: the new state and what is seen ---------------------------------- *)
(* st = [g |-> two grids, f |-> files]; an answer of "throws" leaves the grid undefined *)
Ok(st, o) == [st |-> st, ans |-> "ok", o |-> o]
Throws(st) == [st |-> st, ans |-> "throws", o |-> 0]
Open(st) == [st |-> st, ans |-> "open", o |-> 0]
Put(st, s, v) == [st EXCEPT !.g[s] = v]
Reshape(st, s, v, fs) == LET c == Covers(v, fs) IN
  IF c = "yes" THEN Ok(Put(st, s, v), 0) ELSE IF c = "no" THEN Throws(Put(st, s, None)) ELSE Open(Put(st, s, None))
Fresh(e) == [k |-> e.k, x0 |-> e.x0, y0 |-> e.y0, lx |-> e.lx, ly |-> e.ly, tri |-> e.tri, top |-> e.top, bot |-> e.bot, ero |-> <<>>, ni |-> e.ni, nj |-> e.nj, nk |-> e.nk,
             z |-> [m \in 1 .. e.ni * e.nj * e.nk |-> e.val], miss |-> -999, zone |-> 0, model |-> "ModelFile", var |-> "UNKNOWN", fmt |-> 0, names |-> <<>>, bodies |-> <<>>]
Flat0 == [a |-> 0, b |-> 0, c |-> 0, box |-> <<>>]
Step(st, e) ==
  IF e.op # "new" /\ e.op # "read" /\ st.g[e.s].k = "none" THEN Open(IF e.op = "copy" THEN Put(st, e.t, None) ELSE IF e.op \in {"write", "cut"} THEN [st EXCEPT !.f[e.f] = None] ELSE st)
  ELSE LET v == st.g[e.s] IN
  CASE e.op = "new" -> IF e.how = 1 THEN Reshape(st, e.s, Fresh(e), <<e.top, e.bot>>) ELSE Ok(Put(st, e.s, Fresh(e)), 0)
    [] e.op = "set" -> LET m == 1 + (e.m % NCells(v)) IN Ok(Put(st, e.s, [v EXCEPT !.z[m] = e.v]), 0)
    [] e.op = "fill" -> Ok(Put(st, e.s, [v EXCEPT !.z = [m \in DOMAIN v.z |-> e.v[1 + ((m * e.m) % Len(e.v))]]]), 0)
    [] e.op = "miss" -> Ok(Put(st, e.s, [v EXCEPT !.miss = e.v]), 0)
    [] e.op = "label" -> Ok(Put(st, e.s, [v EXCEPT !.zone = e.zone, !.model = e.model, !.var = IF v.k = "cont" THEN e.var ELSE @]), 0)
    [] e.op = "fmt" -> Ok(Put(st, e.s, [v EXCEPT !.fmt = e.v]), 0)
    [] e.op = "bodies" -> IF v.k = "cont" THEN Open(st) ELSE Ok(Put(st, e.s, [v EXCEPT !.names = e.names, !.bodies = e.bodies]), 0)
    [] e.op = "dims" -> LET w == [v EXCEPT !.x0 = e.x0, !.y0 = e.y0, !.lx = e.lx, !.ly = e.ly] IN Reshape(st, e.s, w, All(w))
    [] e.op = "angle" -> LET w == [v EXCEPT !.tri = e.tri] IN Reshape(st, e.s, w, All(w))
    [] e.op = "surf" -> LET w == [v EXCEPT !.top = IF e.own = 1 THEN @ ELSE e.top, !.bot = IF e.own = 2 THEN @ ELSE e.bot] IN IF e.skip = 1 THEN Ok(Put(st, e.s, w), 0) ELSE Reshape(st, e.s, w, All(w))
    [] e.op = "surf4" -> LET w == [v EXCEPT !.top = IF e.own = 1 THEN @ ELSE e.top, !.bot = IF e.own = 2 THEN @ ELSE e.bot, !.ero = <<e.et, e.eb>>] IN Reshape(st, e.s, w, All(w))
    [] e.op = "copy" -> Ok(Put(st, e.t, v), 0)
    [] e.op = "write" -> IF ~ Consistent(v) THEN Throws(st) ELSE Ok([st EXCEPT !.f[e.f] = [k |-> "file", v |-> v, e |-> e.e]], 0)
    [] e.op = "read" ->
         LET f == st.f[e.f] IN
         IF f.k = "none" THEN Open(Put(st, e.s, None))
         ELSE IF f.v.k # e.k \/ f.k = "short" THEN Throws(Put(st, e.s, None))
         ELSE IF f.v.fmt = 0 /\ f.e # e.e THEN Open(Put(st, e.s, None))
         ELSE LET w == [f.v EXCEPT !.ero = IF @ = <<>> THEN <<Flat0, Flat0>> ELSE @]  c == Covers(w, All(w)) IN
              IF c = "yes" THEN Ok(Put(st, e.s, w), 0) ELSE IF c = "no" THEN Throws(Put(st, e.s, None)) ELSE Open(Put(st, e.s, None))
    [] e.op = "cut" /\ e.w > 0 ->                        \* the file of a surface is lost
         IF st.f[e.f].k # "file" THEN Open(st)
         ELSE LET fs == All(st.f[e.f].v) IN IF e.w <= Len(fs) /\ fs[e.w].box # <<>> THEN Ok([st EXCEPT !.f[e.f].k = "short"], 0) ELSE Ok(st, 0)
    [] e.op = "cut" -> IF st.f[e.f].k = "file" /\ st.f[e.f].v.fmt = 0 THEN Ok([st EXCEPT !.f[e.f].k = "short"], 0) ELSE Open([st EXCEPT !.f[e.f] = None])
    [] e.op = "raw" -> Ok(st, IF v.k = "cont" THEN v.z ELSE <<>>)
    [] e.op = "crava" -> Ok(st, IF v.k = "cont" THEN [v |-> v, z |-> [m \in 1 .. NCells(v) |-> Val(v, (m - 1) \div (v.nj * v.nk), ((m - 1) \div v.nk) % v.nj, (m - 1) % v.nk)]] ELSE <<>>)
    [] e.op = "sgri" -> IF v.k = "cont" /\ Plain(v) /\ v.top.a < v.bot.a THEN Ok(st, View(v)) ELSE Open(st)
    [] e.op = "facies" -> IF v.k = "cont" THEN Open(st) ELSE Ok(st, [v |-> v, f |-> Facies(v), n |-> [i \in 1 .. Len(v.names) + 2 |-> NameOf(v, i - 2)], ok |-> IF Consistent(v) THEN 1 ELSE 0])
    [] e.op = "view" -> Ok(st, View(v))
    [] e.op = "cells" -> IF Covered(v) /\ Covers(v, v.ero) = "yes" THEN Ok(st, Cells(v)) ELSE Open(st)
    [] e.op = "ask" -> IF Covered(v) /\ (\A f \in {v.top, v.bot} : f.box = <<>> \/ LET p == At8(v, e.a, e.b) IN QLess(QI(f.box[1]), p[1]) /\ QLess(p[1], QI(f.box[3])) /\ QLess(QI(f.box[2]), p[2]) /\ QLess(p[2], QI(f.box[4])))
                       THEN Ok(st, Ask(v, e.a, e.b, e.c, e.tol)) ELSE Open(st)

(* --- theorems about a state ------------------------------------------------------ *)
CellsAreFound(v) == Covered(v) => \A i \in 0 .. v.ni - 1, j \in 0 .. v.nj - 1, k \in 0 .. v.nk - 1 :
   LET a == Ask(v, 8 * i + 4, 8 * j + 4, 8 * k + 4, 0)  c == Centre(v, i, j, k) IN
   /\ a.cell = <<i, j>> /\ a.x = c[1] /\ a.y = c[2] /\ (a.flat = 0 => a.layer = k /\ a.z = c[3]) /\ a.box = 1
   /\ (a.flat = 0 => a.in = 1) /\ (a.flat = 0 /\ Val(v, i, j, k) # v.miss => a.val = QI(Val(v, i, j, k)))
Thm(st) == \A s \in DOMAIN st.g : st.g[s].k # "none" =>
   /\ Len(st.g[s].z) = NCells(st.g[s])
   /\ CellsAreFound(st.g[s])
   /\ LET h == Heights(st.g[s]) IN ~ QLess(h[2], h[1])
   (* what is written is read back *)
   /\ LET w == Step(st, [op |-> "write", s |-> s, f |-> 1, e |-> 0])
          r == Step(w.st, [op |-> "read", s |-> s, k |-> st.g[s].k, f |-> 1, e |-> 0]) IN
      (w.ans = "ok" /\ r.ans = "ok") => [r.st.g[s] EXCEPT !.ero = <<>>] = [st.g[s] EXCEPT !.ero = <<>>]
=============================================================================
