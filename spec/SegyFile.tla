------------------------------ MODULE SegyFile ------------------------------
(* A SegY file being written trace by trace, or gathered in a table of the   *)
(* geometry's cells and written at once, then read from the start.           *)
(* Positions are in eighths of survey steps (Pos8), depth in samples.        *)
EXTENDS Survey, TLC

VARIABLES c, file, tab, rd, obs
svars == <<c, file, tab, rd, obs>>

(* the k-th value of the data called id *)
Val(id, k) == ((id * 37 + k * k * 5 + k * 3 + ((id * k) % 7)) % 401) - 200
Data(id, n) == [k \in 1 .. n |-> Val(id, k)]
(* n values placed f samples down, filled up with t above and b below *)
Padded(c0, id, f, n, t, b) == [k \in 1 .. c0.nz |-> IF k <= f THEN t ELSE IF k <= f + n THEN Val(id, k - f) ELSE b]

(* no top surface there: a trace of zeros *)
Samples(c0, id, f, n, t, b, gone) == IF gone THEN [k \in 1 .. c0.nz |-> 0] ELSE Padded(c0, id, f, n, t, b)

Off(id) == (id % 7) * 50                                              \* source offset given with the data called id
Trace(il, xl, p, s, off) == [il |-> il, xl |-> xl, p |-> p, s |-> s, off |-> off]
None == [none |-> TRUE]
Lines(c0, a8, b8) == << (IL8(c0, a8) + 4) \div 8, (XL8(c0, b8) + 4) \div 8 >>      \* nearest line numbers; no ties asked for
Ties(c0, a8, b8) == IL8(c0, a8) % 8 = 4 \/ XL8(c0, b8) % 8 = 4

Cells(c0) == (0 .. c0.nI - 1) \X (0 .. c0.nX - 1)
Ok == [k |-> "ok"]
Err == [k |-> "err"]

Start(c0) == c = c0 /\ file = <<>> /\ tab = [x \in Cells(c0) |-> None] /\ rd = 0 - 1 /\ obs = Ok

Writing == rd < 0
(* line numbers and position as given *)
WriteAt(il, xl, a8, b8, id) ==
  /\ Writing /\ file' = Append(file, Trace(il, xl, Pos8(c, a8, b8), Data(id, c.nz), Off(id))) /\ obs' = Ok /\ UNCHANGED <<c, tab, rd>>
(* the same with a header made before, and data from a top surface on *)
WriteHead(il, xl, a8, b8, id, f, n, t, b, gone) ==
  /\ Writing /\ f + n <= c.nz /\ file' = Append(file, Trace(il, xl, Pos8(c, a8, b8), Samples(c, id, f, n, t, b, gone), Off(id)))
  /\ obs' = Ok /\ UNCHANGED <<c, tab, rd>>
(* line numbers looked up in the geometry *)
WriteXY(a8, b8, id, f, n, t, b, gone) ==
  /\ Writing /\ f + n <= c.nz /\ UNCHANGED <<c, tab, rd>>
  /\ IF ~Inside(c, a8, b8) THEN obs' = Err /\ UNCHANGED file
     ELSE /\ obs' = Ok /\ ~Ties(c, a8, b8)
          /\ file' = Append(file, Trace(Lines(c, a8, b8)[1], Lines(c, a8, b8)[2], Pos8(c, a8, b8), Samples(c, id, f, n, t, b, gone), Off(id)))
Store(a8, b8, id, f, n, t, b, gone) ==
  /\ Writing /\ f + n <= c.nz /\ UNCHANGED <<c, file, rd>>
  /\ IF ~Inside(c, a8, b8) THEN obs' = Err /\ UNCHANGED tab
     ELSE /\ obs' = Ok /\ ~Ties(c, a8, b8)
          /\ tab' = [tab EXCEPT ![<<Cell(a8), Cell(b8)>>] = Trace(Lines(c, a8, b8)[1], Lines(c, a8, b8)[2], Pos8(c, a8, b8), Samples(c, id, f, n, t, b, gone), 0)]

(* the table in order of inline, then crossline *)
Before(x, y) == x.il < y.il \/ (x.il = y.il /\ x.xl < y.xl)
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>>
              ELSE LET m == CHOOSE x \in S : \A y \in S \ {x} : Before(tab[x], tab[y]) \/ (~Before(tab[y], tab[x]) /\ x[1] * c.nX + x[2] < y[1] * c.nX + y[2])
                   IN <<tab[m]>> \o InOrder(S \ {m})
Stored == {x \in Cells(c) : tab[x] # None}
Flush == /\ Writing /\ file' = file \o InOrder(Stored) /\ obs' = Ok /\ UNCHANGED <<c, tab, rd>>

(* reading: from the start, one by one, whole or only between top and base   *)
Open == Writing /\ Len(file) > 0 /\ rd' = 0 /\ obs' = [k |-> "num", n |-> Len(file)] /\ UNCHANGED <<c, file, tab>>
NextTrace == /\ ~Writing /\ UNCHANGED <<c, file, tab>>
             /\ IF rd = Len(file) THEN obs' = [k |-> "end"] /\ UNCHANGED rd
                ELSE obs' = [k |-> "trace", t |-> file[rd + 1], j0 |-> 0, j1 |-> c.nz - 1] /\ rd' = rd + 1
(* top and base in eighths of a sample below the first sample; padded on    *)
(* either side by zq quarters of their distance                              *)
First(t8, b8, zq) == LET x == 4 * t8 - zq * (b8 - t8) IN IF x < 0 THEN 0 ELSE x \div 32
Last(c0, t8, b8, zq) == LET x == (4 * b8 + zq * (b8 - t8)) \div 32 IN IF x > c0.nz - 1 THEN c0.nz - 1 ELSE x
NextBetween(t8, b8, zq) ==
  /\ ~Writing /\ UNCHANGED <<c, file, tab>> /\ t8 <= b8
  /\ IF rd = Len(file) THEN obs' = [k |-> "end"] /\ UNCHANGED rd
     ELSE /\ t8 >= 0 /\ b8 <= 8 * c.nz /\ rd' = rd + 1 /\ First(t8, b8, zq) <= Last(c, t8, b8, zq)
          /\ obs' = [k |-> "trace", t |-> file[rd + 1], j0 |-> First(t8, b8, zq), j1 |-> Last(c, t8, b8, zq)]
Again == ~Writing /\ rd' = 0 /\ obs' = Ok /\ UNCHANGED <<c, file, tab>>

(* ---- what must hold *)
OneCell == \A x \in Stored : <<IL(c, x[1]), XL(c, x[2])>> = <<tab[x].il, tab[x].xl>>
WholeTraces == \A i \in 1 .. Len(file) : Len(file[i].s) = c.nz
ReadsInOrder == rd <= Len(file)
OnlyGrows == [][Writing => Len(file') >= Len(file) /\ SubSeq(file', 1, Len(file)) = file]_svars
RefusedIsSilent == [][obs' = Err => UNCHANGED <<file, tab, rd>>]_svars
ReadingIsSilent == [][~Writing => UNCHANGED <<file, tab>>]_svars
=============================================================================
