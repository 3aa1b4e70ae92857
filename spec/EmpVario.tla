------------------------------ MODULE EmpVario ------------------------------
(* Empirical variograms (gaussianfft.util), in exact integer arithmetic on  *)
(* squared distances.  A grid is [n, d] (cells and integer steps per axis), *)
(* a field a function from cells to integers.                               *)
EXTENDS Num

Cells(g) == (0 .. g.n[1] - 1) \X (0 .. g.n[2] - 1) \X (0 .. g.n[3] - 1)
Sq(x) == x * x
D2(g, c, r) == Sq(g.d[1] * (c[1] - r[1])) + Sq(g.d[2] * (c[2] - r[2])) + Sq(g.d[3] * (c[3] - r[3]))

MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m
Max2(g, r) == MaxOf({D2(g, c, r) : c \in Cells(g)})

(* number of bins of width at least res up to the farthest cell             *)
NB(m, res) == MaxOf({k \in 0 .. 200 : Sq(k * res) <= m})
NBins(g, r, res) == NB(Max2(g, r), res)

(* bins divide [0, farthest] evenly and are closed below; the last one is   *)
(* closed on both sides                                                     *)
Bin(m, nb, d) == IF d = m THEN nb ELSE CHOOSE b \in 1 .. nb : Sq(b - 1) * m <= d * Sq(nb) /\ d * Sq(nb) < Sq(b) * m
BinMap(g, r, res) == LET m == Max2(g, r)  nb == NB(m, res) IN [c \in Cells(g) |-> Bin(m, nb, D2(g, c, r))]

(* a cell exactly on an inner edge: floating point may put it in either     *)
OnEdge(g, r, res) == LET m == Max2(g, r)  nb == NB(m, res)
                     IN \E c \in Cells(g), b \in 1 .. nb - 1 : Sq(b) * m = D2(g, c, r) * Sq(nb)

RECURSIVE SumOver(_, _)
SumOver(S, F) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN F[x] + SumOver(S \ {x}, F)

(* cells are stored x fastest                                               *)
At(g, f, c) == f[1 + c[1] + g.n[1] * (c[2] + g.n[2] * c[3])]

Bins(g, f, r, res) ==
  LET bm == BinMap(g, r, res) IN
  [b \in 1 .. NBins(g, r, res) |->
     LET S == {c \in Cells(g) : bm[c] = b}
         P == [c \in S |-> Sq(At(g, f, c) - At(g, f, r))]
     IN [sum |-> SumOver(S, P), cnt |-> Cardinality(S)]]

(* every cell is in exactly one bin *)
BinsCover(g, r, res) == LET bm == BinMap(g, r, res)  nb == NBins(g, r, res) IN \A c \in Cells(g) : bm[c] \in 1 .. nb

(* ---- the second estimator: unit steps, groups of equal distance from the *)
(* origin among the close cells and among the cells on a coarser lattice    *)
Origin == <<0, 0, 0>>
Close(g, cr2) == {c \in Cells(g) : D2(g, c, Origin) < cr2}
Lattice(g, step) == {c \in Cells(g) : c[1] % step = 0 /\ c[2] % step = 0 /\ c[3] % step = 0}
Group(g, f, S) ==
  {LET T == {c \in S : D2(g, c, Origin) = q}
       P == [c \in T |-> Sq(At(g, f, c) - At(g, f, Origin))]
   IN [d2 |-> q, sum |-> SumOver(T, P), cnt |-> Cardinality(T)] : q \in {D2(g, c, Origin) : c \in S}}

(* ---- reference points                                                    *)
RefOrder(g) == [i \in 1 .. g.n[1] * g.n[2] * g.n[3] |->
                  <<(i - 1) \div (g.n[2] * g.n[3]), ((i - 1) \div g.n[3]) % g.n[2], (i - 1) % g.n[3]>>]
Center(g) == <<g.n[1] \div 2, g.n[2] \div 2, g.n[3] \div 2>>
Regular(g, k, off) == LET N == g.n[1] * g.n[2] * g.n[3]  st == N \div k
                      IN [i \in 1 .. ((N - off) + st - 1) \div st |-> RefOrder(g)[off + 1 + (i - 1) * st]]
============================================================================
