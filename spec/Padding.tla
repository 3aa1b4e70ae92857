------------------------------ MODULE Padding ------------------------------
(* The padding rule behind simulation_size and the default grid of every    *)
(* simulation.  Lengths are integers in a common unit.                      *)
EXTENDS Variograms, FftSize

(* Padding along one axis: enough cells that the padded axis covers Ratio   *)
(* ranges, never less than one range; one extra cell.                       *)
PadSet(v, n, range, step) ==
  LET need == Ratio(v) * range - 1000 * n * step      \* > 0: axis too short
      P == IF need < 0 THEN {0} ELSE TruncSet(need, 1000 * step)
      Q == TruncSet(range, step)
  IN {Max(p, q) + 1 : p \in P, q \in Q}

(* Ranges seen by each axis of a d-dimensional grid.                        *)
AxisRanges(v, d) ==
  IF d = 1 THEN <<v.rx>>
  ELSE LET rx == Max(v.rx, v.ry)
           ry == IF v.azi = 0 THEN v.ry ELSE rx
       IN IF d = 2 THEN <<rx, ry>> ELSE <<rx, ry, v.rz>>

(* Dimension of simulation_size: only the cell counts matter.               *)
SizeDim(c) == IF c.ny <= 1 THEN 1 ELSE IF c.nz <= 1 THEN 2 ELSE 3

(* Dimension of a simulation: a missing (negative) step reduces it as well. *)
SimDim(c) == IF c.ny <= 1 \/ c.dy < 0 THEN 1 ELSE IF c.nz <= 1 \/ c.dz < 0 THEN 2 ELSE 3

Counts(c, d) == SubSeq(<<c.nx, c.ny, c.nz>>, 1, d)
Steps(c, d)  == SubSeq(<<c.dx, c.dy, c.dz>>, 1, d)
Pads(c, d)   == SubSeq(<<c.px, c.py, c.pz>>, 1, d)
Smooths(c, d) == SubSeq(<<c.sx, c.sy, c.sz>>, 1, d)

PadChoices(v, c, d) ==
  [i \in 1 .. d |-> PadSet(v, Counts(c, d)[i], AxisRanges(v, d)[i], Steps(c, d)[i])]

Unambiguous(v, c, d) == \A i \in 1 .. d : Cardinality(PadChoices(v, c, d)[i]) = 1

TheOne(S) == CHOOSE x \in S : TRUE

(* Cells asked of the transform along each axis (before rounding up).       *)
PaddedSize(v, c, d) ==
  [i \in 1 .. d |->
     Counts(c, d)[i] + (IF Pads(c, d)[i] >= 0 THEN Pads(c, d)[i] ELSE TheOne(PadChoices(v, c, d)[i]))]

(* Transform lengths: even along the first axis in 2D and 3D.               *)
Totals(v, c, d) ==
  [i \in 1 .. d |-> FftLenFast(PaddedSize(v, c, d)[i], d > 1 /\ i = 1)]
============================================================================
