------------------------------ MODULE SizeGen ------------------------------
(* simulation_size and the default grids: every case of a finite family,    *)
(* with the sizes the padding rule allows.                                  *)
EXTENDS Padding, Gen, Json, TLC

VARIABLE i

Case == GCases[i]
V == CanonVario(Case.v)
D == SizeDim(Case.c)
Choices == PadChoices(V, Case.c, D)
Sizes == [a \in 1 .. D |-> {Counts(Case.c, D)[a] + p : p \in Choices[a]}]

Init == i = 1
Next == i < Len(GCases) /\ i' = i + 1
Spec == Init /\ [][Next]_i

Emit == PrintT(<<"@", "S", ToJson([i |-> i, d |-> D, sizes |-> Sizes])>>)

(* The rule's purpose: the padded axis covers Ratio ranges (up to a cell),  *)
(* and the padding alone covers one range.                                  *)
CoversRatio == \A a \in 1 .. D : \A s \in Sizes[a] :
                  s * Steps(Case.c, D)[a] * 1000 >= Ratio(V) * AxisRanges(V, D)[a] - 1000 * Steps(Case.c, D)[a]
CoversRange == \A a \in 1 .. D : \A p \in Choices[a] :
                  (p + 0) * Steps(Case.c, D)[a] >= AxisRanges(V, D)[a] - Steps(Case.c, D)[a]
NotMore == \A a \in 1 .. D : \A p \in Choices[a] :
              \/ p = 1
              \/ (p - 1) * Steps(Case.c, D)[a] <= AxisRanges(V, D)[a]
              \/ (p - 1 + Counts(Case.c, D)[a]) * Steps(Case.c, D)[a] * 1000 <= Ratio(V) * AxisRanges(V, D)[a]
============================================================================
