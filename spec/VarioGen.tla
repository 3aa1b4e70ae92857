----------------------------- MODULE VarioGen ------------------------------
(* Correlations: for every case (factory arguments, lag) the normalised     *)
(* type, power and the lag in range units as exact fractions.               *)
EXTENDS Variograms, Rotation, Gen, Json, TLC

VARIABLE i
Case == GCases[i]
V == CanonVario(Case.v)
C == Comp(Case.az, Case.dp, Case.x, Case.y, Case.z)
D == Den(Case.az, Case.dp)

Init == i = 1
Next == i < Len(GCases) /\ i' = i + 1
Spec == Init /\ [][Next]_i

(* the three terms of the normalised distance, as numerator and denominator *)
Terms == << <<C[1], D * V.rx>>, <<C[2], D * V.ry>>, <<C[3], D * V.rz>> >>

Emit == PrintT(<<"@", "V", ToJson([i |-> i, t |-> V.t, pow |-> V.pow, q |-> Terms])>>)

Lengths == KeepsLength(Case.az, Case.dp, Case.x, Case.y, Case.z)
Symmetric == Odd(Case.az, Case.dp, Case.x, Case.y, Case.z)
Circle == OnCircle(Case.az) /\ OnCircle(Case.dp)
(* on the main axis the distance is the lag over the main range *)
MainAxis == (Case.az = <<1, 0, 1>> /\ Case.dp = <<1, 0, 1>>) => C = <<Case.x, Case.y, Case.z>>
============================================================================
