------------------------------- MODULE LagGen -------------------------------
(* Wrap-around lags of every axis length of a finite family.                *)
EXTENDS CovGrid, Gen, Json, TLC
VARIABLE n
Init == n = 1
Next == n < GMax /\ n' = n + 1
Spec == Init /\ [][Next]_n
Emit == PrintT(<<"@", "G", ToJson([n |-> n, lags |-> Lags(n)])>>)
Bound == LagBound(n)
Even  == LagEven(n)
Cong  == LagCong(n)
=============================================================================
