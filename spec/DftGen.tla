------------------------------- MODULE DftGen -------------------------------
EXTENDS Dft, Gen, Json, TLC
VARIABLE i
Init == i = 1
Next == i < Len(GCases) /\ i' = i + 1
Spec == Init /\ [][Next]_i
C == GCases[i]
Emit == PrintT(<<"@", "F", ToJson([i |-> i, f |-> HalfSpectrum(C.x, C.n[1], C.n[2], C.n[3]), c |-> Conv(C.x, C.y, C.n[1], C.n[2], C.n[3]),
                                  p |-> PadSeries(C.v, C.w)])>>)
Herm == Hermitian(C.x, C.n[1], C.n[2], C.n[3])
Cnv == ConvTheorem(C.x, C.y, C.n[1], C.n[2], C.n[3])
Pad == PadTheorem(C.v, C.w)
Inv == Inverts(C.x, C.n[1], C.n[2], C.n[3])
=============================================================================
