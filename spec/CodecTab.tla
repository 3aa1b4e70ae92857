------------------------------ MODULE CodecTab ------------------------------
(* Tables of single conversions with the theorems of Codec.                 *)
EXTENDS Codec, Gen, Json
VARIABLE i
CONSTANT Chunk
Row(b) == [ enc |-> IF Normal(b) \/ Zero(b) THEN IbmEnc(b) ELSE <<>>,
            dec |-> IF InRange(b) \/ b = <<0, 0, 0, 0>> THEN IbmDec(b) ELSE <<>>,
            i16 |-> I16(b), u16 |-> U16(b), i32 |-> I32(b) ]
Init == i = 0
Next == /\ i < Len(GCases)
        /\ i' = Min(i + Chunk, Len(GCases))
        /\ \A k \in i + 1 .. i' : Assert(EncOK(GCases[k]) /\ DecEnc(GCases[k]) /\ EncDec(GCases[k]), <<"theorem", GCases[k]>>)
        /\ PrintT(<<"@", "R", ToJson([k \in 1 .. i' - i |-> Row(GCases[i + k])])>>)
Spec == Init /\ [][Next]_i
============================================================================
