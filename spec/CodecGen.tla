------------------------------ MODULE CodecGen ------------------------------
(* Streams of numbers written and read in any mix of types, byte orders and *)
(* array lengths.                                                           *)
EXTENDS Codec, Gen, Json
CONSTANT Depth
VARIABLES buf, pos, bad, obs, hist
vars == <<buf, pos, bad, obs, hist>>

Types == {"short", "int", "float", "double", "ibm"}
Ends == {"be", "le"}
Vals(ty) == IF ty = "short" THEN GV2 ELSE IF ty = "double" THEN GV8 ELSE IF ty = "ibm" THEN GVF ELSE IF ty = "float" THEN GVF ELSE GV4

RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))

Rec(r) == hist' = Append(hist, r)
Write(ty, end, vs, arr) ==
  /\ ~bad
  /\ buf' = buf \o Cat([i \in 1 .. Len(vs) |-> Encode(ty, vs[i], end)])
  /\ obs' = <<>> /\ UNCHANGED <<pos, bad>>
  /\ Rec([op |-> "w", ty |-> ty, end |-> end, v |-> vs, arr |-> arr, buf |-> buf'])

Read(ty, end, n, arr) ==
  LET k == Size(ty)
      at(i) == SubSeq(buf, pos + (i - 1) * k + 1, pos + i * k)
  IN IF pos + n * k > Len(buf)
     THEN /\ bad' = TRUE /\ obs' = <<>> /\ UNCHANGED <<buf, pos>>
          /\ Rec([op |-> "r", ty |-> ty, end |-> end, n |-> n, arr |-> arr, err |-> TRUE, v |-> <<>>])
     ELSE (* unspecified: IBM patterns outside the range of IEEE numbers, NaNs *)
          /\ \A i \in 1 .. n : CASE ty = "ibm" -> InRange(Put(at(i), end)) \/ Put(at(i), end) = <<0, 0, 0, 0>>
                                 [] ty = "float" -> IExp(Put(at(i), end)) < 255
                                 [] ty = "double" -> ~(Put(at(i), end)[1] % 128 = 127 /\ Put(at(i), end)[2] >= 240)
                                 [] OTHER -> TRUE
          /\ pos' = pos + n * k /\ obs' = [i \in 1 .. n |-> Decode(ty, at(i), end)] /\ UNCHANGED <<buf, bad>>
          /\ Rec([op |-> "r", ty |-> ty, end |-> end, n |-> n, arr |-> arr, err |-> FALSE, v |-> obs'])

RandVals(ty, n) == [i \in 1 .. n |-> RandomElement(Vals(ty))]
Op == \E ty \in Types, end \in Ends :
        \/ \E vs \in {RandVals(ty, 1)} : Write(ty, end, vs, FALSE)
        \/ \E n \in 1 .. 4 : \E vs \in {RandVals(ty, n)} : Write(ty, end, vs, TRUE)
        \/ ~bad /\ Read(ty, end, 1, FALSE)
        \/ ~bad /\ \E n \in 1 .. 3 : Read(ty, end, n, TRUE)
Finish == /\ (Len(hist) = Depth \/ (bad /\ Len(hist) < Depth)) /\ hist # <<>> /\ hist[Len(hist)].op # "end"
          /\ PrintT(<<"@", "H", ToJson(hist)>>) /\ Rec([op |-> "end"]) /\ UNCHANGED <<buf, pos, bad, obs>>
GInit == buf = <<>> /\ pos = 0 /\ bad = FALSE /\ obs = <<>> /\ hist = <<>>
GNext == (Len(hist) < Depth /\ ~bad /\ Op) \/ Finish
GSpec == GInit /\ [][GNext]_vars
(* nothing is lost or invented: the stream is the concatenation of what was written *)
PosOK == pos <= Len(buf)
============================================================================
