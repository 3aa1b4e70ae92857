----------------------------- MODULE FftLenGen -----------------------------
(* The transform length for every request of a finite family.               *)
EXTENDS FftSize, Gen, Json, TLC, SequencesExt

(* the generated lengths in increasing order, so the rule is a search       *)
AllLens == SortSeq(SetToSeq(SmoothSet), <)
EvenLens == SelectSeq(AllLens, LAMBDA m : m % 2 = 0)

RECURSIVE Search(_, _, _, _)
Search(s, n, lo, hi) ==      \* first index whose value is not below n
  IF lo = hi THEN lo ELSE LET mid == (lo + hi) \div 2 IN
    IF s[mid] >= n THEN Search(s, n, lo, mid) ELSE Search(s, n, mid + 1, hi)

VARIABLE i
Len_(n, e) == IF n = 1 THEN 1 ELSE IF e THEN EvenLens[Search(EvenLens, n, 1, Len(EvenLens))] ELSE AllLens[Search(AllLens, n, 1, Len(AllLens))]

Init == i = 0
Next == i < Len(GReq) /\ i' = i + 1
Spec == Init /\ [][Next]_i

Emit == i > 0 => PrintT(<<"@", "L", ToJson(<<GReq[i], Len_(GReq[i], FALSE), Len_(GReq[i], TRUE)>>)>>)

Covers == i > 0 => Len_(GReq[i], FALSE) >= GReq[i] /\ Len_(GReq[i], TRUE) >= Len_(GReq[i], FALSE)
IsSmooth == i > 0 => Smooth(Len_(GReq[i], FALSE)) /\ Smooth(Len_(GReq[i], TRUE))
EvenOnes == (i > 0 /\ GReq[i] > 1) => Len_(GReq[i], TRUE) % 2 = 0
(* against the definition by scanning, where that is affordable             *)
Definition == (i > 0 /\ GReq[i] <= 4000) => Len_(GReq[i], FALSE) = FftLenFast(GReq[i], FALSE)
                                         /\ Len_(GReq[i], TRUE) = FftLenFast(GReq[i], TRUE)
(* a length never shrinks when the request grows, and is a fixed point      *)
Monotone == (i > 1 /\ GReq[i] >= GReq[i-1]) => Len_(GReq[i], FALSE) >= Len_(GReq[i-1], FALSE)
Fixed == i > 0 => Len_(Len_(GReq[i], FALSE), FALSE) = Len_(GReq[i], FALSE)
============================================================================
