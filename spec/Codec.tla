------------------------------- MODULE Codec -------------------------------
(* Binary representations of numbers.  A number is given by the bytes of    *)
(* its big-endian memory image; IBM floats are computed from the fields of  *)
(* the IEEE number and back.                                                *)
EXTENDS Num, TLC

Byte == 0 .. 255
Rev(b) == [i \in 1 .. Len(b) |-> b[Len(b) + 1 - i]]
Put(b, end) == IF end = "be" THEN b ELSE Rev(b)
Size(ty) == CASE ty = "short" -> 2 [] ty = "double" -> 8 [] OTHER -> 4

(* ---- IEEE single precision fields *)
Sign(b) == b[1] \div 128
IExp(b) == (b[1] % 128) * 2 + b[2] \div 128
IMan(b) == (b[2] % 128) * 65536 + b[3] * 256 + b[4]
MkIEEE(s, e, m) == <<s * 128 + e \div 2, (e % 2) * 128 + m \div 65536, (m \div 256) % 256, m % 256>>
Normal(b) == IExp(b) \in 1 .. 254
Zero(b) == IExp(b) = 0 /\ IMan(b) = 0

(* ---- IBM single precision: (-1)^s * 16^(e-64) * m / 2^24                 *)
BExp(b) == b[1] % 128
BMan(b) == b[2] * 65536 + b[3] * 256 + b[4]
MkIBM(s, e, m) == <<s * 128 + e, m \div 65536, (m \div 256) % 256, m % 256>>
IBMNormal(b) == b[2] >= 16

Pow2(k) == 2 ^ k
Div4(x) == IF x >= 0 THEN x \div 4 ELSE -((3 - x) \div 4)        \* floor

(* A normal number 2^(e-150) * (2^23 + m), truncated towards zero           *)
IbmEnc(b) ==
  IF Zero(b) THEN <<0, 0, 0, 0>>
  ELSE LET x == IExp(b) - 127
           q == Div4(x)
           k == x - 4 * q
       IN MkIBM(Sign(b), q + 65, (8388608 + IMan(b)) \div Pow2(3 - k))

(* Position of the leading bit of a normalised IBM mantissa                 *)
Lead(m) == IF m >= 8388608 THEN 23 ELSE IF m >= 4194304 THEN 22 ELSE IF m >= 2097152 THEN 21 ELSE 20
DecExp(b) == 4 * (BExp(b) - 64) - 24 + Lead(BMan(b)) + 127
InRange(b) == IBMNormal(b) /\ DecExp(b) \in 1 .. 254
IbmDec(b) ==
  IF BMan(b) = 0 /\ BExp(b) = 0 THEN <<0, 0, 0, 0>>
  ELSE MkIEEE(Sign(b), DecExp(b), (BMan(b) * Pow2(23 - Lead(BMan(b)))) % 8388608)

(* ---- theorems, checked on the tables *)
(* 1. encoding a normal number gives a normalised number in range           *)
EncOK(b) == Normal(b) => InRange(IbmEnc(b))
(* 2. decoding then encoding gives back every IBM number in range           *)
DecEnc(b) == InRange(b) => IbmEnc(IbmDec(b)) = b
(* 3. encoding then decoding only truncates: same sign and exponent, and at *)
(*    most three bits of the mantissa are cleared                           *)
EncDec(b) == Normal(b) => LET c == IbmDec(IbmEnc(b)) IN
               /\ Sign(c) = Sign(b) /\ IExp(c) = IExp(b)
               /\ IMan(c) <= IMan(b) /\ IMan(b) - IMan(c) < 8

(* ---- integers *)
U16(b) == b[1] * 256 + b[2]
I16(b) == IF b[1] >= 128 THEN U16(b) - 65536 ELSE U16(b)
I32(b) == (IF b[1] >= 128 THEN b[1] - 256 ELSE b[1]) * 16777216 + b[2] * 65536 + b[3] * 256 + b[4]

(* What a write of value b of type ty puts on the stream                    *)
Encode(ty, b, end) == Put(IF ty = "ibm" THEN IbmEnc(b) ELSE b, end)
Decode(ty, b, end) == IF ty = "ibm" THEN IbmDec(Put(b, end)) ELSE Put(b, end)
============================================================================
