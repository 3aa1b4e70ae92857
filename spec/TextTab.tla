------------------------------ MODULE TextTab ------------------------------
(* String functions, one row per case *)
EXTENDS TextIn, TLC, Json, Gen
CONSTANT Chunk
VARIABLE k
(* text, out, in: all occurrences of out, found from the left, replaced     *)
RECURSIVE Subst(_, _, _)
Subst(t, o, n) ==
  LET S == {i \in 1 .. Len(t) - Len(o) + 1 : Sub(t, i, i + Len(o) - 1) = o} IN
  IF S = {} THEN t
  ELSE LET i == MinOf(S) IN Sub(t, 1, i - 1) \o n \o Subst(Sub(t, i + Len(o), Len(t)), o, n)
Up(t) == [i \in 1 .. Len(t) |-> IF t[i] \in 97 .. 122 THEN t[i] - 32 ELSE t[i]]
Chomp(t) == LET S == {i \in 1 .. Len(t) : t[i] # 32} IN IF S = {} THEN <<>> ELSE Sub(t, MinOf(S), MaxOf(S))
(* m eighths written with p decimals, halves to the even digit *)
RECURSIVE Dig10(_)
Dig10(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dig10(n \div 10), 48 + (n % 10))
Pad0(t, n) == [i \in 1 .. IF Len(t) > n THEN Len(t) ELSE n |-> IF Len(t) > n THEN t[i] ELSE IF i <= n - Len(t) THEN 48 ELSE t[i - (n - Len(t))]]
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
HalfEven(n, d) == LET q == n \div d  r == n % d IN IF 2 * r > d \/ (2 * r = d /\ q % 2 = 1) THEN q + 1 ELSE q
Abs(n) == IF n < 0 THEN 0 - n ELSE n
Fixed(m, p) ==
  LET a == Abs(m) * 125
      u == IF p >= 3 THEN a ELSE HalfEven(a, Pow10(3 - p))          \* units of the last decimal kept
      j == IF p >= 3 THEN 3 ELSE p
      t == Pad0(Dig10(u), j + 1)
      z == [i \in 1 .. IF p > 3 THEN p - 3 ELSE 0 |-> 48]
      x == IF p = 0 THEN t ELSE Sub(t, 1, Len(t) - j) \o <<46>> \o Sub(t, Len(t) - j + 1, Len(t)) \o z IN
  IF m < 0 THEN <<45>> \o x ELSE x
IntText(m) == IF m < 0 THEN <<45>> \o Dig10(0 - m) ELSE Dig10(m)
Row(c) == [toks |-> Toks(c.t, 1), qtoks |-> QToks(c.t, 1), up |-> Up(c.t), chomp |-> Chomp(c.t), subst |-> Subst(c.t, c.o, c.n),
           isint |-> IsInt(c.t), isdec |-> IsDec(c.t), fixed |-> Fixed(c.m, c.p), int |-> IntText(c.m)]
Init == k = 0 /\ text = <<>> /\ pos = 1 /\ good = TRUE /\ line = 0 /\ obs = [k |-> "none"]
Next == /\ k < Len(GCases)
        /\ LET hi == IF k + Chunk > Len(GCases) THEN Len(GCases) ELSE k + Chunk IN
           /\ PrintT(<<"@", "R", ToJson([i \in 1 .. hi - k |-> Row(GCases[k + i])])>>) /\ k' = hi
        /\ UNCHANGED tvars
Spec == Init /\ [][Next]_<<k, text, pos, good, line, obs>>
=============================================================================
