------------------------------ MODULE PathTab ------------------------------
(* File names as sequences of characters *)
EXTENDS Integers, Sequences, TLC, Json, Gen
CONSTANT Chunk
VARIABLE k
Slash == 47
Dot == 46
Sub(s, a, b) == IF a > b THEN <<>> ELSE SubSeq(s, a, b)
Max(S) == CHOOSE m \in S : \A x \in S : x <= m
Last(s, c) == LET S == {i \in 1 .. Len(s) : s[i] = c} IN IF S = {} THEN 0 ELSE Max(S)
Path(s) == LET i == Last(s, Slash) IN IF i = 1 THEN <<Slash>> ELSE Sub(s, 1, i - 1)
Name(s) == Sub(s, Last(s, Slash) + 1, Len(s))
Ext(s)  == LET n == Name(s)  i == Last(n, Dot) IN IF i = 0 THEN <<>> ELSE Sub(n, i, Len(n))
Stem(s) == LET n == Name(s) IN Sub(n, 1, Len(n) - Len(Ext(s)))
Replace(s, e) == Sub(s, 1, Len(s) - Len(Ext(s))) \o (IF e = <<>> THEN <<>> ELSE IF e[1] = Dot THEN e ELSE <<Dot>> \o e)
Prepend(p, s) == IF p = <<>> \/ s = <<>> \/ s[1] = Slash THEN s ELSE IF p[Len(p)] = Slash THEN p \o s ELSE p \o <<Slash>> \o s
(* the parts make up the whole *)
Thm(s) == /\ Name(s) = Stem(s) \o Ext(s)
          /\ Path(s) # <<>> => Prepend(Path(s), Name(s)) = s
          /\ Replace(s, Ext(s)) = s
Row(c) == <<Path(c.s), Name(c.s), Stem(c.s), Ext(c.s), Replace(c.s, c.e), c.s \o <<Dot>> \o c.e, Prepend(c.p, c.s)>>
Init == k = 0
Next == /\ k < Len(GCases)
        /\ LET hi == IF k + Chunk > Len(GCases) THEN Len(GCases) ELSE k + Chunk IN
           /\ \A i \in k + 1 .. hi : Assert(Thm(GCases[i].s), GCases[i])
           /\ PrintT(<<"@", "R", ToJson([i \in 1 .. hi - k |-> Row(GCases[k + i])])>>) /\ k' = hi
Spec == Init /\ [][Next]_k
=============================================================================
