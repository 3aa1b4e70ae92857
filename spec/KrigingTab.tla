----------------------------- MODULE KrigingTab -----------------------------
EXTENDS Kriging, Json, Gen
CONSTANT Chunk
VARIABLE k
Row(c) == IF c.t = "many" THEN Marks(c) ELSE Field(c)
(* data are honoured, the system is solved, nodes out of reach keep the trend *)
Thm(c) == c.t = "many" \/
  LET s == System(c) IN
  /\ \A i \in DOMAIN s.p : Estimate(c, s, s.p[i]) = s.r[i]
  /\ (s.p # <<>> => Det(s.k) > 0)
  /\ \A n \in 1 .. c.ni * c.nj : Influences(c, s, Node(c, n)) = {} => Estimate(c, s, Node(c, n)) = QI(0)
  (* data out of reach of a node through all others change nothing there *)
  /\ \A n \in {m \in 1 .. c.ni * c.nj : m % 7 = 1} : LET I == Influences(c, s, Node(c, n))
         d == SelectSeq(c.d, LAMBDA e : \E i \in I : s.p[i] = Where(c, e)) IN
       Estimate(c, s, Node(c, n)) = LET e == [c EXCEPT !.d = d] IN Estimate(e, System(e), Node(c, n))
Init == k = 0
Next == /\ k < Len(GCases)
        /\ LET hi == IF k + Chunk > Len(GCases) THEN Len(GCases) ELSE k + Chunk IN
           /\ \A i \in k + 1 .. hi : Assert(Thm(GCases[i]), GCases[i])
           /\ PrintT(<<"@", "R", ToJson([i \in 1 .. hi - k |-> Row(GCases[k + i])])>>) /\ k' = hi
Spec == Init /\ [][Next]_k
=============================================================================
