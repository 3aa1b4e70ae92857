-------------------------------- MODULE Grids --------------------------------
(* Two grids of the same kind: cells in a box of indices, stored in one      *)
(* sequence with the first index running fastest.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE g                                    \* g[w] = [lo, n, z]: first indices, sizes, values
RECURSIVE Prod(_)
Prod(n) == IF n = <<>> THEN 1 ELSE n[1] * Prod(Tail(n))
RECURSIVE Rank(_, _)
Rank(c, n) == IF c = <<>> THEN 0 ELSE c[1] + n[1] * Rank(Tail(c), Tail(n))
RECURSIVE Cell(_, _)
Cell(r, n) == IF n = <<>> THEN <<>> ELSE <<r % n[1]>> \o Cell(r \div n[1], Tail(n))
Full(lo, n, v) == [lo |-> lo, n |-> n, z |-> [i \in 1 .. Prod(n) |-> v]]
Shift(c, lo) == [d \in DOMAIN c |-> c[d] + lo[d]]
Unshift(c, lo) == [d \in DOMAIN c |-> c[d] - lo[d]]
At(s, c) == s.z[Rank(Unshift(c, s.lo), s.n) + 1]

Fresh(w, lo, n, v) == g' = [g EXCEPT ![w] = Full(lo, n, v)]
(* only the last of three sizes changes: the values are kept, new ones are 0 *)
Stretch(w, nk) ==
  LET s == g[w]  n == [s.n EXCEPT ![Len(s.n)] = nk] IN
  g' = [g EXCEPT ![w] = [lo |-> s.lo, n |-> n, z |-> [i \in 1 .. Prod(n) |-> IF i <= Len(s.z) THEN s.z[i] ELSE 0]]]
Put(w, c, v) == g' = [g EXCEPT ![w].z[Rank(Unshift(c, g[w].lo), g[w].n) + 1] = v]
PutRank(w, r, v) == g' = [g EXCEPT ![w].z[r + 1] = v]
Exchange == g' = <<g[2], g[1]>>
CopyTo(w) == g' = [g EXCEPT ![w] = g[3 - w]]

Has(s, v) == \E i \in DOMAIN s.z : s.z[i] = v
Least(s, miss) == CHOOSE x \in {s.z[i] : i \in DOMAIN s.z} \ {miss} : \A i \in DOMAIN s.z : s.z[i] = miss \/ s.z[i] >= x
Most(s, miss) == CHOOSE x \in {s.z[i] : i \in DOMAIN s.z} \ {miss} : \A i \in DOMAIN s.z : s.z[i] = miss \/ s.z[i] <= x
RECURSIVE SumTo(_, _, _)
SumTo(z, miss, i) == IF i = 0 THEN 0 ELSE (IF z[i] = miss THEN 0 ELSE z[i]) + SumTo(z, miss, i - 1)
Count(s, miss) == Cardinality({i \in DOMAIN s.z : s.z[i] # miss})
Some(s, miss) == \E i \in DOMAIN s.z : s.z[i] # miss
Stat(s, miss) == IF Some(s, miss) THEN <<Least(s, miss), Most(s, miss), SumTo(s.z, miss, Len(s.z)), Count(s, miss)>> ELSE <<>>
View(s) == [lo |-> s.lo, n |-> s.n, z |-> s.z, cells |-> [i \in DOMAIN s.z |-> Shift(Cell(i - 1, s.n), s.lo)], all |-> Stat(s, 12345), low |-> Stat(s, -7), high |-> Stat(s, 100)]

(* --- invariants ---------------------------------------------------------- *)
Sized == \A w \in 1 .. 2 : Len(g[w].z) = Prod(g[w].n) /\ Len(g[w].lo) = Len(g[w].n)
(* positions and index tuples correspond one to one *)
OneToOne == \A w \in 1 .. 2 : LET s == g[w] IN
  /\ \A i \in DOMAIN s.z : Rank(Cell(i - 1, s.n), s.n) = i - 1 /\ \A d \in DOMAIN s.n : Cell(i - 1, s.n)[d] \in 0 .. s.n[d] - 1
  /\ Cardinality({Cell(i - 1, s.n) : i \in DOMAIN s.z}) = Len(s.z)
=============================================================================
