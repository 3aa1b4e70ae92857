------------------------------- MODULE GridsGen -------------------------------
EXTENDS Grids, Json, Gen
CONSTANTS Depth
VARIABLES kind, hist, fin                     \* kind: "2", "3", "4", "5" dimensions, "g": two, with first indices
gvars == <<g, kind, hist, fin>>
R(S) == {RandomElement(S)}
Dim == CASE kind = "2" -> 2 [] kind = "g" -> 2 [] kind = "3" -> 3 [] kind = "4" -> 4 [] OTHER -> 5
Log(op) == hist' = Append(hist, [op |-> op, v |-> <<View(g'[1]), View(g'[2])>>])
Size == CASE Dim = 2 -> 1 .. 5 [] Dim = 3 -> 1 .. 4 [] OTHER -> 1 .. 3
Sizes == [d \in 1 .. Dim |-> RandomElement(IF kind # "g" /\ RandomElement(1 .. 12) = 1 THEN {0} ELSE Size)]
Los == [d \in 1 .. Dim |-> IF kind = "g" THEN RandomElement({0, 1, 2, 5, 1000}) ELSE 0]
Vals == {-7, -7, -3, -1, 0, 1, 2, 5, 9, 100}
FreshK(how) == \E w \in R({1, 2}), n \in {Sizes}, lo \in {Los}, v \in R(Vals) : Fresh(w, lo, n, v) /\ Log(<<how, w, lo, n, v>>)
D == {w \in {1, 2} : Len(g[w].z) > 0}
Do(k) ==
  CASE k = 1 -> FreshK("make")
    [] k = 2 -> FreshK("resize")
    [] k = 3 -> IF kind \in {"2", "3"} THEN FreshK("assign") ELSE FreshK("resize")
    [] k = 4 -> IF kind = "3" THEN \E w \in R({1, 2}), nk \in R(0 .. 6) : Stretch(w, nk) /\ Log(<<"stretch", w, nk>>) ELSE Exchange /\ Log(<<"swap", 1>>)
    [] k = 5 -> \E w \in R({1, 2}) : Exchange /\ Log(<<"swap", w>>)
    [] k = 6 -> \E w \in R({1, 2}) : CopyTo(w) /\ Log(<<"copy", w>>)
    [] k \in {7, 8} -> \E w \in R(D), v \in R(Vals) : \E r \in R(0 .. Len(g[w].z) - 1) : PutRank(w, r, v) /\ Log(<<"rank", w, r, v>>)
    [] OTHER -> \E w \in R(D), v \in R(Vals) : \E r \in R(0 .. Len(g[w].z) - 1), h \in R({0, 1}) : LET c == Shift(Cell(r, g[w].n), g[w].lo) IN Put(w, c, v) /\ Log(<<"put", w, h, c, v>>)
GNext == \/ /\ Len(hist) < Depth /\ UNCHANGED <<fin, kind>> /\ (IF D = {} THEN FreshK("make") ELSE \E k \in R({1, 2, 3, 4, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}) : Do(k))
         \/ /\ ~fin /\ Len(hist) = Depth /\ fin' = TRUE /\ UNCHANGED <<g, kind, hist>> /\ PrintT(<<"@", "H", ToJson([kind |-> kind, h |-> hist])>>)
Empty(k) == LET d == CASE k = "2" -> 2 [] k = "g" -> 2 [] k = "3" -> 3 [] k = "4" -> 4 [] OTHER -> 5 IN [lo |-> [i \in 1 .. d |-> 0], n |-> [i \in 1 .. d |-> 0], z |-> <<>>]
GSpec == /\ kind \in {"2", "3", "4", "5", "g"} /\ g = <<Empty(kind), Empty(kind)>> /\ hist = <<>> /\ fin = FALSE /\ [][GNext]_gvars

(* exhaustive: three dimensions of at most two cells *)
MCNext == /\ UNCHANGED <<kind, hist, fin>>
          /\ \/ \E w \in {1, 2}, a, b, c \in 0 .. 2, v \in {-7, 3} : Fresh(w, <<0, 0, 0>>, <<a, b, c>>, v)
             \/ \E w \in {1, 2}, c \in 0 .. 2 : Stretch(w, c)
             \/ \E w \in {1, 2}, v \in {-7, 3} : \E r \in 0 .. Len(g[w].z) - 1 : PutRank(w, r, v)
             \/ Exchange \/ \E w \in {1, 2} : CopyTo(w)
MCSpec == kind = "3" /\ g = <<Empty("3"), Empty("3")>> /\ hist = <<>> /\ fin = FALSE /\ [][MCNext]_gvars
Bound == TLCGet("level") < GLevel
(* exchanging twice changes nothing; a stretched grid keeps its cells *)
Kept == [][\A w \in {1, 2} : \A i \in DOMAIN g[w].z : (g'[w].n # g[w].n /\ \E c \in 0 .. 2 : Stretch(w, c)) => (i <= Len(g'[w].z) => g'[w].z[i] = g[w].z[i] /\ Cell(i - 1, g'[w].n) = Cell(i - 1, g[w].n))]_gvars
Same == \A w \in {1, 2} : \A i \in DOMAIN g[w].z : At(g[w], Shift(Cell(i - 1, g[w].n), g[w].lo)) = g[w].z[i]
=============================================================================
