------------------------------ MODULE SurfFiles ------------------------------
(* Surface files written by others: what kind of file the first words show,  *)
(* and what reading a NORSAR Sgri header with its binary file must give.      *)
EXTENDS Integers, Sequences, TLC, Json, Gen
CONSTANT Chunk
VARIABLE k

(* --- the kind of a file, from its words (letters, an integer, or a number) --- *)
Kind(words) ==
  IF words = <<>> THEN "unknown"
  ELSE CASE words[1] = "-996" -> "irap"
         [] words[1] = "STORMGRID_BINARY" -> "storm"
         [] words[1] = "NORSAR" /\ Len(words) >= 5 /\ words[5] \in {"v1.0", "v2.0"} -> "sgri"
         [] OTHER -> "unknown"

(* --- Sgri ------------------------------------------------------------------ *)
(* a header: dim, axis labels, number of grids, samples, steps, first point,   *)
(* angle, missing code, what the file name line has: the name (or nothing) and *)
(* what follows it; whether the values are complex; values there are in the    *)
(* binary file                                                                 *)
Nl == "\n"
S(n) == ToString(n)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE s[1] \o Cat(Tail(s))
Header(c) == Cat(<<"NORSAR General Grid Format v1.0", Nl, S(c.dim), " !dim", Nl,
                   c.ax[1], Nl, c.ax[2], Nl, "Time (s)", Nl, S(c.ng), " !grids", Nl>>)
             \o Cat([i \in 1 .. c.ng |-> "grid " \o S(i) \o Nl])
             \o Cat(<<"1 1", Nl, S(c.nx), " ", S(c.ny), Nl, S(c.dx), " ", S(c.dy), Nl, S(c.x1), " ", S(c.y1), Nl,
                      S(c.ang), Nl, S(c.mv), Nl, c.name, c.tail, Nl, S(c.cplx), Nl>>)
Val(m) == ((m * m * 7 + m) % 61) - 30
(* position of the first of a set of letters in a label *)
HasX(l) == \E u \in {"x", "X"} : \E i \in 1 .. Len(l) : SubSeq(l, i, i) = u
HasY(l) == \E u \in {"y", "Y"} : \E i \in 1 .. Len(l) : SubSeq(l, i, i) = u
Common(c) == c.dim = 2 /\ c.ng >= 1 /\ c.nx >= 1 /\ c.ny >= 1 /\ c.dx > 0 /\ c.dy > 0 /\ c.cplx = 0 /\ c.found
One(c) == Common(c) /\ HasX(c.ax[1]) /\ HasY(c.ax[2]) /\ c.there >= c.nx * c.ny
Many(c) == Common(c) /\ c.lab /\ c.there >= c.nx * c.ny * c.ng
Grid(c, g) == [m \in 1 .. c.nx * c.ny |-> Val(m + (g - 1) * c.nx * c.ny)]
Row(c) == IF c.t = "kind" THEN [kind |-> Kind(c.words)]
          ELSE [text |-> Header(c), vals |-> [m \in 1 .. c.there |-> Val(m)],
                one |-> IF One(c) THEN [ok |-> TRUE, plain |-> c.ang = 0, z |-> Grid(c, 1)] ELSE [ok |-> FALSE],
                many |-> IF Many(c) THEN [ok |-> TRUE, z |-> [g \in 1 .. c.ng |-> Grid(c, g)], x0 |-> 2 * c.x1 - c.dx, y0 |-> 2 * c.y1 - c.dy] ELSE [ok |-> FALSE]]
(* the first surface of many is the only one read alone *)
Thm(c) == c.t = "kind" \/ (One(c) /\ Many(c) => Row(c).one.z = Row(c).many.z[1])
Init == k = 0
Next == /\ k < Len(GCases)
        /\ LET hi == IF k + Chunk > Len(GCases) THEN Len(GCases) ELSE k + Chunk IN
           /\ \A i \in k + 1 .. hi : Assert(Thm(GCases[i]), GCases[i])
           /\ PrintT(<<"@", "R", ToJson([i \in 1 .. hi - k |-> Row(GCases[k + i])])>>) /\ k' = hi
Spec == Init /\ [][Next]_k
=============================================================================
