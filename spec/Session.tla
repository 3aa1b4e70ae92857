------------------------------ MODULE Session ------------------------------
(* Sessions of the Python package: processes (related by fork), each with   *)
(* one hidden random stream, a clock, and the calls a user can make.        *)
(* A simulation's result is a symbolic term: which stream, where in it, and *)
(* the normalised call.  Equal terms must be bit-identical arrays, and      *)
(* terms that differ in stream or position must be different arrays.        *)
EXTENDS Padding, CovGrid, TLC

CONSTANTS Procs,        \* process identifiers; 1 is the first process
          SeedVals,     \* explicit seeds (strings)
          Calls,        \* argument records of simulate
          Varios,       \* factory argument records, indexed by number
          Times         \* clock values

VARIABLES gen,          \* Procs -> stream state
          clock,
          obs           \* what the last call must have shown

vars == <<gen, clock, obs>>

NoGen   == [live |-> FALSE, init |-> FALSE, seed |-> <<"none", "">>, pos |-> <<>>]
FreshGen == [live |-> TRUE, init |-> FALSE, seed |-> <<"none", "">>, pos |-> <<>>]

(* ---- the stream: a seed token and what was drawn from it since           *)
(* "u": raw 32 bit draws, "n": standard normals; runs are merged.           *)
Advance(pos, k, n) ==
  IF n = 0 THEN pos
  ELSE IF pos # <<>> /\ pos[Len(pos)].k = k
       THEN [pos EXCEPT ![Len(pos)].n = @ + n]
       ELSE Append(pos, [k |-> k, n |-> n])

(* b is strictly further along the stream than a, whatever the normals took *)
(* (normals use a varying number of raw draws, so positions that are not    *)
(* related this way may or may not coincide).                               *)
Later(a, b) ==
  \/ a = <<>> /\ b # <<>>
  \/ LET n == Len(a) IN
       /\ n > 0 /\ Len(b) >= n
       /\ SubSeq(a, 1, n - 1) = SubSeq(b, 1, n - 1)
       /\ a[n].k = b[n].k
       /\ IF Len(b) > n THEN a[n].n <= b[n].n ELSE a[n].n < b[n].n

Seeded(tok) == [live |-> TRUE, init |-> TRUE, seed |-> tok, pos |-> <<>>]

SetTok(s)  == <<"set", s>>
AutoTok(t) == <<"auto", ToString(t)>>

(* The stream a simulating call works on: seeded from the clock if need be. *)
Ready(g, t) == IF g.init THEN g ELSE Seeded(AutoTok(t))

(* ---- the normalised call                                                 *)
CanonCall(c) ==
  LET v == CanonVario(Varios[c.v])
      d == SimDim(c)
  IN [ v      |-> v,
       d      |-> d,
       n      |-> Counts(c, d),
       step   |-> Steps(c, d),
       tot    |-> Totals(v, c, d),
       smooth |-> [i \in 1 .. d |-> Min(Smooths(c, d)[i], 1000)] ]

(* 1D and 2D fields take one raw draw, from which they seed a generator of  *)
(* their own; 3D fields take one normal per padded cell.                    *)
After(pos, cc) == IF cc.d = 3 THEN Advance(pos, "n", ProdSeq(cc.tot)) ELSE Advance(pos, "u", 1)

Init ==
  /\ gen = [p \in Procs |-> IF p = 1 THEN FreshGen ELSE NoGen]
  /\ clock \in Times
  /\ obs = [k |-> "start"]

SetSeed(p, tok) ==
  /\ gen[p].live
  /\ gen' = [gen EXCEPT ![p] = Seeded(tok)]
  /\ obs' = [k |-> "none"]
  /\ UNCHANGED clock

QuerySeed(p) ==
  /\ gen[p].live
  /\ obs' = IF gen[p].init THEN [k |-> "seed", tok |-> gen[p].seed] ELSE [k |-> "error"]
  /\ UNCHANGED <<gen, clock>>

Simulate(p, c) ==
  /\ gen[p].live
  /\ LET g  == Ready(gen[p], clock)
         cc == CanonCall(c)
     IN /\ obs' = [k |-> "field", seed |-> g.seed, pos |-> g.pos, call |-> cc]
        /\ gen' = [gen EXCEPT ![p] = [g EXCEPT !.pos = After(g.pos, cc)]]
  /\ UNCHANGED clock

(* variogram(), corr(), simulation_size(), quote(): functions of their      *)
(* arguments alone.                                                         *)
Pure(p, what) ==
  /\ gen[p].live
  /\ obs' = [k |-> "pure", what |-> what]
  /\ UNCHANGED <<gen, clock>>

(* A call that is refused (wrong argument types) changes nothing.           *)
Refused(p) ==
  /\ gen[p].live
  /\ obs' = [k |-> "error"]
  /\ UNCHANGED <<gen, clock>>

Fork(p, q) ==
  /\ gen[p].live /\ ~gen[q].live
  /\ gen' = [gen EXCEPT ![q] = gen[p]]
  /\ obs' = [k |-> "none"]
  /\ UNCHANGED clock

Tick(t) ==
  /\ clock' = t
  /\ obs' = [k |-> "none"]
  /\ UNCHANGED gen

SeedToks == {SetTok(s) : s \in SeedVals}
            \cup {gen[p].seed : p \in {q \in Procs : gen[q].live /\ gen[q].init}}

Next ==
  \/ \E p \in Procs :
       \/ \E tok \in SeedToks : SetSeed(p, tok)
       \/ QuerySeed(p)
       \/ \E c \in Calls : Simulate(p, c)
       \/ Pure(p, "x")
       \/ Refused(p)
       \/ \E q \in Procs : q # p /\ Fork(p, q)
  \/ \E t \in Times : t > clock /\ Tick(t)

Spec == Init /\ [][Next]_vars
============================================================================
