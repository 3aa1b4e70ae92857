----------------------------- MODULE SessionLin -----------------------------
(* Threads of one process sharing the package.  Calls overlap in time; the  *)
(* session model has atomic operations, so a recorded run is acceptable iff *)
(* the calls can be put in an order that respects real time (a call that    *)
(* returned before another began comes first) and in which every result is  *)
(* what the session model gives at that point.  1D and 2D simulations take  *)
(* one draw each whatever the call, 3D ones a number of their own, so the   *)
(* state is the current seed and the word of kinds simulated since it.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Gen

(* GRuns: sequence of runs; run = [seed, ops]; op = [t, inv, res, k, c, r]  *)
(* (thread, times, kind "sim"/"seed"/"query"/"pure", call or value, result) *)
(* GTab[seed][c][n]: the field of call c after word n (n = 1: no call yet)  *)
(* GAfter[c][n]: the word after it, 0 when the table ends there             *)
VARIABLES run, done, seed, n, ok

vars == <<run, done, seed, n, ok>>
Ops == GRuns[run].ops
Init == run \in 1 .. Len(GRuns) /\ done = {} /\ seed = GRuns[run].seed /\ n = 1 /\ ok = FALSE

Ready(i) == /\ i \notin done
            /\ \A j \in 1 .. Len(Ops) : (j # i /\ j \notin done) => ~(Ops[j].res < Ops[i].inv)

Step(i) ==
  LET o == Ops[i] IN
  /\ Ready(i)
  /\ done' = done \cup {i}
  /\ CASE o.k = "sim"   -> /\ n > 0
                           /\ o.r = GTab[seed][o.c][n]
                           /\ n' = GAfter[o.c][n] /\ UNCHANGED seed
       [] o.k = "seed"  -> n' = 1 /\ seed' = o.c
       [] o.k = "query" -> o.r = seed /\ UNCHANGED <<n, seed>>
       [] o.k = "pure"  -> UNCHANGED <<n, seed>>
  /\ UNCHANGED <<run, ok>>

Accept == /\ ~ok /\ Cardinality(done) = Len(Ops) /\ ok' = TRUE /\ UNCHANGED <<run, done, seed, n>>
          /\ PrintT(<<"@", "L", ToString(run)>>)
Next == (\E i \in 1 .. Len(Ops) : Step(i)) \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
