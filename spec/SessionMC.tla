----------------------------- MODULE SessionMC -----------------------------
(* Exhaustive model: Session plus ghosts that state the guarantees without  *)
(* reference to stream positions.                                           *)
EXTENDS Session, Gen
CONSTANT MaxOps

VARIABLES since,      \* per process: calls made since its stream was seeded
          fields,     \* per process: noise terms used since it was seeded
          ops

mvars == <<vars, since, fields, ops>>

MCProcs == GProcs
MCSeeds == GSeeds
MCCalls == GCalls
MCVarios == GVarios
MCTimes == GTimes

MCInit == /\ Init
          /\ since = [p \in Procs |-> <<>>]
          /\ fields = [p \in Procs |-> <<>>]
          /\ ops = 0

Ghost(p, c) ==
  /\ since'  = [since EXCEPT ![p] = Append(@, c)]
  /\ fields' = [fields EXCEPT ![p] = Append(@, <<obs'.seed, obs'.pos>>)]

MCNext ==
  /\ ops < MaxOps /\ ops' = ops + 1
  /\ \/ \E p \in Procs, tok \in SeedToks :
          SetSeed(p, tok) /\ since' = [since EXCEPT ![p] = <<>>] /\ fields' = [fields EXCEPT ![p] = <<>>]
     \/ \E p \in Procs : QuerySeed(p) /\ UNCHANGED <<since, fields>>
     \/ \E p \in Procs, c \in Calls : Simulate(p, c) /\ Ghost(p, c)
     \/ \E p \in Procs : Pure(p, "x") /\ UNCHANGED <<since, fields>>
     \/ \E p \in Procs : Refused(p) /\ UNCHANGED <<since, fields>>
     \/ \E p, q \in Procs : Fork(p, q) /\ since' = [since EXCEPT ![q] = since[p]]
                                       /\ fields' = [fields EXCEPT ![q] = fields[p]]
     \/ \E t \in Times : t > clock /\ Tick(t) /\ UNCHANGED <<since, fields>>

MCSpec == MCInit /\ [][MCNext]_mvars

(* the observation is not part of the reachable-state identity              *)
MCView == <<gen, clock, since, fields, ops>>

RECURSIVE PosOf(_)
PosOf(s) == IF s = <<>> THEN <<>>
            ELSE After(PosOf(SubSeq(s, 1, Len(s) - 1)), CanonCall(s[Len(s)]))

(* A stream's state is the seed and the simulations since: nothing else.    *)
Reproducible == \A p \in Procs : gen[p].pos = PosOf(since[p])

(* Same seed and same calls: same stream, in whichever processes.           *)
SameHistorySameStream ==
  \A p, q \in Procs : (gen[p].live /\ gen[q].live /\ gen[p].seed = gen[q].seed /\ since[p] = since[q])
                        => (gen[p] = gen[q] /\ fields[p] = fields[q])

(* Between seedings no two fields are made of the same noise.               *)
FreshNoise == \A p \in Procs : \A i, j \in 1 .. Len(fields[p]) : i # j => fields[p][i] # fields[p][j]

(* ... because each one starts strictly further along the stream.           *)
MovesOn == \A p \in Procs : \A i, j \in 1 .. Len(fields[p]) :
             i < j => Later(fields[p][i][2], fields[p][j][2]) /\ fields[p][i][1] = fields[p][j][1]

(* Once initialised, always initialised; only a seeding changes the token.  *)
SeedStable == [][\A p \in Procs : gen[p].init =>
                   /\ gen'[p].init
                   /\ (gen'[p].seed # gen[p].seed => gen'[p].pos = <<>>)]_mvars

(* Queries and refused calls leave every stream alone.                      *)
ReadOnly == [][obs'.k \in {"seed", "error", "pure"} => UNCHANGED gen]_mvars

(* Processes do not influence one another.                                  *)
Isolated == [][Cardinality({p \in Procs : gen'[p] # gen[p]}) <= 1]_mvars

Types == \A p \in Procs : gen[p].init => gen[p].live
============================================================================
