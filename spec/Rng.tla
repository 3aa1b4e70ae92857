-------------------------------- MODULE Rng --------------------------------
(* Random number generators: slot 0 is the process-wide one (class Random), *)
(* the others are RandomGenerator objects.  A generator is a seed token and *)
(* the draws made since; nothing else influences a value, and both classes  *)
(* read the same streams.  Seed files carry a stream over to the next run.  *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Slots, SeedVals, Files, Times, Junk

VARIABLES st,       \* slot -> generator
          files,    \* file name -> content
          bound,    \* seed file of the process-wide generator, or ""
          clock,
          obs

vars == <<st, files, bound, clock, obs>>

Dead  == [live |-> FALSE, init |-> FALSE, seed |-> <<>>, pos |-> <<>>]
Blank == [live |-> TRUE, init |-> FALSE, seed |-> <<>>, pos |-> <<>>]
From(tok) == [live |-> TRUE, init |-> TRUE, seed |-> tok, pos |-> <<>>]

Advance(pos, k, n) ==
  IF pos # <<>> /\ pos[Len(pos)].k = k
  THEN [pos EXCEPT ![Len(pos)].n = @ + n]
  ELSE Append(pos, [k |-> k, n |-> n])

(* uint32, [0,1) and (0,1) draws take one number of the stream each         *)
Class(kind) == IF kind = "norm" THEN "n" ELSE "u"

SetTok(s)  == <<"set", s>>
AutoTok(t) == <<"auto", ToString(t)>>
DrawTok(g) == <<"draw", [seed |-> g.seed, pos |-> g.pos]>>

Fail == obs' = [k |-> "error"] /\ UNCHANGED <<st, files, bound, clock>>
None == obs' = [k |-> "none"]

Init ==
  /\ st = [s \in Slots |-> IF s = 0 THEN Blank ELSE Dead]
  /\ files = [f \in Files |-> <<"missing", "">>]
  /\ bound = ""
  /\ clock \in Times
  /\ obs = [k |-> "none"]

New(s) == s # 0 /\ ~st[s].live /\ st' = [st EXCEPT ![s] = Blank] /\ None /\ UNCHANGED <<files, bound, clock>>
NewSeeded(s, v) == s # 0 /\ ~st[s].live /\ st' = [st EXCEPT ![s] = From(SetTok(v))] /\ None /\ UNCHANGED <<files, bound, clock>>
Delete(s) == s # 0 /\ st[s].live /\ st' = [st EXCEPT ![s] = Dead] /\ None /\ UNCHANGED <<files, bound, clock>>

Seed(s, v) == st[s].live /\ st' = [st EXCEPT ![s] = From(SetTok(v))] /\ None /\ UNCHANGED <<files, bound, clock>>
SeedClock(s) == st[s].live /\ st' = [st EXCEPT ![s] = From(AutoTok(clock))] /\ None /\ UNCHANGED <<files, bound, clock>>

(* reading a seed file: all or nothing *)
SeedFile(f) ==
  IF files[f][1] \in {"num", "draw"}
  THEN /\ st' = [st EXCEPT ![0] = From(IF files[f][1] = "num" THEN SetTok(files[f][2]) ELSE files[f])]
       /\ bound' = f /\ None /\ UNCHANGED <<files, clock>>
  ELSE Fail

(* the next draw goes to the file that was last read successfully *)
WriteSeed ==
  IF bound = "" THEN None /\ UNCHANGED <<st, files, bound, clock>>
  ELSE IF files[bound][1] = "dir" THEN Fail
  ELSE /\ files' = [files EXCEPT ![bound] = DrawTok(st[0])]
       /\ st' = [st EXCEPT ![0].pos = Advance(@, "u", 1)]
       /\ None /\ UNCHANGED <<bound, clock>>

Draw(s, kind, n) ==
  /\ st[s].live /\ st[s].init
  /\ obs' = [k |-> "value", seed |-> st[s].seed, pos |-> st[s].pos, kind |-> kind, n |-> n]
  /\ st' = [st EXCEPT ![s].pos = Advance(@, Class(kind), n)]
  /\ UNCHANGED <<files, bound, clock>>

StartSeed(s) ==
  /\ st[s].live
  /\ IF st[s].init THEN obs' = [k |-> "seed", tok |-> st[s].seed] /\ UNCHANGED <<st, files, bound, clock>> ELSE Fail

(* the world outside: files are written, removed, replaced; time passes     *)
Outside(f, c) == files[f] # c /\ files' = [files EXCEPT ![f] = c] /\ None /\ UNCHANGED <<st, bound, clock>>
Tick(t) == t # clock /\ clock' = t /\ None /\ UNCHANGED <<st, files, bound>>

Contents == {<<"missing", "">>, <<"dir", "">>} \cup {<<"junk", j>> : j \in Junk} \cup {<<"num", v>> : v \in SeedVals}

(* a refused call changes nothing *)
FailSafe == [][obs'.k = "error" => UNCHANGED <<st, files, bound, clock>>]_vars
(* an operation touches one generator at most, and drawing touches no file  *)
OneAtATime == [][\A a, b \in Slots : (st'[a] # st[a] /\ st'[b] # st[b]) => a = b]_vars
DrawsAreSilent == [][obs'.k = "value" => UNCHANGED <<files, bound>>]_vars
BoundWasRead == bound = "" \/ bound \in Files
Types == \A s \in Slots : st[s].init => st[s].live
============================================================================
