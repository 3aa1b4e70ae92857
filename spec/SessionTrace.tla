---------------------------- MODULE SessionTrace ----------------------------
(* Is a recorded run of the real package a behaviour of Session?  Results   *)
(* are logged as identifiers of their bytes; `memo` maps result terms to    *)
(* identifiers and must stay a function, and noise terms an injection.      *)
EXTENDS Session, Gen, Json

CONSTANT Mode          \* which guarantee is judged: "repro", "draws", "seed", "shape"

VARIABLES l,           \* next line of the trace
          memo,        \* result terms -> identifiers of the bytes seen
          auto,        \* clock seeds -> reported values
          since        \* per process: simulations since its stream was seeded
tvars == <<vars, l, memo, auto, since>>

MCProcs == GProcs
MCSeeds == {}
MCCalls == {}
MCVarios == GVarios
MCTimes == {0}

Trace == ndJsonDeserialize("trace.ndjson")

Ev == Trace[l]
Is(o) == l <= Len(Trace) /\ Ev.op = o /\ l' = l + 1

NewGen == [p \in Procs |-> IF p = 1 THEN FreshGen ELSE NoGen]

TInit == /\ gen = NewGen
         /\ clock = 0 /\ obs = [k |-> "start"]
         /\ l = 1 /\ memo = <<>> /\ auto = <<>>
         /\ since = [p \in Procs |-> <<>>]

(* f stays a function when extended by k |-> x                              *)
Fits(f, k, x) == k \in DOMAIN f => f[k] = x
Inj(f, k, x)  == \A y \in DOMAIN f : f[y] = x => y = k
Ext(f, k, x)  == IF k \in DOMAIN f THEN f ELSE (k :> x) @@ f

(* new session: all processes gone                                          *)
TNew == /\ Is("new") /\ gen' = NewGen
        /\ clock' = Ev.t /\ obs' = [k |-> "start"]
        /\ since' = [p \in Procs |-> <<>>] /\ UNCHANGED <<memo, auto>>

TTick == Is("tick") /\ Tick(Ev.t) /\ UNCHANGED <<memo, auto, since>>
TFork == Is("fork") /\ Fork(Ev.p, Ev.q) /\ since' = [since EXCEPT ![Ev.q] = since[Ev.p]] /\ UNCHANGED <<memo, auto>>

TSeed == Is("seed") /\ Ev.ok /\ SetSeed(Ev.p, Ev.tok)
         /\ since' = [since EXCEPT ![Ev.p] = <<>>] /\ UNCHANGED <<memo, auto>>

(* a report: explicit seeds come back exactly; a clock seed has one value   *)
TQuery == /\ Is("query") /\ QuerySeed(Ev.p)
          /\ IF Mode # "seed" THEN UNCHANGED auto ELSE
               /\ Ev.ok = (obs'.k = "seed")
               /\ IF obs'.k # "seed" THEN UNCHANGED auto
                  ELSE IF obs'.tok[1] = "set" THEN Ev.val = obs'.tok[2] /\ UNCHANGED auto
                  ELSE /\ Fits(auto, obs'.tok, Ev.val)
                       /\ Inj(auto, obs'.tok, Ev.val)
                       /\ auto' = Ext(auto, obs'.tok, Ev.val)
          /\ UNCHANGED <<memo, since>>

(* the term a result is filed under                                         *)
Key == IF Mode = "repro" \/ Mode = "seed"
       THEN <<obs'.seed, since[Ev.p], obs'.call>>
       ELSE <<obs'.seed, obs'.pos, obs'.call>>

TSim == /\ Is("sim") /\ Ev.ok /\ Simulate(Ev.p, Ev.c)
        /\ (Mode = "shape" => Ev.len = ProdSeq(obs'.call.n))
        /\ Fits(memo, Key, Ev.id)
        /\ memo' = Ext(memo, Key, Ev.id)
        (* same bytes only from the same place in the same stream *)
        /\ Mode = "draws" =>
             \A k2 \in DOMAIN memo : memo[k2] = Ev.id =>
                (k2[1] = obs'.seed /\ ~Later(k2[2], obs'.pos) /\ ~Later(obs'.pos, k2[2]))
        /\ since' = [since EXCEPT ![Ev.p] = Append(@, obs'.call)]
        /\ UNCHANGED auto

TPure == /\ Is("pure") /\ Ev.ok /\ Pure(Ev.p, Ev.w)
         /\ Fits(memo, <<"pure", Ev.w>>, Ev.id)
         /\ memo' = Ext(memo, <<"pure", Ev.w>>, Ev.id)
         /\ UNCHANGED <<auto, since>>

TFail == Is("fail") /\ Refused(Ev.p) /\ ~Ev.ok /\ UNCHANGED <<memo, auto, since>>

TNext == TNew \/ TTick \/ TFork \/ TSeed \/ TQuery \/ TSim \/ TPure \/ TFail

TSpec == TInit /\ [][TNext]_tvars

TView == l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
