----------------------------- MODULE SessionGen -----------------------------
(* Behaviours of Session, written out for replay against the real package.  *)
EXTENDS Session, Gen, Json
CONSTANT Depth

VARIABLES hist

MCProcs == GProcs
MCSeeds == GSeeds
MCCalls == GCalls
MCVarios == GVarios
MCTimes == GTimes

gvars == <<vars, hist>>

Rec(r) == hist' = Append(hist, r)

GInit == Init /\ hist = <<[op |-> "tick", p |-> 0, t |-> clock, obs |-> [k |-> "none"]]>>

(* one more step writes the behaviour out: printed once per behaviour *)
Finish == /\ Len(hist) = Depth /\ PrintT(<<"@", "H", ToJson(hist)>>)
          /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED vars

Step ==
  /\ Len(hist) < Depth
  /\ \/ \E p \in Procs, tok \in SeedToks :
          SetSeed(p, tok) /\ Rec([op |-> "seed", p |-> p, tok |-> tok, obs |-> obs'])
     \/ \E p \in Procs : QuerySeed(p) /\ Rec([op |-> "query", p |-> p, obs |-> obs'])
     \/ \E p \in Procs, c \in Calls :
          Simulate(p, c) /\ Rec([op |-> "sim", p |-> p, c |-> c, obs |-> obs'])
     \/ \E p \in Procs, w \in GPures : Pure(p, w) /\ Rec([op |-> "pure", p |-> p, w |-> w, obs |-> obs'])
     \/ \E p \in Procs, w \in GFails : Refused(p) /\ Rec([op |-> "fail", p |-> p, w |-> w, obs |-> obs'])
     \/ \E p, q \in Procs : Fork(p, q) /\ Rec([op |-> "fork", p |-> p, q |-> q, obs |-> obs'])
     \/ \E t \in Times : t > clock /\ Tick(t) /\ Rec([op |-> "tick", p |-> 0, t |-> t, obs |-> obs'])

GNext == Step \/ Finish
GSpec == GInit /\ [][GNext]_gvars

=============================================================================
