------------------------------- MODULE RngGen -------------------------------
EXTENDS Rng, Gen, Json
CONSTANT Depth
VARIABLE hist
gvars == <<vars, hist>>
MCSlots == 0 .. 2
MCSeeds == GSeeds
MCFiles == GFiles
MCTimes == GTimes
MCJunk == GJunk

Rec(op, a) == hist' = Append(hist, [op |-> op, a |-> a, obs |-> obs', clock |-> clock'])
RecF(op, a) == hist' = Append(hist, [op |-> op, a |-> a, obs |-> obs', clock |-> clock', files |-> files'])
Kinds == {"u32", "unif", "open", "norm"}

DrawOp == \E s \in {x \in Slots : st[x].live /\ st[x].init}, k \in Kinds : \E n \in GCounts : Draw(s, k, n) /\ Rec("draw", <<s, k, n>>)
GenOp ==
  \E s \in Slots :
    \/ New(s) /\ Rec("new", <<s>>)
    \/ \E v \in SeedVals : NewSeeded(s, v) /\ Rec("newseed", <<s, v>>)
    \/ Delete(s) /\ Rec("delete", <<s>>)
    \/ \E v \in SeedVals : Seed(s, v) /\ Rec("seed", <<s, v>>)
    \/ SeedClock(s) /\ Rec("clock", <<s>>)
    \/ StartSeed(s) /\ Rec("start", <<s>>)
FileOp == \E r \in {RandomElement(1 .. 6)} :
  \/ r = 1 /\ \E f \in Files : SeedFile(f) /\ RecF("file", <<f>>)
  \/ r = 2 /\ \E f \in {x \in Files : files[x][1] \in {"num", "draw"}} : SeedFile(f) /\ RecF("file", <<f>>)
  \/ (r = 2 /\ ~\E x \in Files : files[x][1] \in {"num", "draw"}) /\ \E f \in Files, v \in SeedVals : Outside(f, <<"num", v>>) /\ Rec("outside", <<f, "num", v>>)
  \/ r \in {3, 4} /\ WriteSeed /\ RecF("write", <<>>)
  \/ r = 5 /\ \E f \in Files, c \in Contents : Outside(f, c) /\ Rec("outside", <<f, c[1], c[2]>>)
  \/ r = 5 /\ \E f \in Files, v \in SeedVals : Outside(f, <<"num", v>>) /\ Rec("outside", <<f, "num", v>>)
  \/ r = 6 /\ \E t \in Times : Tick(t) /\ Rec("tick", <<t>>)

(* in simulation mode the kind of step is chosen first, by the weights of GMix *)
Op == \E r \in {GMix[RandomElement(DOMAIN GMix)]} :
      \/ r = 1 /\ DrawOp
      \/ (r = 1 /\ ~\E s \in Slots : st[s].live /\ st[s].init) /\ GenOp
      \/ r = 2 /\ GenOp
      \/ r = 3 /\ FileOp

Finish == /\ Len(hist) = Depth /\ PrintT(<<"@", "H", ToJson(hist)>>)
          /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED vars
GInit == Init /\ hist = <<>>
GNext == (Len(hist) < Depth /\ Op) \/ Finish
GSpec == GInit /\ [][GNext]_gvars

(* exhaustive search without the history *)
MCNext == \E s \in Slots : \/ New(s) \/ Delete(s) \/ SeedClock(s) \/ StartSeed(s)
                           \/ \E v \in SeedVals : NewSeeded(s, v) \/ Seed(s, v)
                           \/ \E k \in Kinds : st[s].live /\ Len(st[s].pos) < 2 /\ Draw(s, k, 1)
                           \/ \E f \in Files : SeedFile(f) \/ \E c \in Contents : Outside(f, c)
                           \/ Len(st[0].pos) < 2 /\ WriteSeed
MCSpec == (Init /\ hist = <<>>) /\ [][MCNext /\ UNCHANGED hist]_gvars
Bound == /\ \A s \in Slots : \A i \in 1 .. Len(st[s].pos) : st[s].pos[i].n < 2
         /\ \A s \in Slots : st[s].init /\ st[s].seed[1] = "draw" => st[s].seed[2].seed[1] # "draw"
MCView == <<st, files, bound, clock>>
============================================================================
