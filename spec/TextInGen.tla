----------------------------- MODULE TextInGen -----------------------------
EXTENDS TextIn, TLC, Json, Gen
CONSTANT Depth
VARIABLES hist, fin
gvars == <<text, pos, good, line, obs, hist, fin>>

Log(op) == hist' = Append(hist, [op |-> op, obs |-> obs', line |-> line', pos |-> pos', good |-> good']) /\ UNCHANGED fin
Types == {"s", "i", "d"}
Ops == {<<"tok">>, <<"line">>, <<"end">>, <<"disc", 0>>, <<"disc", 1>>, <<"last", 3>>, <<"last", 6>>, <<"last", 1000>>, <<"skip", 35>>, <<"skip", 33>>,
        <<"quoted", 34>>, <<"quoted", 39>>}
       \cup {<<"next", ty>> : ty \in Types} \cup {<<"arr", ty, n>> : ty \in Types, n \in 1 .. 3}
       \cup {<<k, ty, n>> : k \in {"fast", "rest"}, ty \in {"i", "d"}, n \in 1 .. 4}
Do(op) ==
  /\ CASE op[1] = "tok"  -> ReadToken
       [] op[1] = "next" -> ReadNext(op[2])
       [] op[1] = "arr"  -> ReadArray(op[2], op[3])
       [] op[1] = "fast" -> ReadFast(op[2], op[3])
       [] op[1] = "rest" -> ReadRest(op[2], op[3])
       [] op[1] = "disc" -> Discard(op[2] = 1)
       [] op[1] = "line" -> NextLine
       [] op[1] = "last" -> LastLine(op[2])
       [] op[1] = "skip" -> Skip(op[2])
       [] op[1] = "end"  -> CheckEnd
       [] op[1] = "quoted" -> Quoted(op[2])
  /\ Log(op)
Can(op) == CASE op[1] \in {"fast", "rest"} -> FastOK(op[2], op[3])
             [] op[1] \in {"disc", "last"} -> good
             [] op[1] = "quoted" -> good /\ LET a == NextIn(text, pos, {op[2]}) IN a > Len(text) \/ NextIn(text, a + 1, {op[2]}) <= Len(text)
             [] OTHER -> TRUE
Step == IF GRandom THEN \E op \in {RandomElement({o \in Ops : Can(o)})} : Do(op) ELSE \E op \in Ops : Do(op)
Finish == /\ ~fin /\ Len(hist) = Depth /\ fin' = TRUE /\ UNCHANGED <<text, pos, good, line, obs, hist>>
          /\ PrintT(<<"@", "H", ToJson([text |-> text, ops |-> hist])>>)
GInit == /\ text \in GTexts /\ pos = 1 /\ good = TRUE /\ line = 0 /\ obs = [k |-> "none", v |-> <<>>]
         /\ hist = <<>> /\ fin = FALSE
GNext == (Len(hist) < Depth /\ Step) \/ Finish
GSpec == GInit /\ [][GNext]_gvars
ThmOK == hist = <<>> => TokThm(text)
=============================================================================
