------------------------------- MODULE LogKit -------------------------------
(* Logging: a message has a level (one bit) and possibly a phase; a stream  *)
(* has levels per phase.  Streams are kept with everything sent to them so  *)
(* far; what was sent to a closed stream stays in its file.                 *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Bits, Phases, Texts, Prefixes, MaxStreams

VARIABLES streams,   \* sequence of open streams, in the order they were added
          closed,    \* id -> content of file and custom streams that are closed
          screen,    \* what went to the screen
          progress,  \* the screen log is in the middle of a progress bar
          buffering, buffer,
          count, prefix, nextid

lvars == <<streams, closed, screen, progress, buffering, buffer, count, prefix, nextid>>

Union(per) == UNION {per[i] : i \in 1 .. Len(per)}
(* n: number of phases with levels of their own; at: the levels listed      *)
Form(n, at, gen)    == [n |-> n, at |-> at, gen |-> gen]
Whole(L)            == Form(0, <<>>, L)
NoNRLib(L)          == Form(2, <<<<1, L>>>>, L)
PerPhase(per, ign)  == Form(Len(per), [i \in 1 .. Len(per) |-> <<i - 1, per[i]>>], IF ign THEN {} ELSE Union(per))
Single(L, p, ign)   == Form(1000, <<<<p, L>>>>, IF ign THEN {} ELSE L)

Takes(f, lv, ph) == IF ph < 0 \/ ph >= f.n THEN lv \in f.gen
                    ELSE \E i \in 1 .. Len(f.at) : f.at[i][1] = ph /\ lv \in f.at[i][2]

(* a message without phase goes to every stream that takes it in some phase *)
GeneralThm(f) == \A lv \in Bits : Takes(f, lv, 0 - 1) => \E p \in 0 .. f.n : Takes(f, lv, p)

Msg(lv, t) == <<"m", prefix[lv], t>>
Replayed(f) == SelectSeq(buffer, LAMBDA b : Takes(f, b.lv, b.ph))
Texts2(s) == [i \in 1 .. Len(s) |-> s[i].m]

Init == /\ streams = <<>> /\ closed = <<>> /\ screen = <<>> /\ progress = FALSE
        /\ buffering = FALSE /\ buffer = <<>> /\ count = [b \in Bits |-> 0] /\ prefix = [b \in Bits |-> ""]
        /\ nextid = 1

(* a new file or custom stream first gets what was buffered                 *)
Open(kind, f) ==
  /\ Len(streams) < MaxStreams
  /\ streams' = Append(streams, [id |-> nextid, kind |-> kind, f |-> f, log |-> Texts2(Replayed(f))])
  /\ nextid' = nextid + 1
  /\ UNCHANGED <<closed, screen, progress, buffering, buffer, count, prefix>>

(* there is one screen log; setting it again replaces it in its place       *)
SetScreen(f) ==
  LET S == {i \in 1 .. Len(streams) : streams[i].kind = "screen"} IN
  /\ progress' = FALSE
  /\ IF S = {} THEN Len(streams) < MaxStreams /\ streams' = Append(streams, [id |-> 0, kind |-> "screen", f |-> f, log |-> <<>>])
     ELSE streams' = [i \in 1 .. Len(streams) |-> IF i \in S THEN [streams[i] EXCEPT !.f = f] ELSE streams[i]]
  /\ UNCHANGED <<closed, screen, buffering, buffer, count, prefix, nextid>>

Remove(i) ==
  /\ streams[i].kind = "custom"
  /\ streams' = [j \in 1 .. Len(streams) - 1 |-> IF j < i THEN streams[j] ELSE streams[j + 1]]
  /\ closed' = Append(closed, [id |-> streams[i].id, log |-> streams[i].log])
  /\ UNCHANGED <<screen, progress, buffering, buffer, count, prefix, nextid>>

HasScreen(lv, ph) == \E i \in 1 .. Len(streams) : streams[i].kind = "screen" /\ Takes(streams[i].f, lv, ph)

(* several messages in one go, all of one level and phase                   *)
Send(lv, ph, ts) ==
  LET ms == [i \in 1 .. Len(ts) |-> Msg(lv, ts[i])] IN
  /\ count' = [count EXCEPT ![lv] = @ + Len(ts)]
  /\ streams' = [i \in 1 .. Len(streams) |-> IF streams[i].kind # "screen" /\ Takes(streams[i].f, lv, ph)
                                             THEN [streams[i] EXCEPT !.log = @ \o ms] ELSE streams[i]]
  /\ IF HasScreen(lv, ph)
     THEN screen' = screen \o (IF progress THEN <<<<"break">>>> ELSE <<>>) \o ms /\ progress' = FALSE
     ELSE UNCHANGED <<screen, progress>>
  /\ buffer' = IF buffering THEN buffer \o [i \in 1 .. Len(ts) |-> [lv |-> lv, ph |-> ph, m |-> ms[i]]] ELSE buffer
  /\ UNCHANGED <<closed, buffering, prefix, nextid>>

Progress(k, t) ==
  /\ IF \E i \in 1 .. Len(streams) : streams[i].kind = "screen"
     THEN screen' = screen \o (IF progress THEN <<>> ELSE <<<<"header">>>>) \o <<<<"bar", k, t>>>> /\ progress' = TRUE
     ELSE UNCHANGED <<screen, progress>>
  /\ UNCHANGED <<streams, closed, buffering, buffer, count, prefix, nextid>>

StartBuffering == ~buffering /\ buffering' = TRUE /\ buffer' = <<>> /\ UNCHANGED <<streams, closed, screen, progress, count, prefix, nextid>>
EndBuffering == buffering' = FALSE /\ buffer' = <<>> /\ UNCHANGED <<streams, closed, screen, progress, count, prefix, nextid>>
SetPrefix(lv, p) == prefix' = [prefix EXCEPT ![lv] = p] /\ UNCHANGED <<streams, closed, screen, progress, buffering, buffer, count, nextid>>

Gone == SelectSeq(streams, LAMBDA s : s.kind # "screen")
EndLog == /\ closed' = closed \o [i \in 1 .. Len(Gone) |-> [id |-> Gone[i].id, log |-> Gone[i].log]]
          /\ streams' = <<>> /\ progress' = FALSE /\ buffering' = FALSE /\ buffer' = <<>>
          /\ UNCHANGED <<screen, count, prefix, nextid>>

(* every open stream holds exactly the messages since buffering began (when *)
(* it was opened while buffering) that it takes, and no message is lost     *)
Total == LET C[S \in SUBSET Bits] == IF S = {} THEN 0 ELSE LET b == CHOOSE x \in S : TRUE IN count[b] + C[S \ {b}] IN C[Bits]
NoMoreThanSent == \A i \in 1 .. Len(streams) : Len(streams[i].log) <= Total
OneScreen == Cardinality({i \in 1 .. Len(streams) : streams[i].kind = "screen"}) <= 1
Buffered == ~buffering => buffer = <<>>
AppendOnly == [][Len(screen') >= Len(screen) /\ SubSeq(screen', 1, Len(screen)) = screen
                 /\ SubSeq(closed', 1, Len(closed)) = closed]_lvars
=============================================================================
