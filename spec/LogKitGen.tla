------------------------------ MODULE LogKitGen ------------------------------
EXTENDS LogKit, TLC, Json, Gen
CONSTANT Depth
VARIABLES hist, fin
gvars == <<streams, closed, screen, progress, buffering, buffer, count, prefix, nextid, hist, fin>>

MCBits == GBits
MCPhases == GPhases
MCTexts == GTexts
MCPrefixes == GPrefixes

View == [logs |-> [i \in 1 .. Len(streams) |-> <<streams[i].id, streams[i].log>>], closed |-> closed, screen |-> screen, count |-> [i \in 1 .. Len(GOrder) |-> count[GOrder[i]]]]
Log(op) == hist' = Append(hist, [op |-> op, after |-> View'])

PerSets == GPer
Pers == {<<a, b>> : a \in PerSets, b \in PerSets} \cup {<<a>> : a \in PerSets} \cup {<<a, b, c>> : a \in PerSets, b \in PerSets, c \in PerSets}
Op(k) ==
  CASE k = 1 -> \E L \in GPer, kind \in {"file", "custom"} : Open(kind, Whole(L)) /\ Log(<<"whole", kind, L>>)
    [] k = 2 -> \E L \in GPer : Open("file", NoNRLib(L)) /\ Log(<<"nonr", "file", L>>)
    [] k = 3 -> \E p \in {RandomElement(Pers)}, ign \in {0, 1}, kind \in {"file", "custom"} : Open(kind, PerPhase(p, ign = 1)) /\ Log(<<"per", kind, p, ign>>)
    [] k = 4 -> \E L \in GPer, p \in Phases, ign \in {0, 1} : Open("file", Single(L, p, ign = 1)) /\ Log(<<"single", "file", L, p, ign>>)
    [] k = 5 -> \E L \in GPer : SetScreen(Whole(L)) /\ Log(<<"whole", "screen", L>>)
    [] k = 6 -> \E L \in GPer : SetScreen(NoNRLib(L)) /\ Log(<<"nonr", "screen", L>>)
    [] k = 7 -> \E p \in {RandomElement(Pers)}, ign \in {0, 1} : SetScreen(PerPhase(p, ign = 1)) /\ Log(<<"per", "screen", p, ign>>)
    [] k = 8 -> \E i \in 1 .. Len(streams) : Remove(i) /\ Log(<<"remove", streams[i].id>>)
    [] k \in 9 .. 14 -> \E b \in Bits, t \in Texts : Send(b, 0 - 1, <<t>>) /\ Log(<<"msg", b, t, IF k = 14 THEN 1 ELSE 0>>)
    [] k \in 15 .. 20 -> \E b \in Bits, p \in Phases, t \in Texts : Send(b, p, <<t>>) /\ Log(<<"pmsg", b, p, t, IF k = 20 THEN 1 ELSE 0>>)
    [] k = 21 -> \E b \in Bits, t \in Texts : Send(b, 0 - 1, <<"ruler1", "H" \o t, "ruler2">>) /\ Log(<<"header", b, t>>)
    [] k = 22 -> \E n \in GProg, t \in Texts : Progress(n, t) /\ Log(<<"progress", n, t>>)
    [] k = 23 -> StartBuffering /\ Log(<<"start">>)
    [] k = 24 -> EndBuffering /\ Log(<<"stop">>)
    [] k = 25 -> \E b \in Bits, p \in Prefixes : SetPrefix(b, p) /\ Log(<<"prefix", b, p>>)
    [] k = 26 -> EndLog /\ Log(<<"endlog">>)
    [] OTHER -> FALSE

Can(k) == CASE k \in 1 .. 4 -> Len(streams) < MaxStreams
            [] k \in 5 .. 7 -> Len(streams) < MaxStreams \/ \E i \in 1 .. Len(streams) : streams[i].kind = "screen"
            [] k = 8 -> \E i \in 1 .. Len(streams) : streams[i].kind = "custom"
            [] k = 23 -> ~buffering
            [] k = 26 -> Len(hist) > 6
            [] OTHER -> TRUE
Finish == /\ ~fin /\ Len(hist) = Depth /\ fin' = TRUE /\ UNCHANGED <<lvars, hist>> /\ PrintT(<<"@", "H", ToJson(hist)>>)
GNext == \/ Len(hist) < Depth /\ UNCHANGED fin /\ \E k \in {RandomElement({j \in 1 .. 26 : Can(j)})} : Op(k)
         \/ Finish
GSpec == Init /\ hist = <<>> /\ fin = FALSE /\ [][GNext]_gvars

(* exhaustive small model *)
MCNext == /\ UNCHANGED <<hist, fin>>
          /\ \/ \E L \in GPer : Open("file", Whole(L)) \/ Open("custom", PerPhase(<<{}, L>>, TRUE)) \/ SetScreen(NoNRLib(L)) \/ Open("file", PerPhase(<<L, {}>>, FALSE))
             \/ \E i \in 1 .. Len(streams) : Remove(i)
             \/ \E b \in Bits, p \in {0 - 1} \cup Phases, t \in Texts : Send(b, p, <<t>>)
             \/ \E t \in Texts : Progress(1, t)
             \/ StartBuffering \/ EndBuffering \/ EndLog
Bound == Total <= GMax /\ nextid <= GMax + 1 /\ Len(screen) <= GMax + 1
MCSpec == Init /\ hist = <<>> /\ fin = FALSE /\ [][MCNext]_gvars
FormThm == \A L \in SUBSET GBits, p \in Pers : GeneralThm(Whole(L)) /\ GeneralThm(NoNRLib(L)) /\ GeneralThm(PerPhase(p, TRUE)) /\ GeneralThm(PerPhase(p, FALSE))
ASSUME FormThm
=============================================================================
