------------------------------ MODULE FilesGen ------------------------------
EXTENDS Files, TLC, Json, Gen
CONSTANTS Depth
VARIABLES hist, fin
gvars == <<node, h, obs, hist, fin>>
MCPaths == GPaths
MCUp == GUp

Log(op) == hist' = Append(hist, [op |-> op, obs |-> obs', tree |-> [i \in 1 .. Len(GOrder) |-> node'[GOrder[i]]],
                                 hs |-> [x \in 1 .. Cardinality(Handles) |-> [open |-> h'[x].mode # "closed", eof |-> h'[x].eof, w |-> IF h'[x].mode = "w" THEN h'[x].path ELSE ""]]])
B == {0, 1}
Op(k) ==
  CASE k \in 1 .. 3 -> \E p \in Paths, cr \in B, app \in B, c \in GData, o \in B : WriteFile(p, cr = 1, app = 1, c) /\ Log(<<"wf", p, cr, app, c, o>>)
    [] k = 4 -> \E p \in Paths, o \in B : ReadFile(p) /\ Log(<<"rf", p, o>>)
    [] k \in 5 .. 6 -> \E f \in Paths, t \in Paths, ov \in B : CopyTo(f, t, ov = 1) /\ Log(<<"cp", f, t, ov>>)
    [] k = 7 -> \E p \in Paths : Remove(p) /\ Log(<<"rm", p>>)
    [] k = 8 -> \E p \in Paths : MakeDirs(p) /\ Log(<<"md", p>>)
    [] k = 9 -> \E p \in Paths : Exists(p) /\ Log(<<"ex", p>>)
    [] k = 10 -> \E p \in Paths : Size(p) /\ Log(<<"sz", p>>)
    [] k = 11 -> \E x \in Handles : Close(x) /\ Log(<<"close", x>>)
    [] k = 12 -> \E x \in Handles, p \in Paths : OpenR(x, p) /\ Log(<<"openr", x, p>>)
    [] k = 13 -> \E x \in Handles, p \in Paths, cr \in B : OpenW(x, p, cr = 1) /\ Log(<<"openw", x, p, cr>>)
    [] k \in 14 .. 16 -> \E x \in Handles, c \in GData : Write(x, c) /\ Log(<<"write", x, c>>)
    [] k \in 17 .. 19 -> \E x \in Handles, n \in 0 .. 4 : Read(x, n) /\ Log(<<"read", x, n>>)
    [] k = 20 -> \E x \in Handles, o \in {0 - 2, 0 - 1, 0, 1, 2, 3}, org \in {"set", "cur", "end"} : Seek(x, o, org) /\ Log(<<"seek", x, o, org>>)
    [] k = 21 -> \E x \in Handles : Tell(x) /\ Log(<<"tell", x>>)
    [] k = 22 -> \E x \in Handles : Clear(x) /\ Log(<<"clear", x>>)
    [] OTHER -> FALSE
Can(k) == CASE k \in 14 .. 16 -> \E x \in Handles : h[x].mode = "w"
            [] k \in 17 .. 19 -> \E x \in Handles : h[x].mode = "r" /\ ~h[x].eof
            [] k \in 20 .. 21 -> \E x \in Handles : h[x].mode # "closed"
            [] k = 7 -> RandomElement(1 .. 3) = 1
            [] k \in 1 .. 3 -> \E p \in Paths : ~InUse(p)
            [] OTHER -> TRUE
Small == \A x \in Handles : Len(h[x].buf) <= 12 /\ h[x].pos <= 12
Finish == /\ ~fin /\ (Len(hist) = Depth \/ ~Small) /\ fin' = TRUE /\ UNCHANGED <<fvars, hist>> /\ PrintT(<<"@", "H", ToJson(hist)>>)
GNext == \/ Len(hist) < Depth /\ Small /\ UNCHANGED fin /\ \E k \in {RandomElement({j \in 1 .. 22 : Can(j)})} : Op(k)
         \/ Finish
GSpec == Init /\ hist = <<>> /\ fin = FALSE /\ [][GNext]_gvars

MCNext == /\ UNCHANGED <<hist, fin>>
          /\ \/ \E p \in Paths, cr \in BOOLEAN, app \in BOOLEAN, c \in GData : WriteFile(p, cr, app, c) \/ OpenW(1, p, cr) \/ OpenR(1, p) \/ Write(1, c)
             \/ \E f \in Paths, t \in Paths, ov \in BOOLEAN : CopyTo(f, t, ov)
             \/ \E p \in Paths : Remove(p) \/ MakeDirs(p)
             \/ Close(1) \/ \E n \in 0 .. 2 : Read(1, n)
             \/ \E o \in {0 - 1, 1}, org \in {"set", "cur", "end"} : Seek(1, o, org)
Bound == (\A p \in Paths : Len(node[p].c) <= 2) /\ \A x \in Handles : Len(h[x].buf) <= 2 /\ h[x].pos <= 2
MCSpec == Init /\ hist = <<>> /\ fin = FALSE /\ [][MCNext]_gvars
=============================================================================
