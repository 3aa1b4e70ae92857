-------------------------------- MODULE Files --------------------------------
(* A small directory tree, the file operations of iotools on it, and two    *)
(* BigFile handles.  Contents are sequences of symbols (0 is a zero byte).  *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Paths,        \* all paths of the tree, as strings
          Up,           \* path -> parent path ("" at the top)
          Handles

VARIABLES node, h, obs
fvars == <<node, h, obs>>

None == [k |-> "none", c |-> <<>>]
Dir  == [k |-> "dir", c |-> <<>>]
File(c) == [k |-> "file", c |-> c]
Shut == [mode |-> "closed", path |-> "", pos |-> 0, eof |-> FALSE, buf |-> <<>>]

Is(nd, p, k) == nd[p].k = k
RECURSIVE Above(_)
Above(p) == IF Up[p] = "" THEN {} ELSE {Up[p]} \cup Above(Up[p])

Init == node = [p \in Paths |-> None] /\ h = [x \in Handles |-> Shut] /\ obs = [k |-> "none"]

Obs(o) == obs' = o
Ok == [k |-> "ok"]
Err == [k |-> "error"]
Num(n) == [k |-> "num", n |-> n]
Data(c) == [k |-> "data", c |-> c]

(* a file being written shows its content only when closed                  *)
Writing(p) == \E x \in Handles : h[x].mode = "w" /\ h[x].path = p
InUse(p)   == \E x \in Handles : h[x].mode # "closed" /\ h[x].path = p
UsedByOther(p, x) == \E y \in Handles \ {x} : h[y].mode # "closed" /\ h[y].path = p

(* can p be opened for writing in nd, and the tree with its directories     *)
MayCreate(nd, p) == \A q \in Above(p) : ~Is(nd, q, "file")
MayWrite(nd, p, create) ==
  /\ ~Is(nd, p, "dir")
  /\ Up[p] = "" \/ Is(nd, Up[p], "dir") \/ (create /\ Is(nd, Up[p], "none") /\ MayCreate(nd, p))
WithDirs(nd, p) == [q \in Paths |-> IF q \in Above(p) THEN Dir ELSE nd[q]]

(* ---- whole-file operations *)
WriteFile(p, create, app, c) ==
  /\ ~InUse(p) /\ UNCHANGED h
  /\ IF MayWrite(node, p, create)
     THEN node' = [WithDirs(node, p) EXCEPT ![p] = File(IF app THEN node[p].c \o c ELSE c)] /\ Obs(Ok)
     ELSE UNCHANGED node /\ Obs(Err)
ReadFile(p) ==
  /\ ~Writing(p) /\ UNCHANGED <<node, h>>
  /\ Obs(IF Is(node, p, "file") THEN Data(node[p].c) ELSE Err)
CopyTo(f, t, over) ==
  /\ ~Writing(f) /\ ~InUse(t) /\ ~Is(node, f, "dir") /\ ~Is(node, t, "dir") /\ UNCHANGED h
  /\ IF \/ Is(node, f, "none") \/ (Is(node, t, "file") /\ ~over)
        \/ ~(Up[t] = "" \/ Is(node, Up[t], "dir"))
     THEN UNCHANGED node /\ Obs(Err)
     ELSE node' = [node EXCEPT ![t] = node[f]] /\ Obs(Ok)
Remove(p) ==
  /\ ~InUse(p) /\ ~Is(node, p, "dir") /\ UNCHANGED h
  /\ node' = [node EXCEPT ![p] = None] /\ Obs(Ok)
MakeDirs(p) ==
  /\ UNCHANGED h
  /\ IF Up[p] = "" \/ ~Is(node, Up[p], "none") THEN UNCHANGED node /\ Obs(Ok)
     ELSE IF MayCreate(node, p) THEN node' = WithDirs(node, p) /\ Obs(Ok)
     ELSE UNCHANGED node /\ Obs(Err)
Exists(p) == UNCHANGED <<node, h>> /\ Obs(Num(IF Is(node, p, "none") THEN 0 ELSE 1))
Size(p) == ~Writing(p) /\ ~Is(node, p, "dir") /\ UNCHANGED <<node, h>> /\ Obs(IF Is(node, p, "none") THEN Err ELSE Num(Len(node[p].c)))

(* ---- handles *)
Closed(x) == IF h[x].mode = "w" THEN [node EXCEPT ![h[x].path] = File(h[x].buf)] ELSE node
Close(x) == node' = Closed(x) /\ h' = [h EXCEPT ![x] = Shut] /\ Obs(Ok)
OpenR(x, p) ==
  /\ ~UsedByOther(p, x)
  /\ node' = Closed(x)
  /\ IF Is(node', p, "file") THEN h' = [h EXCEPT ![x] = [Shut EXCEPT !.mode = "r", !.path = p, !.buf = node'[p].c]] /\ Obs(Ok)
     ELSE h' = [h EXCEPT ![x] = Shut] /\ Obs(Err)
OpenW(x, p, create) ==
  /\ ~UsedByOther(p, x)
  /\ LET nd == Closed(x) IN
     IF MayWrite(nd, p, create)
     THEN node' = [WithDirs(nd, p) EXCEPT ![p] = File(<<>>)] /\ h' = [h EXCEPT ![x] = [Shut EXCEPT !.mode = "w", !.path = p]] /\ Obs(Ok)
     ELSE node' = nd /\ h' = [h EXCEPT ![x] = Shut] /\ Obs(Err)

Splice(b, pos, c) == IF c = <<>> THEN b ELSE [i \in 1 .. (IF pos + Len(c) > Len(b) THEN pos + Len(c) ELSE Len(b)) |->
                       IF i > pos /\ i <= pos + Len(c) THEN c[i - pos] ELSE IF i <= Len(b) THEN b[i] ELSE 0]
Write(x, c) ==
  /\ h[x].mode = "w" /\ UNCHANGED node
  /\ h' = [h EXCEPT ![x].buf = Splice(h[x].buf, h[x].pos, c), ![x].pos = @ + Len(c)] /\ Obs(Num(Len(c)))
Read(x, n) ==
  LET left == IF h[x].pos >= Len(h[x].buf) THEN 0 ELSE Len(h[x].buf) - h[x].pos
      m == IF n < left THEN n ELSE left IN
  /\ h[x].mode = "r" /\ ~h[x].eof /\ UNCHANGED node
  /\ h' = [h EXCEPT ![x].pos = @ + m, ![x].eof = (n > left)]
  /\ Obs(Data(SubSeq(h[x].buf, h[x].pos + 1, h[x].pos + m)))
Seek(x, off, org) ==
  LET to == off + (IF org = "set" THEN 0 ELSE IF org = "cur" THEN h[x].pos ELSE Len(h[x].buf)) IN
  /\ h[x].mode # "closed" /\ UNCHANGED node
  /\ IF to < 0 THEN UNCHANGED h /\ Obs(Err) ELSE h' = [h EXCEPT ![x].pos = to, ![x].eof = FALSE] /\ Obs(Ok)
Tell(x) == h[x].mode # "closed" /\ UNCHANGED <<node, h>> /\ Obs(Num(h[x].pos))
Clear(x) == h' = [h EXCEPT ![x].eof = FALSE] /\ UNCHANGED node /\ Obs(Ok)

(* ---- theorems *)
TreeOK == \A p \in Paths : ~Is(node, p, "none") => \A q \in Above(p) : Is(node, q, "dir")
ReadsStay == \A x \in Handles : h[x].mode = "r" => Is(node, h[x].path, "file") /\ node[h[x].path].c = h[x].buf
(* a refused operation leaves the tree alone (but closes the handle it was  *)
(* asked to reopen)                                                         *)
Safe == [][obs' = Err => \A p \in Paths : node'[p] = node[p] \/ Writing(p)]_fvars
(* no file disappears except by Remove: contents change only at one path    *)
OnePath == [][Cardinality({p \in Paths : ~Is(node, p, "none") /\ node'[p] # node[p]}) <= 2]_fvars
=============================================================================
