---------------------------- MODULE EmpVarioGen ----------------------------
(* One state per case of the table GCases; the answer is printed.           *)
EXTENDS EmpVario, TLC, Json, Gen
VARIABLE i
Case(q) ==
  [ refs |-> [k \in 1 .. Len(q.refs) |-> [ nb |-> NBins(q.g, q.refs[k], q.res), max2 |-> Max2(q.g, q.refs[k]),
                                          edge |-> OnEdge(q.g, q.refs[k], q.res) ]],
    origin |-> [nb |-> NBins(q.g, Origin, q.res), max2 |-> Max2(q.g, Origin), edge |-> OnEdge(q.g, Origin, q.res)],
    bins |-> [s \in 1 .. Len(q.f) |-> [k \in 1 .. Len(q.refs) |-> Bins(q.g, q.f[s], q.refs[k], q.res)]],
    close |-> [s \in 1 .. Len(q.f) |-> Group(q.g, q.f[s], Close(q.g, q.cr2))],
    lattice |-> [s \in 1 .. Len(q.f) |-> Group(q.g, q.f[s], Lattice(q.g, q.step))],
    all |-> RefOrder(q.g), center |-> Center(q.g), regular |-> Regular(q.g, q.k, q.off) ]
Init == i = 0
Next == /\ i < Len(GCases) /\ i' = i + 1
        /\ \A k \in 1 .. Len(GCases[i'].refs) : Assert(BinsCover(GCases[i'].g, GCases[i'].refs[k], GCases[i'].res), "cover")
        /\ PrintT(<<"@", "R", ToJson([i |-> i', r |-> Case(GCases[i'])])>>)
Spec == Init /\ [][Next]_i
============================================================================
