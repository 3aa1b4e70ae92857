----------------------------- MODULE StormTrace -----------------------------
(* runs of given operations; what each must show is printed at the end       *)
EXTENDS Storm, Json, Gen
VARIABLES run, pos, st, seen
vars == <<run, pos, st, seen>>
Start == [g |-> <<None, None>>, f |-> <<None, None>>]
Init == run = 1 /\ pos = 0 /\ st = Start /\ seen = <<>>
Do == /\ run <= Len(GRuns) /\ pos < Len(GRuns[run])
      /\ LET r == Step(st, GRuns[run][pos + 1]) IN
         /\ st' = r.st /\ seen' = Append(seen, [a |-> r.ans, o |-> r.o])
      /\ pos' = pos + 1 /\ run' = run
Done == /\ run <= Len(GRuns) /\ pos = Len(GRuns[run])
        /\ PrintT(<<"@", "H", ToJson(seen)>>)
        /\ run' = run + 1 /\ pos' = 0 /\ st' = Start /\ seen' = <<>>
Spec == Init /\ [][Do \/ Done]_vars
Sound == (pos = 0 \/ GRuns[run][pos].op \in {"new", "fill", "dims", "angle", "surf4"}) => Thm(st)
=============================================================================
