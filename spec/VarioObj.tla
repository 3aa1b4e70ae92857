------------------------------ MODULE VarioObj ------------------------------
(* Variogram objects as state machines.  An object is nothing but its       *)
(* parameters: whatever the history, it answers as one built with them.     *)
(* Ranges in tenths, angles in steps of 15 degrees, deviation in tenths.    *)
EXTENDS Num, TLC

CONSTANTS Slots, NewObjs, RangeVals, LimitVals, AngleVals, DevVals

VARIABLES objs,         \* Slots -> object or None
          out           \* whether the last call failed

None == [t |-> "none"]
vars == <<objs, out>>

Live == {k \in Slots : objs[k] # None}

Init == objs = [k \in Slots |-> None] /\ out = "ok"

Create(k, o) == objs' = [objs EXCEPT ![k] = o] /\ out' = "ok"
CloneTo(k, q) == k \in Live /\ q # k /\ objs' = [objs EXCEPT ![q] = objs[k]] /\ out' = "ok"
Drop(k) == k \in Live /\ objs' = [objs EXCEPT ![k] = None] /\ out' = "ok"

Fail == out' = "error" /\ UNCHANGED objs
Put(k, o) == objs' = [objs EXCEPT ![k] = o] /\ out' = "ok"

SetRange(k, a, r) == k \in Live /\ IF r <= 0 THEN Fail ELSE Put(k, [objs[k] EXCEPT ![a] = r])
(* all or nothing *)
SetRanges(k, r) == k \in Live /\ IF r[1] <= 0 \/ r[2] <= 0 \/ r[3] <= 0 THEN Fail
                                 ELSE Put(k, [objs[k] EXCEPT !["rx"] = r[1], !["ry"] = r[2], !["rz"] = r[3]])
LimitRange(k, a, l) == k \in Live /\ IF objs[k][a] > l THEN SetRange(k, a, l) ELSE Put(k, objs[k])
SetAngles(k, a, d) == k \in Live /\ Put(k, [objs[k] EXCEPT !["az"] = a, !["dp"] = d])
RotateAngles(k, a, d) == k \in Live /\ Put(k, [objs[k] EXCEPT !["az"] = @ + a, !["dp"] = @ + d])
SetDev(k, s) == k \in Live /\ Put(k, [objs[k] EXCEPT !["sd"] = Abs(s)])

Axes == {"rx", "ry", "rz"}

TypeOK == \A k \in Live : objs[k].rx > 0 /\ objs[k].ry > 0 /\ objs[k].rz > 0 /\ objs[k].sd >= 0

(* a failed call changes nothing; a call touches one object at most         *)
FailSafe == [][out' = "error" => UNCHANGED objs]_vars
OneAtATime == [][Cardinality({k \in Slots : objs'[k] # objs[k]}) <= 1]_vars
============================================================================
