---------------------------- MODULE VarioObjGen ----------------------------
EXTENDS VarioObj, Gen, Json
CONSTANT Depth
VARIABLE hist
gvars == <<vars, hist>>

MCSlots == 1 .. 2
MCNew == GNew
MCRange == GRange
MCLimit == GLimit
MCAngle == GAngle
MCDev == GDev

Rec(op, k, a) == hist' = Append(hist, [op |-> op, k |-> k, a |-> a, out |-> out', objs |-> objs'])

Short == [rx |-> "rx", ry |-> "ry", rz |-> "rz"]
Limit == [rx |-> "lx", ry |-> "ly", rz |-> "lz"]

Op ==
  \E k \in Slots :
    \/ \E ax \in Axes, r \in RangeVals : SetRange(k, ax, r) /\ Rec(Short[ax], k, <<r>>)
    \/ \E r \in GTriples : SetRanges(k, r) /\ Rec("rs", k, r)
    \/ \E ax \in Axes, l \in LimitVals : LimitRange(k, ax, l) /\ Rec(Limit[ax], k, <<l>>)
    \/ \E a \in AngleVals, d \in AngleVals : SetAngles(k, a, d) /\ Rec("sa", k, <<a, d>>)
    \/ \E a \in AngleVals : SetAngles(k, a, 0) /\ Rec("sa1", k, <<a>>)
    \/ \E a \in AngleVals, d \in AngleVals : RotateAngles(k, a, d) /\ Rec("ra", k, <<a, d>>)
    \/ \E a \in AngleVals : RotateAngles(k, a, 0) /\ Rec("ra1", k, <<a>>)
    \/ \E s \in DevVals : SetDev(k, s) /\ Rec("sd", k, <<s>>)
    \/ \E q \in Slots : CloneTo(k, q) /\ Rec("clone", k, <<q>>)
    \/ \E o \in NewObjs : k \notin Live /\ Create(k, o) /\ Rec("new", k, <<o>>)
    \/ Live = Slots /\ Drop(k) /\ Rec("drop", k, <<>>)

First == \E o \in NewObjs : Create(1, o) /\ Rec("new", 1, <<o>>)

(* one more step writes the behaviour out: printed once per behaviour *)
Finish == /\ Len(hist) = Depth /\ PrintT(<<"@", "H", ToJson(hist)>>)
          /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED vars

GInit == Init /\ hist = <<>>
GNext == \/ Len(hist) < Depth /\ IF hist = <<>> THEN First ELSE Op
         \/ Finish
GSpec == GInit /\ [][GNext]_gvars
============================================================================
