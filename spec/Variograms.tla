----------------------------- MODULE Variograms -----------------------------
(* Variograms as values: how the factory's arguments are normalised, what   *)
(* the padding rule needs of them, and how lags are mapped to the principal *)
(* axes for rotations by quarter turns.                                     *)
EXTENDS Num

(* Type names are case insensitive; anything unknown is spherical.          *)
CanonType(s) ==
  CASE s \in {"constant", "CONSTANT", "Constant"}                       -> "constant"
    [] s \in {"exponential", "EXPONENTIAL", "Exponential"}              -> "exponential"
    [] s \in {"gaussian", "GAUSSIAN", "Gaussian", "gAuSsIaN"}           -> "gaussian"
    [] s \in {"general_exponential", "GENERAL_EXPONENTIAL", "General_Exponential"}
                                                                        -> "general_exponential"
    [] s \in {"matern32", "MATERN32", "Matern32"}                       -> "matern32"
    [] s \in {"matern52", "MATERN52", "Matern52"}                       -> "matern52"
    [] s \in {"matern72", "MATERN72", "Matern72"}                       -> "matern72"
    [] OTHER                                                            -> "spherical"

AllTypes == {"constant", "exponential", "gaussian", "general_exponential",
             "matern32", "matern52", "matern72", "spherical"}

(* An argument record of the factory: ranges in units, <= 0 = "not given";  *)
(* angles in degrees; power in tenths.                                      *)
CanonVario(a) ==
  LET t == CanonType(a.type) IN
  [ t   |-> t,
    rx  |-> a.rx,
    ry  |-> IF a.ry <= 0 THEN a.rx ELSE a.ry,
    rz  |-> IF a.rz <= 0 THEN a.rx ELSE a.rz,
    azi |-> a.azi,
    dip |-> a.dip,
    pow |-> IF t = "general_exponential" THEN a.pow ELSE 0,
    u   |-> a.u ]

(* Smallest grid-to-range ratio, in thousandths.                            *)
Ratio(v) ==
  CASE v.t = "constant"            -> 1000
    [] v.t = "exponential"         -> 2330
    [] v.t = "spherical"           -> 1920
    [] v.t = "gaussian"            -> 6670
    [] v.t = "general_exponential" -> 4000 + (v.pow - 15) * 534
    [] v.t = "matern32"            -> 4000
    [] v.t = "matern52"            -> 4760
    [] v.t = "matern72"            -> 5260
=============================================================================
