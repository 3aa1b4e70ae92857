------------------------------ MODULE Rotation ------------------------------
(* Lags in the principal axes of a rotated variogram, exactly: an angle is  *)
(* a rational point <<c, s, h>> on the circle (cos = c/h, sin = s/h).       *)
EXTENDS Num

OnCircle(a) == a[1] * a[1] + a[2] * a[2] = a[3] * a[3]

(* Components of the lag (x, y, z) along the main, perpendicular and depth  *)
(* directions, all over the common denominator h_azimuth * h_dip.           *)
Comp(az, dp, x, y, z) ==
  LET ca == az[1]  sa == az[2]  ha == az[3]
      cp == dp[1]  sp == dp[2]  hp == dp[3]
  IN << cp * ca * x + cp * sa * y + sp * ha * z,
        hp * (ca * y - sa * x),
        cp * ha * z - sp * ca * x - sp * sa * y >>

Den(az, dp) == az[3] * dp[3]

(* A rotation keeps lengths: the three directions are orthonormal.          *)
KeepsLength(az, dp, x, y, z) ==
  LET c == Comp(az, dp, x, y, z) IN
    c[1]*c[1] + c[2]*c[2] + c[3]*c[3] = Den(az, dp) * Den(az, dp) * (x*x + y*y + z*z)

Odd(az, dp, x, y, z) == Comp(az, dp, -x, -y, -z) = [i \in 1 .. 3 |-> -(Comp(az, dp, x, y, z)[i])]
=============================================================================
