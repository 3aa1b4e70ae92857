------------------------------ MODULE CovGrid ------------------------------
(* Wrap-around lags of the covariance grid, and the memory orders used.     *)
EXTENDS Num

(* Lag (in cells) of index i on a periodic axis of n cells.                 *)
Lag(i, n) == IF i < (n + 1) \div 2 THEN i ELSE i - n

Lags(n) == [k \in 1 .. n |-> Lag(k - 1, n)]

(* Fortran order: first index fastest.                                      *)
FIndex(i, j, k, ni, nj) == i + ni * j + ni * nj * k

(* White noise is drawn last index fastest.                                 *)
NoiseIndex(i, j, k, nj, nk) == (i * nj + j) * nk + k

(* Facts TLC checks for all small axes.                                     *)
LagBound(n)  == \A i \in 0 .. n-1 : 2 * Abs(Lag(i, n)) <= n
LagEven(n)   == \A i \in 1 .. n-1 :
                  \/ Lag(i, n) = -Lag(n - i, n)
                  \/ (2 * i = n /\ Lag(i, n) = Lag(n - i, n))
LagCong(n)   == \A i \in 0 .. n-1 : (Lag(i, n) - i) % n = 0
============================================================================
