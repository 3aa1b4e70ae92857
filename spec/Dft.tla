-------------------------------- MODULE Dft --------------------------------
(* The discrete Fourier transform, exactly, for axis lengths 1, 2 and 4,    *)
(* where the roots of unity are Gaussian integers.  Fixes the sign of the   *)
(* exponent, the layout of the half spectrum and the scaling.               *)
EXTENDS Num, FftSize

(* w(n, m) = exp(-2 pi i m / n) as <<re, im>>                               *)
Root(n, m) ==
  CASE n = 1 -> <<1, 0>>
    [] n = 2 -> IF m % 2 = 0 THEN <<1, 0>> ELSE <<-1, 0>>
    [] n = 4 -> << <<1, 0>>, <<0, -1>>, <<-1, 0>>, <<0, 1>> >>[(m % 4) + 1]

CMul(a, b) == <<a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1]>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>

RECURSIVE CSum(_)
CSum(s) == IF s = <<>> THEN <<0, 0>> ELSE CAdd(s[1], CSum(Tail(s)))

(* x: sequence of length ni*nj*nk, last index fastest                       *)
At(x, nj, nk, i, j, k) == x[(i * nj + j) * nk + k + 1]

(* The coefficient at frequencies (p, q, r)                                 *)
Coef(x, ni, nj, nk, p, q, r) ==
  LET cells == [m \in 1 .. ni*nj*nk |-> <<(m - 1) \div (nj * nk), ((m - 1) \div nk) % nj, (m - 1) % nk>>]
      term(c) == CMul(CMul(Root(ni, p * c[1]), Root(nj, q * c[2])), Root(nk, r * c[3]))
      val(c) == At(x, nj, nk, c[1], c[2], c[3])
  IN CSum([m \in 1 .. ni*nj*nk |-> LET t == term(cells[m]) v == val(cells[m]) IN <<t[1] * v, t[2] * v>>])

(* First index halved: 0 .. ni/2                                            *)
HalfSpectrum(x, ni, nj, nk) ==
  [m \in 1 .. (ni \div 2 + 1) * nj * nk |->
     Coef(x, ni, nj, nk, (m - 1) \div (nj * nk), ((m - 1) \div nk) % nj, (m - 1) % nk)]

(* The other half follows: the transform of real data is Hermitian.         *)
Hermitian(x, ni, nj, nk) ==
  \A p \in 0 .. ni-1, q \in 0 .. nj-1, r \in 0 .. nk-1 :
    LET a == Coef(x, ni, nj, nk, p, q, r)
        b == Coef(x, ni, nj, nk, (ni - p) % ni, (nj - q) % nj, (nk - r) % nk)
    IN a[1] = b[1] /\ a[2] = -b[2]

(* Transforming back and dividing by the number of cells restores the data. *)
Inverts(x, ni, nj, nk) ==
  LET n == ni * nj * nk
      F == [m \in 1 .. n |-> Coef(x, ni, nj, nk, (m - 1) \div (nj * nk), ((m - 1) \div nk) % nj, (m - 1) % nk)]
      back(c) == CSum([m \in 1 .. n |->
                    LET p == (m - 1) \div (nj * nk)  q == ((m - 1) \div nk) % nj  r == (m - 1) % nk
                        w == CMul(CMul(Root(ni, ni*4 - p * c[1]), Root(nj, nj*4 - q * c[2])), Root(nk, nk*4 - r * c[3]))
                    IN CMul(F[m], w)])
  IN \A i \in 0 .. ni-1, j \in 0 .. nj-1, k \in 0 .. nk-1 :
       back(<<i, j, k>>) = <<n * At(x, nj, nk, i, j, k), 0>>

(* Circular convolution of two grids.                                       *)
RECURSIVE ISum(_)
ISum(s) == IF s = <<>> THEN 0 ELSE s[1] + ISum(Tail(s))
Conv(x, y, ni, nj, nk) ==
  [m \in 1 .. ni*nj*nk |->
     LET a == (m - 1) \div (nj * nk)  b == ((m - 1) \div nk) % nj  c == (m - 1) % nk IN
     ISum([q \in 1 .. ni*nj*nk |->
       LET i == (q - 1) \div (nj * nk)  j == ((q - 1) \div nk) % nj  k == (q - 1) % nk IN
       x[q] * At(y, nj, nk, (a + ni - i) % ni, (b + nj - j) % nj, (c + nk - k) % nk)])]
(* It is the product in the Fourier domain.                                 *)
ConvTheorem(x, y, ni, nj, nk) ==
  LET z == Conv(x, y, ni, nj, nk) IN
  \A p \in 0 .. ni-1, q \in 0 .. nj-1, r \in 0 .. nk-1 :
    Coef(z, ni, nj, nk, p, q, r) = CMul(Coef(x, ni, nj, nk, p, q, r), Coef(y, ni, nj, nk, p, q, r))

(* Padding of a series: none, or up to a good length not below the series   *)
(* and the requested padding (the length of the series if negative), going  *)
(* linearly from the last value to the first.  Values times d.              *)
PadLen(n, want) == IF want = 0 THEN n ELSE FftLen(n + (IF want < 0 THEN n ELSE want), FALSE)
PadSeries(v, want) ==
  LET n == Len(v)  p == PadLen(n, want) - n  d == IF p < 2 THEN 1 ELSE p - 1 IN
  [d |-> d, v |-> [i \in 1 .. n + p |-> IF i <= n THEN d * v[i]
                                       ELSE IF p = 1 THEN v[1]
                                       ELSE LET t == i - n - 1 IN v[1] * t + v[n] * (d - t)]]
(* the padding meets the series at both ends *)
PadTheorem(v, want) ==
  LET r == PadSeries(v, want)  n == Len(v)  m == Len(r.v) IN
  /\ m >= n /\ (IF want = 0 THEN m = n ELSE Smooth(m))
  /\ m > n => r.v[m] = r.d * v[1]
  /\ m > n + 1 => r.v[n + 1] = r.d * v[n]
============================================================================
