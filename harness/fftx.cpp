// Transform lengths, FFT grids, covariance grids.
#include "hh.hpp"
#include "nrlib/fft/fft.hpp"
#include "nrlib/fft/fftgrid2d.hpp"
#include "nrlib/fft/fftgrid3d.hpp"
#include "nrlib/variogram/fftcovgrid.hpp"
#include "nrlib/variogram/covgrid2d.hpp"
#include "nrlib/variogram/variogram.hpp"
#include "nrlib/variogram/gaussianfield.hpp"
using namespace hh;
using namespace NRLib;
static std::unique_ptr<Variogram> vario(In& in) {
  int t = (int)in.i(); double p = in.d(), rx = in.d(), ry = in.d(), rz = in.d(), a = in.d(), d = in.d(), s = in.d();
  return std::unique_ptr<Variogram>(Variogram::Create((Variogram::Type)t, p, rx, ry, rz, a, d, s));
}
template <typename T> static Grid2D<T> grid2(In& in, FFTGrid2D<T>& g) {
  Grid2D<T> x(g.GetNItot(), g.GetNJtot());
  for (size_t i = 0; i < x.GetNI(); i++) for (size_t j = 0; j < x.GetNJ(); j++) x(i, j) = (T)in.d();
  return x;
}
template <typename T> static Grid<T> grid3(In& in, FFTGrid3D<T>& g) {
  Grid<T> x(g.GetNItot(), g.GetNJtot(), g.GetNKtot());
  for (size_t i = 0; i < x.GetNI(); i++) for (size_t j = 0; j < x.GetNJ(); j++)
    for (size_t k = 0; k < x.GetNK(); k++) x(i, j, k) = (T)in.d();
  return x;
}
template <typename T> static void f2(In& in, Out& o) {
    bool sc = in.i() != 0; size_t ni = in.u(), nj = in.u(), pi = in.u(), pj = in.u();
    FFTGrid2D<T> g(ni, nj, pi, pj, sc);
    g.Initialize(grid2<T>(in, g)); g.DoFFT();
    o.u(g.GetNItot()).u(g.GetNJtot());
    for (size_t i = 0; i < g.GetComplexNI(); i++) for (size_t j = 0; j < g.GetComplexNJ(); j++)
      o.d(g.Complex(i, j).real()).d(g.Complex(i, j).imag());
    g.DoInverseFFT();
    Grid2D<T> r = g.GetRealGrid();
    for (size_t i = 0; i < ni; i++) for (size_t j = 0; j < nj; j++) {
      o.d(r(i, j)); if (g.Real(i, j) != r(i, j)) throw std::runtime_error("Real and GetRealGrid disagree"); }
}
template <typename T> static void f3(In& in, Out& o) {
    bool sc = in.i() != 0; size_t ni = in.u(), nj = in.u(), nk = in.u(), pi = in.u(), pj = in.u(), pk = in.u();
    FFTGrid3D<T> g(ni, nj, nk, pi, pj, pk, sc);
    g.Initialize(grid3<T>(in, g)); g.DoFFT();
    o.u(g.GetNItot()).u(g.GetNJtot()).u(g.GetNKtot());
    for (size_t i = 0; i < g.GetComplexNI(); i++) for (size_t j = 0; j < g.GetComplexNJ(); j++)
      for (size_t k = 0; k < g.GetComplexNK(); k++) o.d(g.Complex(i, j, k).real()).d(g.Complex(i, j, k).imag());
    g.DoInverseFFT();
    Grid<T> r = g.GetRealGrid();
    for (size_t i = 0; i < ni; i++) for (size_t j = 0; j < nj; j++) for (size_t k = 0; k < nk; k++) {
      o.d(r(i, j, k)); if (g.Real(i, j, k) != r(i, j, k)) throw std::runtime_error("Real and GetRealGrid disagree"); }
}
static void go(const std::string& c, In& in, Out& o) {
  if (c == "len") { size_t n = in.u(); o.u(FindNewSizeWithPadding(n, in.i() != 0)); }
  else if (c == "lend") { o.u(FindNewSizeWithPadding(in.u())); }
  else if (c == "g2") {
    size_t ni = in.u(), nj = in.u(), pi = in.u(), pj = in.u();
    FFTGrid2D<double> g(ni, nj, pi, pj, false);
    o.u(g.GetNItot()).u(g.GetNJtot()).u(g.GetRealNI()).u(g.GetRealNJ()).u(g.GetComplexNI()).u(g.GetComplexNJ());
  }
  else if (c == "g3") {
    size_t ni = in.u(), nj = in.u(), nk = in.u(), pi = in.u(), pj = in.u(), pk = in.u();
    FFTGrid3D<double> g(ni, nj, nk, pi, pj, pk, false);
    o.u(g.GetNItot()).u(g.GetNJtot()).u(g.GetNKtot()).u(g.GetRealNI()).u(g.GetRealNJ()).u(g.GetRealNK())
     .u(g.GetComplexNI()).u(g.GetComplexNJ()).u(g.GetComplexNK());
  }
  else if (c == "cov1") {
    auto v = vario(in); int n = (int)in.i(); double dx = in.d(), sx = in.d();
    std::vector<double> r = FFTCovGrid1D(*v, n, dx, sx).GetCov();
    for (double x : r) o.d(x);
  }
  else if (c == "cov2") {
    auto v = vario(in); int n = (int)in.i(), m = (int)in.i(); double dx = in.d(), dy = in.d(), sx = in.d(), sy = in.d();
    Grid2D<double> r = FFTCovGrid2D(*v, n, dx, m, dy, sx, sy).GetCov();
    o.u(r.GetNI()).u(r.GetNJ());
    for (size_t i = 0; i < r.GetNI(); i++) for (size_t j = 0; j < r.GetNJ(); j++) o.d(r(i, j));
  }
  else if (c == "cov3") {
    auto v = vario(in); int n = (int)in.i(), m = (int)in.i(), l = (int)in.i();
    double dx = in.d(), dy = in.d(), dz = in.d(), sx = in.d(), sy = in.d(), sz = in.d();
    Grid<double> r = FFTCovGrid3D(*v, n, dx, m, dy, l, dz, sx, sy, sz).GetCov();
    o.u(r.GetNI()).u(r.GetNJ()).u(r.GetNK());
    for (size_t i = 0; i < r.GetNI(); i++) for (size_t j = 0; j < r.GetNJ(); j++)
      for (size_t k = 0; k < r.GetNK(); k++) o.d(r(i, j, k));
  }
  else if (c == "f1") {           // f1 scale pad n values: forward then inverse
    bool sc = in.i() != 0; int pad = (int)in.i(); size_t n = in.u();
    std::vector<double> x(n), y(n); for (auto& t : x) t = in.d();
    std::vector<std::complex<double> > f;
    ComputeFFT1D(x, f, sc, pad);
    std::vector<std::complex<double> > f0 = f;
    o.u(f.size());
    for (size_t i = 0; i < f.size() / 2 + 1 && i < f.size(); i++) o.d(f[i].real()).d(f[i].imag());
    std::vector<double> z(f.size());
    ComputeFFTInv1D(f0, z, sc);
    for (double t : z) o.d(t);
    ComputeFFTInv1D(f0, y, sc);            // without the padding
    for (size_t i = 0; i < n; i++) if (y[i] != z[i]) throw std::runtime_error("part of the inverse differs");
  }
  else if (c == "f2") f2<double>(in, o);
  else if (c == "f3") f3<double>(in, o);
  else if (c == "s2") f2<float>(in, o);
  else if (c == "s3") f3<float>(in, o);
  else if (c == "conv2") {
    size_t ni = in.u(), nj = in.u(), pi = in.u(), pj = in.u();
    FFTGrid2D<double> g(ni, nj, pi, pj, false), h(ni, nj, pi, pj, false);
    g.Initialize(grid2<double>(in, g)); h.Initialize(grid2<double>(in, h));
    g.Convolve(h);
    Grid2D<double> r = g.GetRealGrid();
    for (size_t i = 0; i < ni; i++) for (size_t j = 0; j < nj; j++) o.d(r(i, j));
  }
  else if (c == "conv3") {
    size_t ni = in.u(), nj = in.u(), nk = in.u(), pi = in.u(), pj = in.u(), pk = in.u(), how = in.u();
    FFTGrid3D<double> g(ni, nj, nk, pi, pj, pk, false), h(ni, nj, nk, pi, pj, pk, false);
    g.Initialize(grid3<double>(in, g)); h.Initialize(grid3<double>(in, h));
    if (how) { g.DoFFT(); h.DoFFT(); g.ConvolveNoFFT(h); g.DoInverseFFT(); }
    else g.Convolve(h);
    Grid<double> r = g.GetRealGrid();
    for (size_t i = 0; i < ni; i++) for (size_t j = 0; j < nj; j++) for (size_t k = 0; k < nk; k++) o.d(r(i, j, k));
  }
  else if (c == "padz") {         // active cells in, whole grid out (through the cyclic access), after a constant has been there
    size_t ni = in.u(), nj = in.u(), nk = in.u(), pi = in.u(), pj = in.u(), pk = in.u(); double cst = in.d();
    FFTGrid3D<double> g(ni, nj, nk, pi, pj, pk, false);
    g.InitializeConstant(cst);
    int a = (int)g.GetNItot(), b = (int)g.GetNJtot(), d = (int)g.GetNKtot();
    for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) for (int k = 0; k < d; k++)
      if (g.RealCyclic(i, j, k) != cst) throw std::runtime_error("constant not everywhere");
    Grid<double> x(ni, nj, nk);
    for (size_t i = 0; i < ni; i++) for (size_t j = 0; j < nj; j++) for (size_t k = 0; k < nk; k++) x(i, j, k) = in.d();
    g.InitializePadZero(x);
    o.u(a).u(b).u(d);
    for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) for (int k = 0; k < d; k++) {
      double v = g.RealCyclic(i, j, k);
      o.d(v);
      if (i && j && k && g.RealCyclic(i - a, j - b, k - d) != v) throw std::runtime_error("cyclic access");
      if (j && g.RealCyclic(i, j - b, k) != v) throw std::runtime_error("cyclic access");
    }
  }
  else throw std::runtime_error("unknown command " + c);
}
int main() { return loop(go); }
