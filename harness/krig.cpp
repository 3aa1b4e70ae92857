// Kriging on a line, on nodes and with data anywhere.
#include "hh.hpp"
#include "nrlib/statistics/kriging.hpp"
#include "nrlib/variogram/variogramtypes.hpp"
using namespace hh;
using namespace NRLib;
struct Tent : Variogram {
  double a, b;
  Tent(double a_, double b_, double sd) : Variogram(a_, b_, 1.0, 0.0, 0.0, sd), a(a_), b(b_) {}
  static double t(double d, double r) { return std::max(0.0, 1.0 - std::fabs(d) / r); }
  double GetCorr(double x, double y, double z) const { return t(x, a) * t(y, b) * t(z, 1.0); }
  double GetCorr(double x, double y) const { return t(x, a) * t(y, b); }
  double GetCorr(double x) const { return t(x, a); }
  Variogram* Clone() const { return new Tent(*this); }
  std::string GetName() const { return "tent"; }
  double GetMinimumRangeToGridRatio() const { return 1.0; }
  double Corr1D(double h) const { return t(h, 1.0); }
};
// ni nj dx dy x0 y0 | trend | variogram a b sd | all residuals P | points
static void go(const std::string& c, In& in, Out& o) {
  if (c == "line") {
    size_t n = in.u(); double dx = in.d(), a = in.d(), sd = in.d(); std::vector<double> f(n), obs; std::vector<bool> known(n, false);
    for (size_t i = 0; i < n; i++) f[i] = in.d();
    for (size_t i = 0; i < n; i++) { known[i] = in.i() != 0; if (known[i]) obs.push_back(in.d()); }
    Kriging::Krig1D(f, known, obs, dx, Tent(a, 1, sd));
    for (double x : f) o.d(x);
    return;
  }
  size_t ni = in.u(), nj = in.u(); double dx = in.d(), dy = in.d(), x0 = in.d(), y0 = in.d();
  RegularSurface<double> s(x0, y0, dx * (ni - 1), dy * (nj - 1), ni, nj);
  for (size_t j = 0; j < nj; j++) for (size_t i = 0; i < ni; i++) s(i, j) = in.d();
  int kind = (int)in.i(); double a = in.d(), b = in.d(), sd = in.d();
  std::unique_ptr<Variogram> v(kind < 0 ? new Tent(a, b, sd) : Variogram::Create((Variogram::Type)kind, 1.5, a, b, 1.0, 0.0, 0.0, sd));
  bool all = in.i() != 0, res = in.i() != 0; double P = in.d(); size_t m = in.u();
  std::vector<Point> pts(m); std::vector<Point*> pp; for (auto& p : pts) { p.x = in.d(); p.y = in.d(); p.z = in.d(); pp.push_back(&p); }
  if (c == "points" || c == "index") Kriging::Krig2D(s, pp, *v, res, c == "index", all, P);
  else if (c == "nodes") {
    NodalKrigingData2D d; for (auto& p : pts) d.AddData((int)((p.x - x0) / dx), (int)((p.y - y0) / dy), (float)p.z);
    d.FindMeanValues();
    CovGrid2D cov(*v, (int)ni, (int)nj, dx, dy); Grid2D<double>& g = s;
    Kriging::Krig2D(g, d, cov, res, all, P);
  }
  else throw std::runtime_error("unknown command " + c);
  for (size_t j = 0; j < nj; j++) for (size_t i = 0; i < ni; i++) o.d(s(i, j));
}
int main() { return loop(go); }
