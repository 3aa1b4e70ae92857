// Variogram objects: construction, probes, and the mutators as a state machine over slots.
#include "hh.hpp"
#include "nrlib/variogram/variogram.hpp"
#include "nrlib/variogram/variogramtypes.hpp"
#include "nrlib/variogram/covgrid2d.hpp"
using namespace hh;
using namespace NRLib;
static std::map<int, std::unique_ptr<Variogram> > slot;
static Variogram* vario(In& in) {
  int t = (int)in.i(); double p = in.d(), rx = in.d(), ry = in.d(), rz = in.d(), a = in.d(), d = in.d(), s = in.d();
  if (s == 1.0) switch (t) {                    // the same object by its own constructor, what has its default value left out
#define OWN(T) if (a != 0 || d != 0) return new T(rx, ry, rz, a, d); if (rz != 1) return new T(rx, ry, rz); if (ry != 1) return new T(rx, ry); return new T(rx);
    case Variogram::CONSTANT: OWN(ConstVario)
    case Variogram::EXPONENTIAL: OWN(ExpVario)
    case Variogram::SPHERICAL: OWN(SphVario)
    case Variogram::GAUSSIAN: OWN(GauVario)
    case Variogram::MATERN32: OWN(Matern32Vario)
    case Variogram::MATERN52: OWN(Matern52Vario)
    case Variogram::MATERN72: OWN(Matern72Vario)
    case Variogram::GENERAL_EXPONENTIAL:
      if (a != 0 || d != 0) return new GenExpVario(p, rx, ry, rz, a, d);
      return new GenExpVario(p, rx, ry, rz);
  }
  return Variogram::Create((Variogram::Type)t, p, rx, ry, rz, a, d, s);
}
static void probes(Variogram& v, double x, double y, double z, Out& o) {
  const double a = 2.0, b = -3.0, c = 1.0;     // corners of exact differences are not guaranteed; see the tolerance
  o.d(v.GetCorr(x, y, z)).d(v.GetCorrpoint(a, b, c, a + x, b + y, c + z)).d(v.GetCov(x, y, z))
   .d(v.GetCovpoint(a, b, c, a + x, b + y, c + z)).d(v.GetVariogram(x, y, z));
  o.d(v.GetCorr(x, y)).d(v.GetCorrpoint(a, b, a + x, b + y)).d(v.GetCov(x, y)).d(v.GetCovpoint(a, b, a + x, b + y)).d(v.GetVariogram(x, y));
  o.d(v.GetCorr(x)).d(v.GetCorrpoint(a, a + x)).d(v.GetCov(x)).d(v.GetCovpoint(a, a + x)).d(v.GetVariogram(x));
}
static void state(Variogram& v, Out& o) {
  o.d(v.GetRangeX()).d(v.GetRangeY()).d(v.GetRangeZ()).d(v.GetAzimuthAngle()).d(v.GetDipAngle()).d(v.GetStdDev())
   .d(v.GetMinimumRangeToGridRatio()).h(v.GetName());
  const double L[][3] = {{0.5, 0, 0}, {0, 0.5, 0}, {0, 0, 0.5}, {0.7, -0.4, 0.2}, {1.5, 1, -2}};
  for (auto& l : L) o.d(v.GetCov(l[0], l[1], l[2]));
  o.d(v.GetCov(0.7, -0.4)).d(v.GetCov(0.7)).d(v.GetVariogram(0.7, -0.4, 0.2)).d(v.GetCorr(0.7, -0.4, 0.2));
}
static void go(const std::string& c, In& in, Out& o) {
  if (c == "probe") { std::unique_ptr<Variogram> v(vario(in)); double x = in.d(), y = in.d(), z = in.d(); probes(*v, x, y, z, o); return; }
  if (c == "reset") { slot.clear(); return; }
  if (c == "cg2") {        // CovGrid2D: cg2 vario nx ny dx dy -> all lags in range, then the two ranges
    std::unique_ptr<Variogram> v(vario(in)); int nx = (int)in.i(), ny = (int)in.i(); double dx = in.d(), dy = in.d();
    CovGrid2D g(*v, nx, ny, dx, dy);
    for (int i = -nx + 1; i < nx; i++) for (int j = -ny + 1; j < ny; j++) o.d(g.GetCov(i, j));
    o.d(g.GetRangeX()).d(g.GetRangeY());
    return;
  }
  int k = (int)in.i();
  if (c == "new") { slot[k].reset(vario(in)); }
  else if (c == "clone") { int q = (int)in.i(); slot[q].reset(slot[k]->Clone()); }
  else if (c == "drop") { slot.erase(k); }
  else {
    Variogram& v = *slot[k];
    int bad = 0;
    try {
      if (c == "rx") v.SetRangeX(in.d());
      else if (c == "ry") v.SetRangeY(in.d());
      else if (c == "rz") v.SetRangeZ(in.d());
      else if (c == "lx") v.LimitRangeX(in.d());
      else if (c == "ly") v.LimitRangeY(in.d());
      else if (c == "lz") v.LimitRangeZ(in.d());
      else if (c == "rs") { double a = in.d(), b = in.d(), d = in.d(); v.SetRanges(a, b, d); }
      else if (c == "sa") { double a = in.d(), b = in.d(); v.SetAngles(a, b); }
      else if (c == "ra") { double a = in.d(), b = in.d(); v.RotateAngles(a, b); }
      else if (c == "sa1") v.SetAngles(in.d());
      else if (c == "ra1") v.RotateAngles(in.d());
      else if (c == "sd") v.SetStdDev(in.d());
      else if (c == "get") {}
      else { bad = 9; }
    } catch (std::exception&) { bad = 1; }
    if (bad == 9) throw std::runtime_error("unknown " + c);
    o.i(bad);
  }
  o.u(slot.size());
  for (auto& s : slot) { o.i(s.first); state(*s.second, o); }
}
int main() { return loop(go); }
