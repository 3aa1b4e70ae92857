// SegY geometries: built from traces, from grids, from surfaces; queried through the public interface.
#include "hh.hpp"
#include "nrlib/segy/segygeometry.hpp"
#include "nrlib/segy/segytrace.hpp"
#include "nrlib/segy/traceheader.hpp"
#include "nrlib/surface/regularsurface.hpp"
#include "nrlib/surface/regularsurfacerotated.hpp"
using NRLib::SegyGeometry;
static std::unique_ptr<SegyGeometry> g[2];

static void info(const SegyGeometry& q, hh::Out& o) {
  o.u(q.GetNx()).u(q.GetNy()).d(q.GetDx()).d(q.GetDy()).d(q.GetX0()).d(q.GetY0()).d(q.GetAngle());
  o.i(q.GetMinIL()).i(q.GetMaxIL()).i(q.GetILStep()).i(q.GetMinXL()).i(q.GetMaxXL()).i(q.GetXLStep()).i(q.GetFirstAxisIL());
}
static void step(const std::string& c, hh::In& in, hh::Out& o) {
  if (c == "traces") {
    long n = in.i(); bool reg = in.i();
    std::vector<std::unique_ptr<NRLib::SegYTrace>> own;
    std::vector<NRLib::SegYTrace*> t;
    for (long k = 0; k < n; k++) {
      NRLib::TraceHeader h;
      h.SetInline((int)in.i()); h.SetCrossline((int)in.i());
      double x = in.d(), y = in.d();
      h.SetUtmx(x); h.SetUtmy(y);
      own.emplace_back(new NRLib::SegYTrace(h)); t.push_back(own.back().get());
    }
    g[0].reset(new SegyGeometry(t, reg));
    info(*g[0], o);
    for (auto p : t) {            // the table of traces, in cell order
      long w = -1;
      for (long k = 0; k < n; k++) if (own[k].get() == p) w = k;
      o.i(w);
    }
    return;
  }
  if (c == "grid7" || c == "grid13") {
    double x0 = in.d(), y0 = in.d(), dx = in.d(), dy = in.d(); size_t nx = in.u(), ny = in.u();
    if (c == "grid7") { double r = in.d(); g[0].reset(new SegyGeometry(x0, y0, dx, dy, nx, ny, r)); }
    else {
      double a = in.d(), b = in.d(), e = in.d(), f = in.d(), h = in.d(), i = in.d(), r = in.d();
      g[0].reset(new SegyGeometry(x0, y0, dx, dy, nx, ny, a, b, e, f, h, i, r));
    }
    return info(*g[0], o);
  }
  if (c == "surf" || c == "rsurf") {
    double x0 = in.d(), y0 = in.d(), lx = in.d(), ly = in.d(); size_t ni = in.u(), nj = in.u();
    if (c == "surf") { NRLib::RegularSurface<double> s(x0, y0, lx, ly, ni, nj, 0.0); g[0].reset(new SegyGeometry(s)); }
    else { double r = in.d(); NRLib::RegularSurfaceRotated<double> s(x0, y0, lx, ly, ni, nj, r, 0.0); g[0].reset(new SegyGeometry(s)); }
    return info(*g[0], o);
  }
  if (c == "copy") { g[0].reset(new SegyGeometry(g[0].get())); return info(*g[0], o); }
  if (c == "sub") {
    std::vector<int> v(6); for (auto& x : v) x = (int)in.i();
    bool a, b; g[1].reset(g[0]->GetILXLSubGeometry(v, a, b));
    info(*g[1], o); o.i(a).i(b); return;
  }
  if (c == "area") {
    double x0 = in.d(), y0 = in.d(), dx = in.d(), dy = in.d(); size_t nx = in.u(), ny = in.u(); double r = in.d();
    SegyGeometry t(x0, y0, dx, dy, nx, ny, r);
    for (int x : g[0]->findAreaILXL(&t)) o.i(x);
    return;
  }
  const SegyGeometry& q = *g[in.i()];
  if (c == "lat") {
    int il = (int)in.i(), xl = (int)in.i(); double x = in.d(), y = in.d(), a, b; size_t i, j; int p, r;
    q.FindXYFromILXL(il, xl, a, b); o.d(a).d(b);
    q.FindIndex(il, xl, i, j); o.u(i).u(j);
    q.FindILXL(i, j, p, r); o.i(p).i(r);
    q.FindXYFromIJ(i, j, a, b); o.d(a).d(b);
    q.FindILXL(x, y, p, r); o.i(p).i(r);
    q.FindIndex(x, y, i, j); o.u(i).u(j).u(q.FindIndex(x, y));
    return;
  }
  if (c == "pt") {
    double x = in.d(), y = in.d(), a, b; int p, r; size_t i, j;
    o.i(q.IsInside(x, y));
    q.FindContILXL(x, y, a, b); o.d(a).d(b);
    q.FindXYFromContILXL(a, b, x, y); o.d(x).d(y);
    o.i(q.FindContIndex(x, y, a, b)); o.d(a).d(b);
    q.FindILXL(x, y, p, r); o.i(p).i(r);
    try { q.FindIndex(x, y, i, j); o.u(i).u(j); } catch (NRLib::Exception&) { o.w("out"); }
    return;
  }
  if (c == "idx") { size_t i, j; int a = (int)in.i(), b = (int)in.i(); q.FindIndex(a, b, i, j); o.u(i).u(j); return; }
  throw std::runtime_error("?");
}
int main() { return hh::loop(step); }
