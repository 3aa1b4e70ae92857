// Volumes and Storm grids.
#include "hh.hpp"
#include "nrlib/stormgrid/stormcontgrid.hpp"
#include "nrlib/stormgrid/stormfaciesgrid.hpp"
#include "nrlib/surface/regularsurface.hpp"
#include "nrlib/surface/surface.hpp"
#include <sys/stat.h>
#include <unistd.h>
using namespace hh;
using namespace NRLib;
static std::unique_ptr<StormContGrid> C[2];
static std::unique_ptr<StormFaciesGrid> F[2];
static std::unique_ptr<Surface<double>> surf(In& in) {
  std::string k = in.w();
  if (k == "c") return std::unique_ptr<Surface<double>>(new ConstantSurface<double>(in.d()));
  double x1 = in.d(), y1 = in.d(), x2 = in.d(), y2 = in.d(); size_t nx = in.u(), ny = in.u();
  auto* r = new RegularSurface<double>(x1, y1, x2 - x1, y2 - y1, nx, ny);
  for (size_t j = 0; j < ny; j++) for (size_t i = 0; i < nx; i++) (*r)(i, j) = in.d();
  return std::unique_ptr<Surface<double>>(r);
}
template <class T> static void attempt(Out& o, int n, T f) {
  Out p; bool t = false;
  try { f(p); } catch (Exception&) { t = true; }
  if (t) for (int i = 0; i < n; i++) o.w("t"); else o.w(p.s);
}
template <class G> static void view(G& g, Out& o) {
  o.d(g.GetXMin()).d(g.GetYMin()).d(g.GetLX()).d(g.GetLY()).d(g.GetAngle()).u(g.GetNI()).u(g.GetNJ()).u(g.GetNK()).u(g.GetN());
  o.i(g.GetFormat()).d(g.GetMissingCode()).i(g.GetZoneNumber()).h(g.GetModelFileName());
  for (size_t k = 0; k < g.GetNK(); k++) for (size_t j = 0; j < g.GetNJ(); j++) for (size_t i = 0; i < g.GetNI(); i++) o.d(g(i, j, k));
}
template <class G> static void cells(G& g, In& in, Out& o) {
  bool ero = in.i() != 0;
  for (size_t k = 0; k < g.GetNK(); k++) for (size_t j = 0; j < g.GetNJ(); j++) for (size_t i = 0; i < g.GetNI(); i++) {
    double x, y, z; g.FindCenterOfCell(i, j, k, x, y, z); o.d(x).d(y).d(z);
    attempt(o, 4, [&](Out& p) { size_t a, b, c; g.FindIndex(x, y, z, a, b, c); p.u(a).u(b).u(c).u(g.FindIndex(x, y, z)); });
  }
  const Volume& v = g; size_t ni = g.GetNI(), nj = g.GetNJ();
  o.d(v.GetTopZMin(ni, nj)).d(v.GetTopZMax(ni, nj)).d(v.GetBotZMin(ni, nj)).d(v.GetBotZMax(ni, nj)).d(v.GetZMin(ni, nj)).d(v.GetZMax(ni, nj));
  double x, y, z; v.FindCenter(x, y, z); o.d(x).d(y).d(z);
  for (int n = 0; n < 4; n++) { v.GetXYFromRelative(n % 2, n / 2, x, y); o.d(x).d(y); }
  for (int n = 0; n < 4; n++) {
    v.GetXYFromRelative(0.25 + 0.5 * (n % 2), 0.25 + 0.5 * (n / 2), x, y);
    o.d(v.GetTopSurface().GetZ(x, y)).d(v.GetBotSurface().GetZ(x, y));
    if (ero) o.d(v.GetErosionTop().GetZ(x, y)).d(v.GetErosionBot().GetZ(x, y));
  }
  o.d(v.GetLZ()).d(g.GetDX()).d(g.GetDY());
}
template <class G> static void ask(G& g, double x, double y, double z, double tol, Out& o) {
  attempt(o, 4, [&](Out& p) { size_t a, b, c; g.FindIndex(x, y, z, a, b, c); p.u(a).u(b).u(c).u(g.FindIndex(x, y, z)); });
  const Volume& v = g;
  o.i(v.IsInside(x, y)).i(v.IsInsideTolerance(x, y)).i(v.IsInside(x, y, z)).i(v.IsInsideZTolerance(x, y, z, tol));
}
template <class G> static void make(std::unique_ptr<G>& g, In& in) {
  int how = (int)in.i(); double x0 = in.d(), y0 = in.d(), lx = in.d(), ly = in.d(), ang = in.d(); auto top = surf(in), bot = surf(in);
  size_t ni = in.u(), nj = in.u(), nk = in.u(); int val = (int)in.i();
  if (how == 0) { Volume v(x0, y0, lx, ly, *top, *bot, ang); g.reset(new G(v, ni, nj, nk)); g->Assign(ni, nj, nk, val); return; }
  g.reset(new G(ni, nj, nk)); g->Assign(ni, nj, nk, val);
  g->SetDimensions(x0, y0, lx, ly); g->SetAngle(ang); g->SetSurfaces(*top, *bot, how == 2);
}
template <class G> static void common(const std::string& c, std::unique_ptr<G>* gs, int s, In& in, Out& o) {
  if (c == "new") return make(gs[s], in);
  if (!gs[s]) { o.w("none"); return; }
  G& g = *gs[s];
  if (c == "set") { size_t m = in.u(); g(m % g.GetN()) = (int)in.i(); }
  else if (c == "fill") { size_t m = in.u(), n = in.u(); std::vector<int> v(n); for (auto& x : v) x = (int)in.i(); for (size_t i = 0; i < g.GetN(); i++) g(i) = v[(i + 1) * m % n]; }
  else if (c == "miss") g.SetMissingCode((int)in.i());
  else if (c == "fmt") g.SetFormat((typename G::FileFormat)in.i());
  else if (c == "dims") { double a = in.d(), b = in.d(), x = in.d(), y = in.d(); g.SetDimensions(a, b, x, y); }
  else if (c == "angle") g.SetAngle(in.d());
  else if (c == "surf") { int own = (int)in.i(); bool skip = in.i() != 0; auto a = surf(in), b = surf(in); g.SetSurfaces(own == 1 ? g.GetTopSurface() : *a, own == 2 ? g.GetBotSurface() : *b, skip); }
  else if (c == "surf4") { int own = (int)in.i(); auto a = surf(in), b = surf(in), x = surf(in), y = surf(in); g.SetSurfaces(own == 1 ? g.GetTopSurface() : *a, own == 2 ? g.GetBotSurface() : *b, *x, *y); }
  else if (c == "copy") { int t = (int)in.i(); if (in.i() && gs[t]) *gs[t] = g; else gs[t].reset(new G(g)); }
  else if (c == "view") view(g, o);
  else if (c == "cells") cells(g, in, o);
}
static Endianess en(In& in) { return in.i() ? END_LITTLE_ENDIAN : END_BIG_ENDIAN; }
static void go(const std::string& c, In& in, Out& o) {
  if (c == "start") { for (int s = 0; s < 2; s++) { C[s].reset(); F[s].reset(); } mkdir("d", 0755); return; }
  bool cont = in.i() != 0; int s = (int)in.i();
  if (c == "new" || c == "read") { C[s].reset(); F[s].reset(); }
  if (c == "copy" || c == "new" || c == "set" || c == "fill" || c == "miss" || c == "fmt" || c == "dims" || c == "angle" || c == "surf" || c == "surf4" || c == "cells" || c == "view") {
    if (cont) common(c, C, s, in, o); else common(c, F, s, in, o);
    if (c == "view" && cont && C[s]) o.h(C[s]->GetVariableName());
    if (c == "cells" && cont && C[s]) o.d(C[s]->GetAvgRelThick()).d(C[s]->GetZMin()).d(C[s]->GetZMax());
    return;
  }
  if (c == "read") {
    std::string f = in.h(); Endianess e = en(in); bool cp = in.i() != 0, ctor = in.i() != 0;
    if (cont) { if (cp && ctor) C[s].reset(new StormContGrid(f, e)); else { std::unique_ptr<StormContGrid> g(new StormContGrid(2, 1, 1)); g->ReadFromFile(f, cp, e); C[s] = std::move(g); } }
    else { if (cp && ctor) F[s].reset(new StormFaciesGrid(f, e)); else { std::unique_ptr<StormFaciesGrid> g(new StormFaciesGrid(2, 1, 1)); g->ReadFromFile(f, cp, e); F[s] = std::move(g); } }
    return;
  }
  if (cont ? !C[s] : !F[s]) { o.w("none"); return; }
  if (c == "label") {
    int z = (int)in.i(); std::string m = in.h(), v = in.h();
    if (cont) { C[s]->SetZoneNumber(z); C[s]->SetModelFileName(m); C[s]->SetVariableName(v); } else { F[s]->SetZoneNumber(z); F[s]->SetModelFileName(m); }
  }
  else if (c == "bodies") {
    std::vector<std::string> n(in.u()); for (auto& x : n) x = in.h(); std::vector<int> b(in.u()); for (auto& x : b) x = (int)in.i();
    if (!cont) { F[s]->SetFaciesNames(n); F[s]->SetBodyFacies(b); }
  }
  else if (c == "write") {
    std::string f = in.h(); Endianess e = en(in); bool rp = in.i() != 0;
    if (cont) C[s]->WriteToFile(f, "", false, e, rp); else F[s]->WriteToFile(f, e);
  }
  else if (c == "cut") { std::string f = in.h(), x = in.h(); if (!x.empty()) { ::unlink((f + x).c_str()); return; } std::string t = slurp(f); if (t.size() > 5) spit(f, t.substr(0, t.size() - 5)); }
  else if (c == "raw" && cont) {
    StormContGrid g(*C[s]); g.SetFormat(StormContGrid::STORM_ASCII);
    g.WriteToFile("raw1", "TITLE\n", false); g.WriteToFile("raw2", "", true); o.h(slurp("raw1")).h(slurp("raw2"));
  }
  else if (c == "crava" && cont) { C[s]->WriteCravaFile("crava", 1.5, 2.5, 3.5, 4.5, 5.5, 6.5); o.h(slurp("crava")); }
  else if (c == "sgri" && cont) {
    std::string dir = in.h();
    C[s]->WriteToSgriFile("the_values_of_the_sgri_grid.Sgri", dir + "sg.hdr", "label", in.d());
    if (!dir.empty()) spit(dir + "the_values_of_the_sgri_grid.Sgri", slurp("the_values_of_the_sgri_grid.Sgri"));
    StormContGrid g(dir + "sg.hdr"); view(g, o); o.h(g.GetVariableName()); o.d(g.GetTopSurface().GetZ(g.GetXMin(), g.GetYMin())).d(g.GetBotSurface().GetZ(g.GetXMin(), g.GetYMin()));
  }
  else if (c == "facies" && !cont) {
    StormFaciesGrid& g = *F[s];
    for (size_t m = 0; m < g.GetN(); m++) attempt(o, 2, [&](Out& p) { size_t i, j, k; g.GetIJK(m, i, j, k); p.i(g.GetFaciesFromCell(m)).i(g.GetFaciesFromCell(i, j, k)); });
    int n = (int)in.i();
    for (int f = -1; f <= n; f++) attempt(o, 1, [&](Out& p) { p.h(g.GetFaciesName(f)); });
    attempt(o, 1, [&](Out& p) { g.CheckConsistency(); p.w("1"); });
  }
  else if (c == "ask") {
    double x = in.d(), y = in.d(), z = in.d(), tol = in.d(); int i = (int)in.i(), j = (int)in.i(); float kv = (float)in.d(); bool lay = in.i() != 0;
    if (!cont) return ask(*F[s], x, y, z, tol, o);
    StormContGrid& g = *C[s]; ask(g, x, y, z, tol, o);
    attempt(o, 2, [&](Out& p) { size_t a, b; g.FindXYIndex(x, y, a, b); p.u(a).u(b); });
    attempt(o, 2, [&](Out& p) { size_t a = 0, b = 0; double t = 0; g.FindZInterpolatedIndex(x, y, z, a, b, t); p.d(g.GetValueZInterpolated(x, y, z)).d(g.GetValueZInterpolatedFromIndex(a, b, t)); });
    attempt(o, 1, [&](Out& p) { p.d(g.GetValueClosestInZ(x, y, z)); });
    if (lay) o.d(g.GetValueInterpolated(i, j, kv));
  }
}
int main() { return loop(go); }
