// Surfaces: plain and rotated regular surfaces, their files.
#include "hh.hpp"
#include <sys/stat.h>
#include <unistd.h>
#include <fstream>
#include "nrlib/surface/regularsurface.hpp"
#include "nrlib/surface/regularsurfacerotated.hpp"
#include "nrlib/surface/surface.hpp"
#include "nrlib/surface/surfaceio.hpp"
using namespace hh;
using namespace NRLib;
template <typename A> struct World {
  typedef RegularSurface<A> P; typedef RegularSurfaceRotated<A> Q;
  std::unique_ptr<P> p[3]; std::unique_ptr<Q> q[3];
  void set(int x, P* a) { p[x].reset(a); q[x].reset(); }
  void set(int x, Q* a) { q[x].reset(a); p[x].reset(); }
  Surface<A>* any(int x) { return p[x] ? (Surface<A>*)p[x].get() : q[x].get(); }
  A& at(int x, size_t i, size_t j) { return p[x] ? (*p[x])(i, j) : (*q[x])(i, j); }
  template <typename S> void dump(const S& s, Out& o) {
    o.u(s.GetNI()).u(s.GetNJ()).u(s.GetN()).d(s.GetXMin()).d(s.GetXMax()).d(s.GetYMin()).d(s.GetYMax()).d(s.GetDX()).d(s.GetDY()).d(s.GetLengthX()).d(s.GetLengthY());
    int n; A avg = s.Avg(n);
    o.d(s.GetMissingValue()).h(s.GetName()).d(s.Min()).d(s.Max()).d(s.Avg()).i(n);
    if (s.Avg() != avg) throw std::runtime_error("Avg");
    for (size_t j = 0; j < s.GetNJ(); j++) for (size_t i = 0; i < s.GetNI(); i++) {
      double x, y, x2, y2; s.GetXY(i, j, x, y); s.GetXY(i + j*s.GetNI(), x2, y2);
      o.d(s(i, j)).i(s.IsMissingAt(i, j) && s.IsMissing(s(i, j))).d(x).d(y);
      if (s(i + j*s.GetNI()) != s(i, j) || x != x2 || y != y2) throw std::runtime_error("index order");
    }
    size_t k = 0;
    for (auto it = s.begin(); it != s.end(); ++it, ++k) if (*it != s(k)) throw std::runtime_error("iterator order");
    if (k != s.GetN()) throw std::runtime_error("iterators");
  }
  void view(int x, Out& o) {
    if (p[x]) {
      P& s = *p[x];
      o.w("plain"); dump(s, o);
      size_t i, j; A v = s.MinNode(i, j); o.d(v).d(s(i, j)); v = s.MaxNode(i, j); o.d(v).d(s(i, j));
      for (size_t k = 0; k < s.GetN(); k++) {
        double a, b, c; s.GetNode(k, a, b, c); s.GetIJ(k, i, j);
        double x2, y2, z2; s.GetNode(i, j, x2, y2, z2);
        if (s.GetIndex(i, j) != k || a != s.GetX(i) || b != s.GetY(j) || x2 != a || y2 != b || c != z2 || c != (double)s(k)) throw std::runtime_error("node access");
      }
      int present; s.Avg(present);
      if (present > 0 && (s.FindMin(s.GetMissingValue()) != s.Min() || s.FindMax(s.GetMissingValue()) != s.Max())) throw std::runtime_error("smallest or largest value of the grid");
    }
    else if (q[x]) { o.w("rot").d(q[x]->GetXRef()).d(q[x]->GetYRef()).d(q[x]->GetAngle()); dump(*q[x], o); }
    else o.w("undef");
  }
  void go(const std::string& c, In& in, Out& o) {
    if (c == "new") {
      int x = (int)in.i(); std::string k = in.w(); double x0 = in.d(), y0 = in.d(), lx = in.d(), ly = in.d(); size_t ni = in.u(), nj = in.u(); int g = (int)in.i(); double ang = in.d();
      if (!g) {
        A v = (A)in.d();
        if (k == "plain") set(x, new P(x0, y0, lx, ly, ni, nj, v)); else set(x, new Q(x0, y0, lx, ly, ni, nj, ang, v));
      }
      else {
        Grid2D<A> z(ni, nj);
        for (size_t j = 0; j < nj; j++) for (size_t i = 0; i < ni; i++) z(i, j) = (A)in.d();
        if (k == "plain") set(x, new P(x0, y0, lx, ly, z)); else set(x, new Q(x0, y0, lx, ly, z, ang));
      }
    }
    else if (c == "put") { int x = (int)in.i(); size_t i = in.u(), j = in.u(); at(x, i, j) = (A)in.d(); }
    else if (c == "miss") { int x = (int)in.i(); size_t i = in.u(), j = in.u(); if (p[x]) p[x]->SetMissing(i, j); else q[x]->SetMissing(i, j); }
    else if (c == "code") { int x = (int)in.i(); A v = (A)in.d(); if (p[x]) p[x]->SetMissingValue(v); else q[x]->SetMissingValue(v); }
    else if (c == "arith") {
      int x = (int)in.i(); std::string op = in.w(); A v = (A)in.d();
      if (op == "add") any(x)->Add(v); else if (op == "mul") any(x)->Multiply(v); else if (p[x]) p[x]->Subtract(v); else q[x]->Subtract(v);
    }
    else if (c == "fill") { int x = (int)in.i(); A v = (A)in.d(); if (p[x]) p[x]->Assign(v); else q[x]->Assign(v); }
    else if (c == "comb" || c == "combc") {
      int x = (int)in.i(); double y = in.d(); std::string op = in.w();
      std::unique_ptr<Surface<A> > other(c == "comb" ? any((int)y)->Clone() : new ConstantSurface<A>((A)y));
      if (p[x]) { if (op == "add") p[x]->AddNonConform(other.get()); else if (op == "sub") p[x]->SubtractNonConform(other.get()); else if (op == "mul") p[x]->MultiplyNonConform(other.get()); else p[x]->DivideNonConform(other.get()); }
      else { if (op == "add") q[x]->AddNonConform(other.get()); else if (op == "sub") q[x]->SubtractNonConform(other.get()); else if (op == "mul") q[x]->MultiplyNonConform(other.get()); else q[x]->DivideNonConform(other.get()); }
    }
    else if (c == "neigh") { int x = (int)in.i(); size_t i = in.u(), j = in.u(); o.i(p[x]->CreateNeighbourAvg(i, j)); }
    else if (c == "move") { int x = (int)in.i(); double x0 = in.d(), y0 = in.d(), lx = in.d(), ly = in.d(); if (p[x]) p[x]->SetDimensions(x0, y0, lx, ly); else q[x]->SetDimensions(x0, y0, lx, ly); }
    else if (c == "resize") { int x = (int)in.i(); size_t ni = in.u(), nj = in.u(); A v = (A)in.d(); if (p[x]) p[x]->Resize(ni, nj, v); else q[x]->Resize(ni, nj, v); }
    else if (c == "turn") { int x = (int)in.i(); q[x]->SetAngle(in.d()); }
    else if (c == "swap") { int x = (int)in.i(), y = (int)in.i(); p[x]->Swap(*p[y]); }
    else if (c == "copy") {
      int x = (int)in.i(), y = (int)in.i(), how = (int)in.i();
      if (p[y]) { if (how) set(x, static_cast<P*>(p[y]->Clone())); else { P* t = new P(); *t = *p[y]; set(x, t); } }
      else { if (how) set(x, static_cast<Q*>(q[y]->Clone())); else { Q* t = new Q(); *t = *q[y]; set(x, t); } }
    }
    else if (c == "rotate") { int x = (int)in.i(), y = (int)in.i(); double a = in.d(); set(x, new Q(*p[y], a)); }
    else if (c == "save") {
      int x = (int)in.i(); std::string f = in.w(); SurfaceFileFormat fmt = in.w() == "irap" ? SURF_IRAP_CLASSIC_ASCII : SURF_STORM_BINARY;
      if (p[x]) p[x]->WriteToFile(f, fmt); else q[x]->WriteToFile(f, fmt);
    }
    else if (c == "load") {
      int x = (int)in.i(); std::string f = in.w(), k = in.w(); int how = (int)in.i(); SurfaceFileFormat fmt = in.w() == "irap" ? SURF_IRAP_CLASSIC_ASCII : SURF_STORM_BINARY;
      if (how == 2) fmt = SURF_UNKNOWN;
      try {
        if (how == 0 && k == "plain" && p[x]) p[x]->ReadFromFile(f, fmt);      // into an existing surface
        else if (how == 0 && k == "rot" && q[x]) q[x]->ReadFromFile(f, fmt);
        else if (k == "plain") set(x, new P(f, fmt));
        else set(x, new Q(f, fmt));
        o.w("ok");
      }
      catch (FileFormatError&) { p[x].reset(); q[x].reset(); o.w("error"); }
    }
    else if (c == "name") { int x = (int)in.i(); std::string n = in.w(); if (p[x]) p[x]->SetName(n); else q[x]->SetName(n); }
    else if (c == "rect") { int x = (int)in.i(); double a = in.d(), b = in.d(), d = in.d(), e = in.d(); o.i(any(x)->EnclosesRectangle(a, b, d, e)); }
    else if (c == "ask") {
      int x = (int)in.i(); double a = in.d(), b = in.d();
      o.d(any(x)->GetZ(a, b)).i(any(x)->IsInsideSurface(a, b)).d(p[x] ? p[x]->GetZInside(a, b) : q[x]->GetZInside(a, b));
      if (p[x]) {
        P& s = *p[x]; A k[4]; int i, j; size_t n, m; double ci = 0, cj = 0;
        s.GetCorners(a, b, k); s.FindGeneralIndex(a, b, i, j); s.FindNearestNodeIndex(a, b, n, m);
        for (int t = 0; t < 4; t++) o.d(k[t]);
        o.i(i).i(j).u(n).u(m);
        if (s.IsInsideSurface(a, b)) {
          s.FindContIndex(a, b, ci, cj); s.FindIndex(a, b, n, m);
          if (s.FindI(a) != n || s.FindJ(b) != m || (int)n != i || (int)m != j) throw std::runtime_error("cell index");
          o.d(ci).d(cj);
        }
      }
    }
    else if (c == "resample") {        // a node of the resampled surface has the value the surface has there
      int x = (int)in.i();
      if (!q[x]) { o.w("skip"); return; }
      Q& s = *q[x]; P r = s.ResampleSurface(); int present; s.Avg(present); bool holes = present < (int)s.GetN();
      double e = 1e-6 * (s.GetDX() + s.GetDY());
      o.w("res").d(r.GetXMin()).d(r.GetXMax()).d(r.GetYMin()).d(r.GetYMax()).d(r.GetMissingValue()).u(r.GetNI()).u(r.GetNJ());
      for (size_t i = 0; i < r.GetNI(); i++) for (size_t j = 0; j < r.GetNJ(); j++) {
        double X, Y; r.GetXY(i, j, X, Y);
        A v[4] = { s.GetZ(X + e, Y + e), s.GetZ(X - e, Y + e), s.GetZ(X + e, Y - e), s.GetZ(X - e, Y - e) };
        bool all = true, none = true;
        for (A t : v) { all = all && !s.IsMissing(t); none = none && s.IsMissing(t); }
        A lo = std::min(std::min(v[0], v[1]), std::min(v[2], v[3])), hi = std::max(std::max(v[0], v[1]), std::max(v[2], v[3]));
        A z = r(i, j);
        if (holes && r.IsMissing(z)) continue;   // a node without value, close to which the surface has one
        if (none && !r.IsMissing(z)) throw std::runtime_error("resampled surface has a value where the surface has none");
        double tol = 1e-3 + 1e-5*std::max(std::fabs((double)lo), std::fabs((double)hi));
        if (all && hi - lo < tol && !(z >= lo - tol && z <= hi + tol)) {
          std::ostringstream m; m << "resampled value " << z << " in node " << i << "," << j << ", surface has " << lo << " to " << hi; throw std::runtime_error(m.str()); }
      }
      return;
    }
    else throw std::runtime_error("unknown command " + c);
    for (int x = 1; x < 3; x++) { o.w("|"); view(x, o); }
  }
};
static const char* kind(SurfaceFileFormat f) { return f == SURF_IRAP_CLASSIC_ASCII ? "irap" : f == SURF_STORM_BINARY ? "storm" : f == SURF_SGRI ? "sgri" : "unknown"; }
static void put(const std::string& f, const std::string& b) { std::ofstream o(f.c_str(), std::ios::binary); o << b; }
template <typename S> static void some(const S& s, Out& o) { o.w("s").u(s.GetNI()).u(s.GetNJ()).d(s.GetMissingValue()); for (size_t m = 0; m < s.GetN(); m++) o.d(s(m)); }
static void files(const std::string& c, In& in, Out& o) {
  if (c == "kind") { put("k", in.h()); o.w(kind(FindSurfaceFileType("k"))); remove("k"); return; }
  // sgri: directory, header file, text, binary file, bytes, labels
  std::string dir = in.w(), hf = in.w(), text = in.h(), bf = in.w(), bytes = in.h(); int nl = (int)in.i(); std::vector<std::string> lab;
  for (int i = 0; i < nl; i++) lab.push_back(in.h());
  std::string d = dir == "." ? "" : dir + "/";
  if (!d.empty()) mkdir(dir.c_str(), 0700);
  put(d + hf, text); if (bf != "-") put(d + bf, bytes);
  try { o.w(kind(FindSurfaceFileType(d + hf))); } catch (std::exception&) { o.w("throws"); }
  o.w("|"); try { RegularSurface<double> s(d + hf, SURF_SGRI); some(s, o); } catch (Exception&) { o.w("error"); }
  o.w("|"); try { RegularSurfaceRotated<float> s(d + hf, SURF_UNKNOWN); some(s, o); o.d(s.GetAngle()); } catch (Exception&) { o.w("error"); }
  o.w("|"); try { std::vector<RegularSurfaceRotated<float> > v = ReadMultipleSgriSurf(d + hf, lab); for (auto& s : v) { o.w("@"); some(s, o); o.d(s.GetAngle()).d(s.GetXRef()).d(s.GetYRef()).d(s.GetDX()).d(s.GetDY()); } }
  catch (Exception&) { o.w("error"); }
  remove((d + hf).c_str()); remove((d + bf).c_str()); if (!d.empty()) rmdir(dir.c_str());
}
static std::unique_ptr<World<double> > wd; static std::unique_ptr<World<float> > wf;
static void go(const std::string& c, In& in, Out& o) {
  if (c == "kind" || c == "sgri") files(c, in, o);
  else if (c == "start") { wd.reset(); wf.reset(); if (in.w() == "f") wf.reset(new World<float>); else wd.reset(new World<double>); remove("f1"); remove("f2"); }
  else if (wd) wd->go(c, in, o); else wf->go(c, in, o);
}
int main() { return loop(go); }
