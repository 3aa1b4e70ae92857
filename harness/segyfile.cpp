// SegY files written and read through the public interface; the file lives in the working directory of this process.
#include "hh.hpp"
#include "nrlib/segy/segy.hpp"
#include "nrlib/segy/commonheaders.hpp"
#include "nrlib/surface/surface.hpp"
#include "nrlib/surface/regularsurface.hpp"
#include "nrlib/volume/volume.hpp"
using namespace NRLib;
static std::unique_ptr<TraceHeaderFormat> fmt;
static std::unique_ptr<SegyGeometry> geom;
static std::unique_ptr<SegY> W, R;
static double z0, dz; static size_t nz; static short sc;
static const char* F = "f.segy";

static std::unique_ptr<Volume> vol(hh::In& in) {
  std::unique_ptr<Volume> v;
  int k = (int)in.i();
  if (!k) return v;
  double t = in.d(), b = in.d();
  if (k == 2) {                     // a top surface that is missing everywhere
    RegularSurface<double> s(-1e9, -1e9, 2e9, 2e9, 2, 2, t);
    for (size_t i = 0; i < 2; i++) for (size_t j = 0; j < 2; j++) s.SetMissing(i, j);
    v.reset(new Volume(-1e9, -1e9, 2e9, 2e9, s, ConstantSurface<double>(b), 0.0));
    return v;
  }
  v.reset(new Volume(-1e9, -1e9, 2e9, 2e9, ConstantSurface<double>(t), ConstantSurface<double>(b), 0.0));
  return v;
}
static std::vector<float> data(hh::In& in) { size_t n = in.u(); std::vector<float> v(n); for (auto& x : v) x = (float)in.d(); return v; }
static void put(hh::Out& o, const std::vector<float>& v) { o.u(v.size()); for (float x : v) o.d(x); }
// values left on the stack by earlier calls: what the library does not set must not reach the file
static void __attribute__((noinline)) dirty() { volatile char a[60000]; for (size_t i = 0; i < sizeof a; i++) a[i] = (char)(0x41 + i % 7); }
static void step(const std::string& c, hh::In& in, hh::Out& o) {
  dirty();
  if (c == "fmt") {
    std::string k = in.w();
    if (k == "std") { int f = (int)in.i(); int b = (int)in.i(); const int M = -99999;
      if (b) fmt.reset(new TraceHeaderFormat(f, 1, M, M, M, M, M, M, M)); else fmt.reset(new TraceHeaderFormat(f)); }
    else { int v[6]; for (int& x : v) x = (int)in.i(); fmt.reset(new TraceHeaderFormat(v[0], v[1], v[2], v[3], v[4], v[5], TraceHeaderFormat::UTM)); }
    return;
  }
  if (c == "geom") {
    long n = in.i();
    std::vector<std::unique_ptr<SegYTrace>> own; std::vector<SegYTrace*> t;
    for (long k = 0; k < n; k++) {
      TraceHeader h; h.SetInline((int)in.i()); h.SetCrossline((int)in.i());
      double x = in.d(), y = in.d(); h.SetUtmx(x); h.SetUtmy(y);
      own.emplace_back(new SegYTrace(h)); t.push_back(own.back().get());
    }
    geom.reset(new SegyGeometry(t, false));
    return;
  }
  if (c == "w") {
    z0 = in.d(); nz = in.u(); dz = in.d(); sc = (short)in.i(); int init = (int)in.i(); int nl = (int)in.i();
    TextualHeader h;
    for (int k = 0; k < nl; k++) { int l = (int)in.i(); std::string s = in.h(); o.i(h.SetLine(l, s)); }
    if (init) { W.reset(new SegY); W->Initialize(F, z0, nz, dz, h, *fmt); }
    else W.reset(new SegY(F, z0, nz, dz, h, *fmt));
    W->SetGeometry(geom.get());
    return;
  }
  if (c == "at") {
    int il = (int)in.i(), xl = (int)in.i(); double x = in.d(), y = in.d(); short off = (short)in.i(); std::vector<float> v = data(in);
    if (off) W->WriteTrace(x, y, il, xl, v, sc, off); else W->WriteTrace(x, y, il, xl, v, sc);
    return;
  }
  if (c == "xy" || c == "store" || c == "head") {
    double x = in.d(), y = in.d(); short off = (short)in.i(); std::vector<float> v = data(in); float t = (float)in.d(), b = (float)in.d(); auto V = vol(in);
    if (c == "head") {
      TraceHeader h(*fmt);
      h.SetDt((int)(dz * 1000 + 0.5)); h.SetStartTime((float)z0); h.SetScalCo(sc); h.SetOffset(off);
      h.SetUtmx(x); h.SetUtmy(y); h.SetInline((int)in.i()); h.SetCrossline((int)in.i());
      W->WriteTrace(h, v, V.get(), t, b);
    }
    else if (c == "store") W->StoreTrace(x, y, v, V.get(), t, b);
    else if (off) W->WriteTrace(x, y, v, V.get(), t, b, sc, off);
    else W->WriteTrace(x, y, v, V.get(), t, b, sc);
    return;
  }
  if (c == "flush") { W->WriteAllTracesToFile(sc); return; }
  if (c == "close") { W.reset(); R.reset(); o.h(hh::slurp(F)); return; }
  if (c == "put") { R.reset(); W.reset(); std::ofstream f(F, std::ios::binary); f << std::string(3200, '@') << in.h(); return; }
  if (c == "r") { z0 = in.d(); R.reset(); R.reset(new SegY(F, z0, *fmt)); o.u(R->GetNz()).d(R->GetDz()).u(R->GetNTraces()); return; }
  if (c == "count") { o.u(SegY::FindNumberOfTraces(F, fmt.get())); return; }
  if (c == "next") {
    auto V = vol(in); double zp = in.d();
    std::unique_ptr<SegYTrace> t(R->GetNextTrace(zp, V.get()));
    if (!t) { o.w("null"); return; }
    if (t->GetInline() % 2) { std::unique_ptr<SegYTrace> q(new SegYTrace(*t)); t.swap(q); }      // a copy is as good
    if (t->GetCrossline() % 2) {
      std::unique_ptr<SegYTrace> q(new SegYTrace(t->GetTrace(), 0, t->GetTrace().size() - 1, t->GetX(), t->GetY(), t->GetInline(), t->GetCrossline()));
      SegYTrace r(*q);
      for (size_t i = 0; i < t->GetTrace().size() + 2; i++) if (r.GetValue(i) != t->GetValue(i + t->GetStart())) throw std::runtime_error("copied trace");
    }
    o.i(t->GetInline()).i(t->GetCrossline()).d(t->GetX()).d(t->GetY()).u(t->GetStart()).u(t->GetEnd()).d(R->GetTop()).d(R->GetDz());
    return put(o, t->GetTrace());
  }
  if (c == "geo") { bool a = in.i(), b = in.i(); R->FindAndSetGridGeometry(a, b); o.u(R->GetGeometry()->GetNx()).u(R->GetGeometry()->GetNy()); return; }
  if (c == "all") { auto V = vol(in); double zp = in.d(); bool rel = in.i(); R->ReadAllTraces(V.get(), zp, false, rel); R->CreateRegularGrid(false);
    o.u(R->FindNumberOfSamplesInLongestTrace()).u(R->GetGeometry()->GetNx()).u(R->GetGeometry()->GetNy()); return; }
  if (!R || !R->GetGeometry()) throw std::runtime_error("no geometry");
  if (c == "vals") return put(o, R->GetAllValues());
  if (c == "val") { double x = in.d(), y = in.d(), z = in.d(); o.d(R->GetValue(x, y, z, (int)in.i())); return; }
  if (c == "near") { double x = in.d(), y = in.d(), zd = -1; bool m = false; std::vector<float> v; R->GetNearestTrace(v, m, zd, x, y); if (m) { o.w("hole"); return; } o.d(zd); return put(o, v); }
  if (c == "line") {      // everything that can be asked by line number
    int il = (int)in.i(), xl = (int)in.i();
    o.i(R->IsTraceDefined(il, xl));
    try { const TraceHeader& h = R->GetTraceHeader(il, xl); o.i(h.GetInline()).i(h.GetCrossline()).d(h.GetUtmx()).d(h.GetUtmy()); } catch (std::exception&) { o.w("nohdr"); }
    return;
  }
  if (c == "data") {
    int il = (int)in.i(), xl = (int)in.i(); auto V = vol(in); std::vector<float> v;
    try { o.i(R->GetFilePos(il, xl)); } catch (std::exception&) { o.w("nopos"); }
    try { R->GetTraceData(il, xl, v, V.get()); put(o, v); } catch (std::exception&) { o.w("nodata"); }
    return;
  }
  if (c == "dxy") {
    double x = in.d(), y = in.d(); auto V = vol(in); std::vector<float> v;
    try { o.i(R->GetFilePos(x, y)); } catch (std::exception&) { o.w("nopos"); }
    try { R->GetTraceData(x, y, v, V.get()); put(o, v); } catch (std::exception&) { o.w("nodata"); }
    return;
  }
  throw std::runtime_error("?");
}
int main() { return hh::loop(step); }
