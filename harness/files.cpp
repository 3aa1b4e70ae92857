// File operations in a scratch directory (the working directory of this process).
#include "hh.hpp"
#include "nrlib/iotools/bigfile.hpp"
#include "nrlib/iotools/fileio.hpp"
#include "nrlib/iotools/stringtools.hpp"
#include <boost/filesystem.hpp>
namespace fs = boost::filesystem;
using namespace NRLib;
static std::unique_ptr<BigFile> H[3];
static size_t U = 1;
static int serial = 0;
static std::string root;
// paths are only ever formed below the scratch directory
static std::string P(const std::string& p) { if (p.find("..") != std::string::npos || p.empty() || p[0] == '/') throw std::logic_error("path"); return root + "/" + p; }
static std::string expand(const std::string& c) { std::string r; if (c == "-") return r; for (char x : c) r += std::string(U, x == '0' ? '\0' : x); return r; }
static std::string squash(const std::string& s) {
  if (s.size() % U) return "partial" + std::to_string(s.size());
  std::string r;
  for (size_t i = 0; i < s.size(); i += U) {
    for (size_t j = 1; j < U; j++) if (s[i + j] != s[i]) return "mixed";
    r += s[i] == 0 ? '0' : s[i];
  }
  return r.empty() ? "-" : r;
}
int main() {
  fs::path base = fs::current_path();
  return hh::loop([&](const std::string& c, hh::In& in, hh::Out& o) {
    if (c == "new") {
      for (auto& x : H) x.reset(new BigFile);
      U = in.i();
      if (!root.empty()) fs::remove_all(base / root);
      root = "r" + std::to_string(serial++);
      fs::create_directory(base / root);
      return;
    }
    if (c == "row") {
      std::string s = in.h(), e = in.h(), p = in.h();
      o.h(GetPath(s)).h(RemovePath(s)).h(GetStem(s)).h(GetExtension(s)).h(ReplaceExtension(s, e)).h(AddExtension(s, e)).h(PrependDir(p, s));
      return;
    }
    try {
      if (c == "wf") {
        std::string p = P(in.w()); bool cr = in.i(), app = in.i(); std::string d = expand(in.w());
        std::ios_base::openmode m = app ? std::ios::out | std::ios::app | std::ios::binary : std::ios::out | std::ios::binary;
        if (in.i()) { std::fstream f; OpenWrite(f, p, m, cr); f << d; } else { std::ofstream f; OpenWrite(f, p, m, cr); f << d; }
        o.w("ok");
      } else if (c == "rf") {
        std::string p = P(in.w()); std::ostringstream s;
        if (in.i()) { std::fstream f; OpenRead(f, p, std::ios::in | std::ios::binary); s << f.rdbuf(); } else { std::ifstream f; OpenRead(f, p, std::ios::in | std::ios::binary); s << f.rdbuf(); }
        o.w("data").w(squash(s.str()));
      } else if (c == "cp") { std::string a = P(in.w()), b = P(in.w()); CopyFile(a, b, in.i() != 0); o.w("ok"); }
      else if (c == "rm") { RemoveFile(P(in.w())); o.w("ok"); }
      else if (c == "md") { CreateDirIfNotExists(P(in.w())); o.w("ok"); }
      else if (c == "ex") { o.w("num").i(FileExists(P(in.w()))); }
      else if (c == "sz") { unsigned long long n = FindFileSize(P(in.w())); o.w("num"); if (n % U) o.w("partial"); else o.i(n / U); }
      else {
        BigFile& f = *H[in.i()];
        if (c == "close") { f.close(); o.w("ok"); }
        else if (c == "openr") { f.OpenRead(P(in.w())); o.w("ok"); }
        else if (c == "openw") { std::string p = P(in.w()); f.OpenWrite(p, true, in.i() != 0); o.w("ok"); }
        else if (c == "write") { std::string d = expand(in.w()); size_t n = f.write(d.data(), d.size()); o.w("num"); if (n % U) o.w("partial"); else o.i(n / U); }
        else if (c == "read") { size_t n = in.i() * U; std::string d(n + 1, '\x7f'); size_t m = f.read(&d[0], n); if (d[n] != '\x7f') throw std::logic_error("overrun"); o.w("data").w(squash(d.substr(0, m))); }
        else if (c == "seek") { long long k = in.i() * (long long)U; std::string g = in.w(); int r = f.seek(k, g == "set" ? SEEK_SET : g == "cur" ? SEEK_CUR : SEEK_END); o.w(r == 0 ? "ok" : "error"); }
        else if (c == "tell") { long long n = f.tell(); o.w("num"); if (n % (long long)U) o.w("partial"); else o.i(n / (long long)U); }
        else if (c == "clear") { f.clear(); o.w("ok"); }
        else throw std::logic_error("?");
      }
    } catch (std::logic_error&) { throw; }
    catch (std::exception&) { o.s = ""; o.w("error"); }
    o.w("|").i(H[1]->good()).i(H[2]->good());
    std::map<std::string, std::string> t;
    for (fs::recursive_directory_iterator i(base / root), e; i != e; ++i)
      t[fs::relative(i->path(), base / root).string()] = fs::is_directory(i->path()) ? "dir" : squash(hh::slurp(i->path().string()));
    for (auto& x : t) o.w(x.first).w(x.second);
  });
}
