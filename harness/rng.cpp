// Process-wide generator, generator objects and seed files.  The clock is ours: time() is defined here.
#include "hh.hpp"
#include "nrlib/random/random.hpp"
#include "nrlib/random/randomgenerator.hpp"
#include <ctime>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/wait.h>

static long long now_ = 0;
extern "C" time_t time(time_t* p) noexcept { if (p) *p = (time_t)now_; return (time_t)now_; }

static std::unique_ptr<NRLib::RandomGenerator> g[4];

template <class U, class F, class O, class N> void draw(const std::string& k, long n, hh::Out& o, U u, F f, O op, N nm) {
  double first = 0, last = 0, sum = 0;
  for (long i = 0; i < n; i++) {
    last = k == "u32" ? (double)u() : k == "unif" ? f() : k == "open" ? op() : nm();
    if (i == 0) first = last;
    sum += last;
  }
  o.d(first).d(last).d(sum);
}

static void step(const std::string& c, hh::In& in, hh::Out& o) {
  typedef NRLib::Random R;
  if (c == "tick") { now_ = in.i(); return; }
  if (c == "outside") {
    std::string f = in.w(), k = in.w(), v = in.h();
    unlink(f.c_str()); rmdir(f.c_str());
    if (k == "dir") mkdir(f.c_str(), 0755);
    else if (k != "missing") hh::spit(f, v);
    return;
  }
  if (c == "look") {
    std::string f = in.w(); struct stat b;
    if (stat(f.c_str(), &b)) o.w("missing").h(""); else if (S_ISDIR(b.st_mode)) o.w("dir").h(""); else o.w("text").h(hh::slurp(f));
    return;
  }
  if (c == "file") { R::Initialize(in.w()); return; }
  if (c == "write") { R::WriteSeedToFile(); return; }
  long s = in.i();
  if (c == "new") { g[s].reset(new NRLib::RandomGenerator()); return; }
  if (c == "newseed") { g[s].reset(new NRLib::RandomGenerator((unsigned long)in.u())); return; }
  if (c == "delete") { g[s].reset(); return; }
  if (c == "seed") { unsigned long v = in.u(); if (s) g[s]->Initialize(v); else R::Initialize(v); return; }
  if (c == "clock") { if (s) g[s]->Initialize(); else R::Initialize(); return; }
  if (c == "start") { o.u(s ? g[s]->GetStartSeed() : R::GetStartSeed()); return; }
  if (c == "draw") {
    std::string k = in.w(); long n = in.i();
    if (s) draw(k, n, o, [&]{ return g[s]->DrawUint32(); }, [&]{ return g[s]->Unif01(); }, [&]{ return g[s]->Unif01Open(); }, [&]{ return g[s]->Norm01(); });
    else draw(k, n, o, []{ return R::DrawUint32(); }, []{ return R::Unif01(); }, []{ return R::Unif01Open(); }, []{ return R::Norm01(); });
    return;
  }
  throw std::runtime_error("?");
}

// every behaviour starts in a fresh process: "begin N" forks, the child answers the next N lines
int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    long n = std::stol(line.substr(6));
    std::vector<std::string> ls(n);
    for (auto& l : ls) std::getline(std::cin, l);
    std::puts("ok"); std::fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      for (auto& l : ls) {
        hh::In in(l); hh::Out o; std::string c = in.w(), res;
        try { step(c, in, o); res = "ok " + o.s; } catch (std::exception& e) { hh::Out q; q.w("err").h(e.what()); res = q.s; }
        std::puts(res.c_str()); std::fflush(stdout);
      }
      _exit(0);
    }
    int st; waitpid(p, &st, 0);
    if (st != 0) return 9;
  }
}
