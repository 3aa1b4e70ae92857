// Line protocol shared by the harnesses: one command per input line, one answer per output line.
// Answers are flushed line by line, so a crash is attributed to the command that caused it.
#pragma once
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace hh {
struct In {
  std::istringstream s;
  explicit In(const std::string& l) : s(l) {}
  std::string w() { std::string x; s >> x; return x; }
  long long i() { std::string x = w(); return x.empty() ? 0 : std::stoll(x); }
  unsigned long long u() { std::string x = w(); return x.empty() ? 0 : std::stoull(x); }
  double d() { std::string x = w(); return std::strtod(x.c_str(), nullptr); }
  // strings travel hex encoded, "-" is the empty one
  std::string h() {
    std::string x = w(), r;
    if (x == "-") return r;
    for (size_t k = 0; k + 1 < x.size(); k += 2) r.push_back((char)std::stoi(x.substr(k, 2), nullptr, 16));
    return r;
  }
  bool more() { s >> std::ws; return s.good() && s.peek() != EOF; }
};
struct Out {
  std::string s;
  Out& w(const std::string& x) { if (!s.empty()) s += ' '; s += x; return *this; }
  Out& i(long long x) { return w(std::to_string(x)); }
  Out& u(unsigned long long x) { return w(std::to_string(x)); }
  Out& d(double x) { char b[64]; std::snprintf(b, sizeof b, "%a", x); return w(b); }
  Out& h(const std::string& x) {
    if (x.empty()) return w("-");
    std::string r; char b[3];
    for (unsigned char c : x) { std::snprintf(b, 3, "%02x", c); r += b; }
    return w(r);
  }
};
typedef std::function<void(const std::string&, In&, Out&)> Fn;
inline int loop(const Fn& f) {
  std::string line;
  while (std::getline(std::cin, line)) {
    In in(line);
    Out out;
    std::string c = in.w();
    std::string res;
    try { f(c, in, out); res = "ok " + out.s; }
    catch (std::exception& e) { Out o; o.w("err").h(e.what()); res = o.s; }
    catch (...) { res = "err -"; }
    std::fputs(res.c_str(), stdout);
    std::fputc('\n', stdout);
    std::fflush(stdout);
  }
  return 0;
}
inline std::string slurp(const std::string& p) {
  std::ifstream f(p.c_str(), std::ios::binary);
  std::ostringstream o; o << f.rdbuf(); return o.str();
}
inline void spit(const std::string& p, const std::string& s) {
  std::ofstream f(p.c_str(), std::ios::binary); f.write(s.data(), s.size());
}
}
