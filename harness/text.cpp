// Text input: tokens, lines, numbers.
#include "hh.hpp"
#include "nrlib/iotools/fileio.hpp"
#include "nrlib/iotools/stringtools.hpp"
using namespace NRLib;
static std::unique_ptr<std::istream> S;
static int line_no = 0;
template <class T> static void put(hh::Out& o, const T& x) { o.d((double)x); }
template <> void put<std::string>(hh::Out& o, const std::string& x) { o.h(x); }
template <class T> static void next(hh::Out& o) { T x = ReadNext<T>(*S, line_no); o.w("val"); put(o, x); }
template <class T> static void arr(const std::string& c, size_t n, hh::Out& o) {
  std::vector<T> v(n + 1);
  typename std::vector<T>::iterator e;
  if (c == "arr") e = ReadAsciiArray(*S, v.begin(), n, line_no);
  else if (c == "fast") e = ReadAsciiArrayFast(*S, v.begin(), n);
  else e = ReadAsciiArrayFastRestOfFile(*S, v.begin(), n);
  if (e != v.begin() + n) throw std::logic_error("returned iterator");
  o.w("arr");
  for (size_t i = 0; i < n; i++) put(o, v[i]);
}
int main() {
  return hh::loop([](const std::string& c, hh::In& in, hh::Out& o) {
    if (c == "new") {
      line_no = 0;
      std::string t = in.h();
      if (in.i()) { S.reset(); hh::spit("t.txt", t); S.reset(new std::ifstream("t.txt", std::ios::binary)); }
      else S.reset(new std::istringstream(t));
      return;
    }
    if (c == "row") {
      std::string t = in.h(), a = in.h(), b = in.h(); int m = (int)in.i(), pr = (int)in.i();
      auto list = [&](const std::vector<std::string>& v) { o.i(v.size()); for (auto& x : v) o.h(x); };
      list(GetTokens(t)); list(GetQuotedTokens(t)); o.h(Uppercase(t)).h(Chomp(t));
      std::string s = t; Substitute(s, a, b); o.h(s);
      o.i(IsType<int>(t)).i(IsType<double>(t));
      std::string p; try { int x = ParseType<int>(t); o.i(x); } catch (Exception&) { o.w("no"); }
      try { double x = ParseType<double>(t); o.d(x); } catch (Exception&) { o.w("no"); }
      o.h(ToString(m / 8.0, pr)).h(ToString(m)).h(ToString((float)(m / 8.0), pr)).h(ToString(m, pr)).h(ToString(std::string(t)));
      return;
    }
    if (c == "write") {
      int per = in.i(); std::vector<int> v; while (in.more()) v.push_back(in.i());
      std::ostringstream s; WriteAsciiArray(s, v.begin(), v.end(), per); o.h(s.str());
      return;
    }
    try {
      if (c == "tok") { std::string s; ReadNextToken(*S, s, line_no); o.w("tok").h(s); }
      else if (c == "next") { std::string ty = in.w(); if (ty == "s") next<std::string>(o); else if (ty == "i") next<int>(o); else next<double>(o); }
      else if (c == "arr" || c == "fast" || c == "rest") {
        std::string ty = in.w(); size_t n = in.i();
        if (ty == "s") { std::vector<std::string> v(n); ReadAsciiArray(*S, v.begin(), n, line_no); o.w("arr"); for (auto& x : v) o.h(x); }
        else if (ty == "i") arr<int>(c, n, o); else arr<double>(c, n, o);
      }
      else if (c == "disc") { DiscardRestOfLine(*S, line_no, in.i() != 0); o.w("none"); }
      else if (c == "line") { std::string s = "junk"; if (GetNextNonEmptyLine(*S, line_no, s)) o.w("line").h(s); else o.w("noline").h(s); }
      else if (c == "last") { std::string s = FindLastNonEmptyLine(*S, in.i()); o.w("line").h(s); }
      else if (c == "skip") { SkipComments(*S, (char)in.i(), line_no); o.w("none"); }
      else if (c == "end") { bool e = CheckEndOfFile(*S); o.w("end").i(e); }
      else if (c == "quoted") { std::string s; ReadNextQuoted(*S, (char)in.i(), s, line_no); o.w("tok").h(s); }
      else throw std::logic_error("?");
    }
    catch (EndOfFile&) { o.s = ""; o.w("eof"); }
    catch (Exception&) { o.s = ""; o.w(c == "rest" ? "few" : "bad"); }
    o.w("|").i(line_no).i(S->good()).i(S->good() ? (long long)S->tellg() : -1);
  });
}
