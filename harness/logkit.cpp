// Logging: every log goes to a file or buffer of its own; screen output is captured.
#include "hh.hpp"
#include "nrlib/iotools/logkit.hpp"
#include "nrlib/iotools/logstream.hpp"
using namespace NRLib;
static std::map<int, std::string> custom;
struct Custom : public LogStream {
  int id;
  Custom(int i, int lv) : LogStream(lv), id(i) {}
  Custom(int i, const std::vector<int>& l, bool g) : LogStream(l, g), id(i) {}
  void LogMessage(int level, const std::string& m) { if (ShouldLog(level)) custom[id] += m; }
  void LogMessage(int level, int phase, const std::string& m) { if (ShouldLog(level, phase)) custom[id] += m; }
  void UpdateProgress(double, const std::string&) {}
};
static std::map<int, Custom*> live;
static std::set<int> ids;
static std::set<int> file_ids;
static int next_id = 1;
static std::stringstream screen;
static std::string fname(int id) { return "log" + std::to_string(id) + ".txt"; }
static std::vector<int> vec(hh::In& in) { std::vector<int> v(in.i()); for (auto& x : v) x = (int)in.i(); return v; }
int main() {
  std::cout.rdbuf(screen.rdbuf());
  return hh::loop([](const std::string& c, hh::In& in, hh::Out& o) {
    if (c == "new") {
      LogKit::EndLog(); screen.str(""); custom.clear(); live.clear(); for (int i : file_ids) std::remove(fname(i).c_str());
      file_ids.clear(); ids.clear(); next_id = 1;
      for (int b = 1; b <= 64; b *= 2) LogKit::SetPrefix("", b);
      for (int b = 1; b <= 64; b *= 2) o.i(LogKit::GetNMessages(b));
      return;
    }
    if (c == "whole" || c == "nonr" || c == "per" || c == "single") {
      std::string kind = in.w();
      int id = kind == "screen" ? 0 : next_id++;
      if (id) ids.insert(id);
      if (kind == "file") file_ids.insert(id);
      std::vector<int> v; int lv = 0, ph = 0, ign = 0;
      if (c == "per") { v = vec(in); ign = in.i(); } else lv = in.i();
      if (c == "single") { ph = in.i(); ign = in.i(); }
      if (kind == "file") {
        if (c == "whole") LogKit::SetFileLog(fname(id), lv, true);
        if (c == "nonr") LogKit::SetFileLog(fname(id), lv, false);
        if (c == "per") LogKit::SetFileLog(fname(id), v, ign != 0);
        if (c == "single") LogKit::SetFileLog(fname(id), lv, ph, ign != 0);
      } else if (kind == "screen") {
        if (c == "whole") LogKit::SetScreenLog(lv, true);
        if (c == "nonr") LogKit::SetScreenLog(lv, false);
        if (c == "per") LogKit::SetScreenLog(v, ign != 0);
      } else {
        live[id] = c == "whole" ? new Custom(id, lv) : new Custom(id, v, ign != 0);
        LogKit::AddLogStream(live[id]);
      }
    }
    else if (c == "remove") { int id = in.i(); LogKit::RemoveLogStream(live[id]); live.erase(id); }
    else if (c == "msg") { int b = in.i(); std::string t = in.h(); if (in.i()) LogKit::LogFormatted(b, "%s%s", t.substr(0, t.size() / 2).c_str(), t.substr(t.size() / 2).c_str()); else LogKit::LogMessage(b, t); }
    else if (c == "pmsg") { int b = in.i(), p = in.i(); std::string t = in.h(); if (in.i()) LogKit::LogFormatted(b, p, "%s%s", t.substr(0, t.size() / 2).c_str(), t.substr(t.size() / 2).c_str()); else LogKit::LogMessage(b, p, t); }
    else if (c == "header") { int b = in.i(); LogKit::WriteHeader(in.h(), (LogKit::MessageLevels)b); }
    else if (c == "progress") { double p = in.i() / 100.0; LogKit::UpdateProgress(p, in.h()); }
    else if (c == "start") LogKit::StartBuffering();
    else if (c == "stop") LogKit::EndBuffering();
    else if (c == "prefix") { int b = in.i(); LogKit::SetPrefix(in.h(), b); }
    else if (c == "endlog") { LogKit::EndLog(); live.clear(); }
    else throw std::runtime_error("?");
    o.h(screen.str());
    for (int b = 1; b <= 64; b *= 2) o.i(LogKit::GetNMessages(b));
    for (int i : ids) o.i(i).h(file_ids.count(i) ? hh::slurp(fname(i)) : custom[i]);
  });
}
