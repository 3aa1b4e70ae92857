// Binary reading and writing of numbers.
#include "hh.hpp"
#include "nrlib/iotools/fileio.hpp"
using namespace NRLib;
static std::string be(const void* p, size_t n) { std::string s((const char*)p, n), r(s.rbegin(), s.rend()); return r; }   // little-endian host
template <class T> T val(const std::string& b) { std::string r(b.rbegin(), b.rend()); T x; std::memcpy(&x, r.data(), sizeof x); return x; }

struct Str { std::stringstream mem; std::fstream file; bool use_file = false;
             std::iostream& s() { return use_file ? (std::iostream&)file : (std::iostream&)mem; } };
static std::unique_ptr<Str> S;

template <class T, class W1, class WA> void wr(hh::In& in, bool arr, W1 one, WA array) {
  std::vector<T> v; while (in.more()) v.push_back(val<T>(in.h()));
  if (arr) array(v.begin(), v.end()); else one(v[0]);
}
template <class T, class R1, class RA> void rd(size_t n, bool arr, hh::Out& o, R1 one, RA array) {
  std::vector<T> v(n + 2);
  T guard; std::memset(&guard, 0x5a, sizeof guard);
  std::memcpy(&v[n], &guard, sizeof guard);
  if (arr) array(v.begin(), n); else v[0] = one();
  if (std::memcmp(&v[n], &guard, sizeof guard)) throw std::runtime_error("wrote beyond the end");
  for (size_t i = 0; i < n; i++) o.h(be(&v[i], sizeof(T)));
}

int main() {
  return hh::loop([](const std::string& c, hh::In& in, hh::Out& o) {
    if (c == "new") {
      S.reset(new Str); S->use_file = in.i();
      if (S->use_file) S->file.open("codec.bin", std::ios::in | std::ios::out | std::ios::trunc | std::ios::binary);
      return;
    }
    if (c == "w" || c == "r") {
      std::string ty = in.w(); Endianess e = in.w() == "be" ? END_BIG_ENDIAN : END_LITTLE_ENDIAN; bool arr = in.i();
      std::iostream& s = S->s();
      if (c == "w") {
        if (S->use_file) s.seekp(0, std::ios::end);
        if (ty == "short") wr<short>(in, arr, [&](short x) { WriteBinaryShort(s, x, e); }, [&](auto a, auto b) { WriteBinaryShortArray(s, a, b, e); });
        if (ty == "int") wr<int>(in, arr, [&](int x) { WriteBinaryInt(s, x, e); }, [&](auto a, auto b) { WriteBinaryIntArray(s, a, b, e); });
        if (ty == "float") wr<float>(in, arr, [&](float x) { WriteBinaryFloat(s, x, e); }, [&](auto a, auto b) { WriteBinaryFloatArray(s, a, b, e); });
        if (ty == "double") wr<double>(in, arr, [&](double x) { WriteBinaryDouble(s, x, e); }, [&](auto a, auto b) { WriteBinaryDoubleArray(s, a, b, e); });
        if (ty == "ibm") wr<float>(in, arr, [&](float x) { WriteBinaryIbmFloat(s, x, e); }, [&](auto a, auto b) { WriteBinaryIbmFloatArray(s, a, b, e); });
        if (S->use_file) { s.flush(); o.h(hh::slurp("codec.bin")); } else o.h(S->mem.str());
      } else {
        size_t n = in.i();
        static long long at = 0;
        at = in.i();
        if (S->use_file) s.seekg(at);
        if (ty == "short") rd<short>(n, arr, o, [&] { return ReadBinaryShort(s, e); }, [&](auto a, size_t k) { ReadBinaryShortArray(s, a, k, e); });
        if (ty == "int") rd<int>(n, arr, o, [&] { return ReadBinaryInt(s, e); }, [&](auto a, size_t k) { ReadBinaryIntArray(s, a, k, e); });
        if (ty == "float") rd<float>(n, arr, o, [&] { return ReadBinaryFloat(s, e); }, [&](auto a, size_t k) { ReadBinaryFloatArray(s, a, k, e); });
        if (ty == "double") rd<double>(n, arr, o, [&] { return ReadBinaryDouble(s, e); }, [&](auto a, size_t k) { ReadBinaryDoubleArray(s, a, k, e); });
        if (ty == "ibm") rd<float>(n, arr, o, [&] { return ReadBinaryIbmFloat(s, e); }, [&](auto a, size_t k) { ReadBinaryIbmFloatArray(s, a, k, e); });
      }
      return;
    }
    if (c == "t") {                                  // one table row: everything that can be done with four bytes
      std::string b = in.h(), z(4, 0);
      short i16; ParseInt16BE(b.data(), i16); unsigned short u16; ParseUInt16BE(b.data(), u16);
      int i32; ParseInt32BE(b.data(), i32); unsigned int u32; ParseUInt32BE(b.data(), u32);
      float f, g; ParseIEEEFloatBE(b.data(), f); ParseIBMFloatBE(b.data(), g);
      o.i(i16).i(u16).i(i32).u(u32).h(be(&f, 4)).h(be(&g, 4));
      char w[4];
      WriteInt16BE(w, i16); o.h(std::string(w, 2)); WriteUInt16BE(w, u16); o.h(std::string(w, 2));
      WriteInt32BE(w, i32); o.h(std::string(w, 4)); WriteUInt32BE(w, u32); o.h(std::string(w, 4));
      std::stringstream s; WriteBinaryIbmFloat(s, f, END_BIG_ENDIAN); o.h(s.str());
      return;
    }
    throw std::runtime_error("?");
  });
}
