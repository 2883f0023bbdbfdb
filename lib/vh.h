// Common harness support: seeded randomness, the line protocol read by tools/check.py, case loop.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <exception>
#include <mutex>
#include <sstream>
#include <algorithm>
#include <unistd.h>
#include <sys/stat.h>
#include <dirent.h>

namespace vh {

struct Rng {
  uint64_t s[4];
  static uint64_t mix(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  explicit Rng(uint64_t seed = 1) { for (int i = 0; i < 4; ++i) s[i] = mix(seed); }
  static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t next() { uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r; }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }   // inclusive
  bool chance(unsigned pct) { return below(100) < pct; }
  bool coin() { return next() & 1; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  template <class T> void shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]); }
  // numbers that like edges: small, powers of two +-1, maximal, uniform
  uint64_t edgy(unsigned bits = 64) {
    uint64_t m = bits >= 64 ? ~0ULL : ((1ULL << bits) - 1);
    switch (below(6)) {
      case 0: return below(4) & m;
      case 1: return below(300) & m;
      case 2: return ((1ULL << below(bits)) + below(3) - 1) & m;
      case 3: return (m - below(3)) & m;
      case 4: return next() & m & ((1ULL << (1 + below(bits - 1))) - 1);
      default: return next() & m;
    }
  }
  std::string bytes(size_t n) { std::string r(n, 0); for (size_t i = 0; i < n; ++i) r[i] = (char)next(); return r; }
  void fill(void* p, size_t n) { uint8_t* b = (uint8_t*)p; for (size_t i = 0; i < n; ++i) b[i] = (uint8_t)next(); }
};

struct Options { std::string prop = "", tier = "quick", mode = ""; uint64_t seed = 1; long cases = 1; int shard = 0, nshards = 1; long only = -1; long from = 0; bool verbose = false; };
extern Options opt;
struct CaseAbort {};   // thrown after a violation: the rest of this case has no meaning

struct State {
  std::recursive_mutex m;
  std::map<std::string, uint64_t> stats;
  std::unordered_set<uint64_t> cover;
  unsigned samples = 0; long cur = -1; uint64_t viols = 0, others = 0; bool stopped = false;
  std::set<std::string> keys;
};
State& st();

inline uint64_t h64(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ULL) { const uint8_t* b = (const uint8_t*)p; for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 0x100000001b3ULL; } h ^= h >> 29; return h; }
inline uint64_t h64(const std::string& s) { return h64(s.data(), s.size()); }

inline std::string vfmt(const char* f, va_list ap) { char buf[4096]; vsnprintf(buf, sizeof buf, f, ap); return buf; }
inline std::string fmt(const char* f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s; }
inline void line(const std::string& s) { std::lock_guard<std::recursive_mutex> l(st().m); std::string o = s; for (auto& c : o) if (c == '\n' || c == '\r') c = ' '; o += '\n'; fwrite(o.data(), 1, o.size(), stdout); fflush(stdout); }

// props: comma separated ids the broken rule belongs to. Reported when the run is for one of them,
// otherwise noted as OTHER (another property's check decides it).
inline void report(const std::string& props, const std::string& key, const std::string& detail) {
  std::lock_guard<std::recursive_mutex> l(st().m);
  bool mine = opt.prop.empty() || ("," + props + ",").find("," + opt.prop + ",") != std::string::npos;
  if (mine) ++st().viols; else ++st().others;
  if (st().keys.insert((mine ? "" : "o") + key).second || st().keys.size() < 200)
    line(std::string(mine ? "VIOL " : "OTHER ") + key + " | case " + std::to_string(st().cur) + ": " + detail.substr(0, 1500));
}
inline void viol(const std::string& props, const std::string& key, const char* f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); report(props, key, s); }
// report and leave the case
[[noreturn]] inline void fail(const std::string& props, const std::string& key, const char* f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); report(props, key, s); throw CaseAbort(); }
inline void stat(const std::string& n, uint64_t k = 1) { std::lock_guard<std::recursive_mutex> l(st().m); st().stats[n] += k; }
inline void cover(uint64_t h) { std::lock_guard<std::recursive_mutex> l(st().m); if (st().cover.size() < 400000) st().cover.insert(h); }
inline void cover(const std::string& s) { cover(h64(s)); }
inline void sample(const std::string& s) { std::lock_guard<std::recursive_mutex> l(st().m); if (st().samples < 6) { ++st().samples; line("SAMPLE " + s.substr(0, 600)); } }
inline bool wants(const char* p) { return opt.prop.empty() || opt.prop == p; }

inline std::string hex(const void* p, size_t n) { static const char* d = "0123456789abcdef"; std::string r; for (size_t i = 0; i < n; ++i) { r += d[((const uint8_t*)p)[i] >> 4]; r += d[((const uint8_t*)p)[i] & 15]; } return r; }
inline std::string hex(const std::string& s, size_t maxn = 200) { return hex(s.data(), std::min(maxn, s.size())) + (s.size() > maxn ? "..." : ""); }
template <class P> std::string phex(const P& p) { return hex(&p, sizeof p); }
template <class P> std::string shex(const P& p) { return hex(&p, 4); }

// scratch directory, removed at exit
std::string scratch();
std::string newDir(const std::string& name);
void rmTree(const std::string& p);
void copyTree(const std::string& a, const std::string& b);
std::string readFile(const std::string& p);
void writeFile(const std::string& p, const std::string& d);
bool exists(const std::string& p);

// run all cases of this shard; the function throws CaseAbort to give up a case
int run(int argc, char** argv, const std::function<void(long k, Rng& r)>& f, const std::function<void()>& init = nullptr);
}
