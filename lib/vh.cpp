#include "vh.h"
#include <fstream>
#include <iterator>
#include <sys/resource.h>
namespace vh {
Options opt;
State& st() { static State* s = new State(); return *s; }
static std::string g_scratch;
void rmTree(const std::string& p) {
  if (g_scratch.empty() || p.compare(0, g_scratch.size(), g_scratch) != 0) { fprintf(stderr, "refusing rm %s\n", p.c_str()); abort(); }
  struct stat sb;
  if (lstat(p.c_str(), &sb)) return;
  if (S_ISDIR(sb.st_mode)) {
    if (DIR* d = opendir(p.c_str())) { while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") rmTree(p + "/" + n); } closedir(d); }
    rmdir(p.c_str());
  } else unlink(p.c_str());
}
static void cleanup() { if (!g_scratch.empty()) rmTree(g_scratch); }
std::string scratch() {
  if (g_scratch.empty()) {
    const char* base = getenv("VERIF_SCRATCH");
    std::string t = std::string(base ? base : (access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp")) + "/vh.XXXXXX";
    std::vector<char> b(t.begin(), t.end()); b.push_back(0);
    if (!mkdtemp(b.data())) { perror("mkdtemp"); exit(3); }
    g_scratch = b.data();
    atexit(cleanup);
  }
  return g_scratch;
}
std::string newDir(const std::string& name) { static unsigned n = 0; std::string p = scratch() + "/" + name + std::to_string(n++); mkdir(p.c_str(), 0700); return p; }
std::string readFile(const std::string& p) { std::ifstream f(p, std::ios::binary); return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); }
void writeFile(const std::string& p, const std::string& d) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(d.data(), d.size()); }
bool exists(const std::string& p) { struct stat sb; return ::stat(p.c_str(), &sb) == 0; }
void copyTree(const std::string& a, const std::string& b) {
  mkdir(b.c_str(), 0700);
  if (DIR* d = opendir(a.c_str())) { while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n == "." || n == "..") continue;
      struct stat sb; if (::stat((a + "/" + n).c_str(), &sb)) continue;
      if (S_ISDIR(sb.st_mode)) copyTree(a + "/" + n, b + "/" + n); else writeFile(b + "/" + n, readFile(a + "/" + n)); } closedir(d); }
}
int run(int argc, char** argv, const std::function<void(long, Rng&)>& f, const std::function<void()>& init) {
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--prop") opt.prop = val(); else if (a == "--tier") opt.tier = val(); else if (a == "--mode") opt.mode = val();
    else if (a == "--seed") opt.seed = strtoull(val().c_str(), 0, 10); else if (a == "--cases") opt.cases = atol(val().c_str());
    else if (a == "--shard") { std::string v = val(); opt.shard = atoi(v.c_str()); opt.nshards = atoi(v.c_str() + v.find('/') + 1); }
    else if (a == "--case") opt.only = atol(val().c_str()); else if (a == "--from") opt.from = atol(val().c_str());
    else if (a == "-v") opt.verbose = true;
  }
  scratch();
  // the property and mode names are part of the stream, so that different checks see different histories
  uint64_t base = opt.seed * 0x9e3779b97f4a7c15ULL ^ h64(opt.prop + "/" + opt.mode);
  if (init) init();
  for (long k = opt.only >= 0 ? opt.only : opt.shard; k < (opt.only >= 0 ? opt.only + 1 : opt.cases); k += opt.nshards) {
    if (k < opt.from) continue;
    st().cur = k;
    line("CASE " + std::to_string(k));
    Rng r(base + (uint64_t)k * 0x2545F4914F6CDD1DULL);
    try { f(k, r); stat("cases"); }
    catch (const CaseAbort&) { stat("cases.aborted"); }
    catch (const std::exception& e) { report(opt.prop.empty() ? "?" : opt.prop, "uncaught-exception", std::string(e.what())); }
    if (st().viols > 60) break;   // enough to show
  }
  for (auto& s : st().stats) line("STAT " + s.first + " " + std::to_string(s.second));
  { std::string o; for (auto h : st().cover) { char b[24]; snprintf(b, sizeof b, "%llx", (unsigned long long)h); o += b; o += ' '; if (o.size() > 4000) { line("COVER " + o); o.clear(); } } if (!o.empty()) line("COVER " + o); }
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  line("STAT maxrss_kb " + std::to_string(ru.ru_maxrss));
  line("DONE");
  cleanup(); g_scratch.clear();
  fflush(stdout);
  _exit(0);   // static destructors of the code under test are not the subject here
}
}
