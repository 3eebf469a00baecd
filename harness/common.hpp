// Shared runtime-monitoring harness: deterministic case generation, per-case
// watchdog and crash attribution, violation records, coverage accounting.
// Nothing in here looks at how the library is written, only at what it does.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <algorithm>
#include <cinttypes>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vf {

typedef long long i64;
typedef unsigned long long u64;
typedef __int128 i128;

inline u64 mix(u64 z) {
  z += 0x9E3779B97F4A7C15ULL;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
inline u64 hstr(const char* s) {
  u64 h = 1469598103934665603ULL;
  for (; *s; ++s) { h ^= (unsigned char)*s; h *= 1099511628211ULL; }
  return h;
}

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed) {}
  u64 next() { s += 0x9E3779B97F4A7C15ULL; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
  // uniform in [lo, hi]
  i64 range(i64 lo, i64 hi) { u64 span = (u64)hi - (u64)lo + 1; if (span == 0) return (i64)next(); return (i64)((u64)lo + next() % span); }
  bool chance(int num, int den) { return (i64)(next() % (u64)den) < num; }
  int below(int n) { return (int)(next() % (u64)n); }
  double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};

struct Hash {
  u64 h; Hash() : h(0x1234567) {}
  void add(u64 v) { h = mix(h ^ v) + 0x9E37; }
};

struct State;
extern State* g;

struct State {
  std::string prop;
  u64 seed; int shard, shards; std::string outp;
  FILE* out;
  std::map<std::string, i64> counters;        // events the monitors observed
  std::unordered_set<u64> distinct;
  std::vector<std::string> samples;
  std::map<std::string, int> samples_by_family;
  i64 evaluations, nontrivial, violations;
  std::string family; i64 idx;
  std::set<std::string> reported;
  bool verbose;
  char* status; // mmap'd
  State() : seed(1), shard(0), shards(1), out(0), evaluations(0), nontrivial(0), violations(0), idx(0), verbose(false), status(0) {}
};

inline std::string jesc(const std::string& s) {
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) {
    unsigned char c = (unsigned char)s[i];
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r;
}

// Human-readable description of a case, mirrored into the status page so that a
// crash report can quote it.
struct Desc : std::string {
  void sync() { if (g && g->status) { size_t n = std::min<size_t>(size(), 7000); memcpy(g->status + 256, data(), n); g->status[256 + n] = 0; } }
  template <class T> Desc& operator=(const T& v) { std::string::operator=(v); sync(); return *this; }
  template <class T> Desc& operator+=(const T& v) { std::string::operator+=(v); sync(); return *this; }
};
// Per-case context.
struct Ctx {
  Rng rng;
  bool thorough;
  Desc desc;
  bool failed;
  Ctx() : thorough(false), failed(false) {}
  // A monitor observed a violation. `key` identifies the failing relation.
  void fail(const std::string& key, const std::string& msg) {
    failed = true;
    ++g->violations;
    if (g->violations > 400) return;
    fprintf(g->out, "{\"type\":\"violation\",\"family\":\"%s\",\"idx\":%lld,\"key\":\"%s\",\"msg\":\"%s\",\"case\":\"%s\"}\n",
            g->family.c_str(), (long long)g->idx, jesc(key).c_str(), jesc(msg).c_str(), jesc(desc.substr(0, 6000)).c_str());
    fflush(g->out);
    if (g->verbose) fprintf(stderr, "VIOL %s idx=%lld key=%s\n  %s\n  case: %s\n", g->family.c_str(), (long long)g->idx, key.c_str(), msg.c_str(), desc.c_str());
  }
  bool check(bool ok, const std::string& key, const std::string& msg = "") { count("checks"); if (!ok) fail(key, msg); return ok; }
  void count(const char* name, i64 n = 1) { g->counters[name] += n; }
  // register the case as distinct & non-trivial
  void nontrivial(u64 h) { ++g->nontrivial; g->distinct.insert(mix(h ^ hstr(g->family.c_str()))); }
  void sample() {
    if (desc.empty()) return;
    int& n = g->samples_by_family[g->family];
    if (n >= 1) return;
    ++n;
    g->samples.push_back(g->family + "#" + std::to_string(g->idx) + ": " + desc.substr(0, 600));
  }
};

struct Family {
  const char* name;
  std::function<void(Ctx&)> fn;
  i64 quick, thorough;
};

inline void on_prof(int) {
  if (g && g->status) { memcpy(g->status + 200, "HANG", 5); }
  _exit(97);
}

extern std::vector<Family> families();

inline int harness_main(int argc, char** argv) {
  State st; g = &st;
  std::string only; i64 only_idx = -1; std::string statusp; bool list = false, thorough = false;
  std::string resume_fam; i64 resume_idx = -1; i64 cpu_limit = 20; double scale = 1.0; std::string stop_fam;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--seed") st.seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--shard") st.shard = atoi(val().c_str());
    else if (a == "--shards") st.shards = atoi(val().c_str());
    else if (a == "--out") st.outp = val();
    else if (a == "--status") statusp = val();
    else if (a == "--only") only = val();
    else if (a == "--idx") only_idx = atoll(val().c_str());
    else if (a == "--thorough") thorough = true;
    else if (a == "--verbose") st.verbose = true;
    else if (a == "--resume") { resume_fam = val(); resume_idx = atoll(val().c_str()); }
    else if (a == "--cpu") cpu_limit = atoll(val().c_str());
    else if (a == "--scale") scale = atof(val().c_str());
    else if (a == "--list") list = true;
    else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 64; }
  }
  std::vector<Family> fams = families();
  if (list) { for (auto& f : fams) printf("%s %lld %lld\n", f.name, (long long)f.quick, (long long)f.thorough); return 0; }
  st.out = st.outp.empty() ? stdout : fopen(st.outp.c_str(), "a");
  if (!st.out) return 65;
  static char dummy[8192];
  st.status = dummy;
  if (!statusp.empty()) {
    int fd = open(statusp.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, 8192) != 0) return 65;
    st.status = (char*)mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
  }
  memset(st.status, 0, 8192);
  signal(SIGPROF, on_prof);
  bool skipping = !resume_fam.empty();
  for (auto& f : fams) {
    if (!only.empty() && only != f.name) continue;
    i64 n = thorough ? f.thorough : f.quick;
    if (scale != 1.0 && n > 8) n = std::max<i64>(8, (i64)(n * scale));
    st.family = f.name;
    i64 start = st.shard;
    if (skipping) {
      if (resume_fam != f.name) continue;
      skipping = false;
      start = resume_idx + st.shards;
    }
    for (i64 i = only_idx >= 0 ? only_idx : start; only_idx >= 0 ? i == only_idx : i < n; i += st.shards) {
      st.idx = i;
      Ctx c; c.thorough = thorough;
      c.rng = Rng(mix(st.seed * 0x2545F4914F6CDD1DULL + mix(hstr(f.name)) + mix((u64)i + 77)));
      snprintf(st.status, 200, "%s %lld", f.name, (long long)i); st.status[256] = 0;
      struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = cpu_limit; setitimer(ITIMER_PROF, &tv, 0);
      ++st.evaluations;
      st.counters[std::string("cases:") + f.name]++;
      try { f.fn(c); }
      catch (const std::exception& e) { c.fail("exception", std::string("uncaught exception: ") + e.what()); }
      catch (const std::string& e) { c.fail("exception", std::string("uncaught exception: ") + e); }
      catch (const char* e) { c.fail("exception", std::string("uncaught exception: ") + e); }
      catch (...) { c.fail("exception", "uncaught exception of unknown type"); }
      if (!c.failed) c.sample();
    }
  }
  struct itimerval tv; memset(&tv, 0, sizeof tv); setitimer(ITIMER_PROF, &tv, 0);
  snprintf(st.status, 200, "DONE");
  fprintf(st.out, "{\"type\":\"summary\",\"evaluations\":%lld,\"nontrivial\":%lld,\"violations\":%lld,\"counters\":{",
          (long long)st.evaluations, (long long)st.nontrivial, (long long)st.violations);
  bool first = true;
  for (auto& c : st.counters) { fprintf(st.out, "%s\"%s\":%lld", first ? "" : ",", jesc(c.first).c_str(), (long long)c.second); first = false; }
  fprintf(st.out, "},\"samples\":[");
  for (size_t i = 0; i < st.samples.size(); ++i) fprintf(st.out, "%s\"%s\"", i ? "," : "", jesc(st.samples[i]).c_str());
  fprintf(st.out, "]}\n");
  fclose(st.out);
  if (!st.outp.empty()) {
    FILE* h = fopen((st.outp + ".hashes").c_str(), "ab");
    if (h) { for (u64 v : st.distinct) fwrite(&v, 8, 1, h); fclose(h); }
  }
  return 0;
}

} // namespace vf

#define VF_MAIN() namespace vf { State* g = 0; } int main(int argc, char** argv) { return vf::harness_main(argc, argv); }
#endif
