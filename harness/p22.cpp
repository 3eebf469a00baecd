// P22: threads that work on their own objects. Every case gives each of 2-4 threads its own list of engine
// workloads, runs the lists concurrently with yields injected inside the allocator and between operations, and
// then sequentially; ThreadSanitizer watches the first run and the logs of both runs are compared.
// The workloads are the ones of P25 (free functions and operators over library and user types) plus the engines'
// own entry points. Threads share nothing of the harness but relaxed atomic counters, which order nothing.
#include "common.hpp"
#undef VF_MAIN
#define VF_MAIN()
#if PART <= 5
#define families families25
#include "p25.cpp"
#undef families
#else
#include "usertypes.hpp"
#endif
#include "sceneg.hpp"
#include "scene45.hpp"
#include "set90.hpp"
#include "own.hpp"
#include <atomic>
#include <sched.h>
#include <thread>
namespace vf {
static thread_local u64 tl_yield = 0; static thread_local u64 tl_yields = 0;
static inline void maybeYield(u64 mask) { if (!tl_yield) return; tl_yield = mix(tl_yield); if ((tl_yield & mask) == 0) { ++tl_yields; if ((tl_yield >> 40 & 15) == 0) usleep(30); else sched_yield(); } }
}
// called by the sanitizer's allocator on every allocation
extern "C" void __sanitizer_malloc_hook(const volatile void*, std::size_t) { vf::maybeYield(63); }
namespace vf {
using ut::Log; using ut::S;
typedef std::function<void(Rng&, Log&)> Work;
struct Ev { u64 t; int thread, op; bool end; };
static std::atomic<u64> ticket(0);
static std::atomic<int> ready(0);
struct Lane { std::vector<std::pair<int, u64> > ops; std::vector<Log> logs; std::vector<Ev> ev; std::string err; u64 yields = 0; int next = 0; };
static void runLane(Lane& l, int id, const std::vector<std::pair<const char*, Work> >& works, bool conc, u64 ys) {
  for (std::size_t i = 0; i < l.ops.size(); ++i) {
    if (conc) { l.ev.push_back(Ev{ticket.fetch_add(1, std::memory_order_relaxed), id, (int)i, false}); tl_yield = ys | 1; maybeYield(1); }
    l.logs.push_back(Log()); Rng r(l.ops[i].second);
    try { works[l.ops[i].first].second(r, l.logs.back()); }
    catch (const std::exception& e) { l.err = e.what(); } catch (...) { l.err = "exception of another type"; }
    ys = tl_yield; tl_yield = 0;
    if (conc) l.ev.push_back(Ev{ticket.fetch_add(1, std::memory_order_relaxed), id, (int)i, true});
  }
}
static void threads(Ctx& c, const std::vector<std::pair<const char*, Work> >& works, int maxOps) {
  Rng& r = c.rng; int n = 2 + r.below(3); std::vector<Lane> conc(n), seq(n); bool same = r.chance(1, 3); int k0 = r.below((int)works.size()); std::string d;
  for (int i = 0; i < n; ++i) { int m = 1 + r.below(maxOps); d += " thread" + std::to_string(i) + ":"; for (int j = 0; j < m; ++j) { int k = same ? k0 : r.below((int)works.size()); u64 s = r.next(); if (i && r.chance(1, 6)) s = conc[0].ops[0].second; conc[i].ops.push_back(std::make_pair(k, s)); d += std::string(" ") + works[k].first + "#" + std::to_string(s); } seq[i].ops = conc[i].ops; conc[i].ev.reserve(2 * m + 2); }
  c.desc = d; ready.store(0, std::memory_order_relaxed);
  std::vector<std::thread> ts; u64 ys = r.next();
  for (int i = 0; i < n; ++i) ts.push_back(std::thread([&, i]() { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < n) sched_yield(); runLane(conc[i], i, works, true, mix(ys + i)); conc[i].yields = tl_yields; }));
  for (auto& t : ts) t.join();
  for (int i = 0; i < n; ++i) runLane(seq[i], i, works, false, 0);
  std::vector<Ev> ev; for (auto& l : conc) { ev.insert(ev.end(), l.ev.begin(), l.ev.end()); c.count("yields injected", l.yields); c.count("operations on threads", l.ops.size()); }
  std::sort(ev.begin(), ev.end(), [](const Ev& a, const Ev& b) { return a.t < b.t; });
  Hash h; int open = 0; u64 over = 0; for (auto& e : ev) { h.add(e.thread * 64 + e.op * 2 + e.end); if (e.end) --open; else { over += open; ++open; } }
  for (auto& l : conc) for (auto& o : l.ops) h.add(o.second);
  c.count("overlapping operations", over); c.count("threads", n);
  u64 obs = 0;
  for (int i = 0; i < n; ++i) {
    if (conc[i].err != seq[i].err) { c.fail("exception-differs", "thread " + std::to_string(i) + ": concurrent '" + conc[i].err + "' sequential '" + seq[i].err + "'"); continue; }
    if (!conc[i].err.empty()) { c.fail("workload-exception", conc[i].err); continue; }
    for (std::size_t j = 0; j < conc[i].ops.size(); ++j) { const Log &a = conc[i].logs[j], &b = seq[i].logs[j]; const char* nm = works[conc[i].ops[j].first].first;
      if (a.v.size() != b.v.size()) { c.fail(std::string("observations-") + nm, "different numbers of observations"); continue; }
      for (std::size_t k = 0; k < a.v.size(); ++k) { ++obs; if (a.v[k].second != b.v[k].second) { c.fail(std::string("result-") + nm, std::string(a.v[k].first) + " gives " + a.v[k].second.substr(0, 400) + " with other threads running and " + b.v[k].second.substr(0, 400) + " alone"); break; } } } }
  c.count("observations compared", obs); if (over && obs) c.nontrivial(h.h);
}
typedef std::vector<std::pair<const char*, Work> > Works;
#define W(F, G, FN, GEN) [](Rng& r, Log& L) { auto k = GEN(r); FN<ut::F, ut::G>(r, L, k); }
#if PART == 0
static int none(Rng&) { return 0; }
static Works works() { return {{"primitives", W(FamL<int>, FamL<int>, primitives, none)}, {"primitives-user", W(FamU<int>, FamL<int>, primitives, none)}, {"segments", W(FamL<int>, FamL<int>, segments, none)}, {"segments-i64", W(FamL<long long>, FamD<long long>, segments, none)}, {"voronoi", ownV}}; }
std::vector<Family> families() { Works w = works(); return {{"primitives", [w](Ctx& c) { threads(c, w, 8); }, 3200, 40000}}; }
#elif PART == 1
template <int D> Case1 gen1(Rng& r) { Case1 k; k.dom = D; do k.p = domPoly(r, D, k.lim); while (k.p.outer.size() < 3); for (int i = 0; i < 6; ++i) { P a = k.p.outer[r.below((int)k.p.outer.size())]; k.pts.push_back(P(a.x + r.range(-3, 3), a.y + r.range(-3, 3))); } return k; }
static Works works() { return {{"polygons-90", W(FamL<int>, FamL<int>, polys, gen1<0>)}, {"polygons-45", W(FamU<int>, FamU<int>, polys, gen1<1>)}, {"polygons", W(FamL<int>, FamL<int>, polys, gen1<2>)}}; }
std::vector<Family> families() { Works w = works(); return {{"polygons", [w](Ctx& c) { threads(c, w, 6); }, 2400, 60000}}; }
#elif PART == 2 || PART == 4 || PART == 5
static Case2 gen2(Rng& r) {
  Case2 k; Items v;
#if PART == 2
  Range q = pickRange(r, -(1 << 20), 1 << 20, true); q.lo = std::max<i64>(q.lo, -(1 << 20)); q.hi = std::min<i64>(q.hi, 1 << 20); if (q.hi - q.lo < 8) q.hi = q.lo + 8; Scene sc = genScene(r, q, 8); v = genItems(r, sc, 6, true, false, false);
#elif PART == 4
  Scene45 s = genScene45(r, false, -(1 << 24), 1 << 24); v = genItems45(r, s, 5, true, false);
#else
  SceneG s = genSceneG(r, 1 << 27); v = genItemsG(r, s, 5, true, false);
#endif
  for (auto& i : v) { i.p.outer = horizFirst(i.p.outer); for (auto& h : i.p.holes) h = horizFirst(h); (r.below(2) ? k.a : k.b).push_back(i); } return k;
}
#if PART == 2
#define FN set90
#define OWN own90
#elif PART == 4
#define FN set45
#define OWN own45
#else
#define FN setG
#define OWN ownG
#endif
static Works works() { return {{"expressions", W(FamL<int>, FamL<int>, FN, gen2)}, {"expressions-user", W(FamU<int>, FamD<int>, FN, gen2)}, {"engine", OWN}}; }
std::vector<Family> families() { Works w = works(); return {{PART == 2 ? "sets-90" : PART == 4 ? "sets-45" : "sets", [w](Ctx& c) { threads(c, w, 4); }, 960, 30000}}; }
#else
static Works works() { return {{"90", own90}, {"45", own45}, {"general", ownG}, {"voronoi", ownV}}; }
std::vector<Family> families() { Works w = works(); return {{"mixed", [w](Ctx& c) { threads(c, w, 4); }, 1600, 50000}}; }
#endif
}
#undef VF_MAIN
#define VF_MAIN() namespace vf { State* g = 0; } int main(int argc, char** argv) { return vf::harness_main(argc, argv); }
VF_MAIN()
