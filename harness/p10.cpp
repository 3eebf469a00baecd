// P10: property merge maps every point to exactly the set of labels that cover it.
#include "sceneg.hpp"
namespace vf {
static std::string keyStr(const std::set<int>& k) { std::string s = "{"; for (int x : k) s += std::to_string(x) + " "; return s + "}"; }
struct Lab { int label; Items items; int form; };
static std::string str(const std::vector<Lab>& v) { std::string s; for (auto& l : v) s += " label " + std::to_string(l.label) + "/" + std::to_string(l.form) + strv(l.items); return s; }
static std::vector<Poly> allPolys(const std::vector<Lab>& v) { std::vector<Poly> o; for (auto& l : v) for (auto& i : l.items) o.push_back(i.p); return o; }
static u64 hashLabs(const std::vector<Lab>& v) { Hash h; for (auto& l : v) { h.add((u64)l.label); h.add(l.form); h.add(hashPolys(polysOf(l.items))); } return h.h; }
typedef std::map<std::set<int>, std::vector<Poly> > Out;
// Labels may repeat: the region of a label is the union of its insertions.  The same insertion is also repeated at random.
template <class Gen> std::vector<Lab> genLabs(Rng& r, Gen gen, int forms) {
  std::vector<Lab> v; int n = r.chance(1, 12) ? r.below(2) : 2 + r.below(5); static const int pool[6] = {0, 7, -3, 1000000, 2, std::numeric_limits<int>::max()};
  bool repeat = r.chance(1, 3); int base = r.below(6);
  for (int i = 0; i < n; ++i) { Lab l; l.label = pool[repeat ? r.below(3) : (base + i) % 6]; l.items = gen(r.chance(1, 4) ? 4 : 1); l.form = r.below(forms); v.push_back(l); }
  if (!v.empty() && r.chance(1, 4)) { Lab l = v[r.below((int)v.size())]; v.push_back(l); }
  return v;
}
template <class M, class Ins, class Read> bool runMerge(Ctx& c, const std::string& key, const std::vector<Lab>& v, Ins ins, Read read, Out& out) {
  Rng& r = c.rng; std::unique_ptr<M> m(new M); int cpy = r.chance(1, 4) ? r.below((int)v.size() + 1) : -1, cut = r.chance(1, 6) ? r.below((int)v.size() + 1) : -1;
  for (size_t i = 0; i <= v.size(); ++i) {
    if ((int)i == cpy) { std::unique_ptr<M> o(new M(*m)); if (r.chance(1, 2)) { o.reset(new M); *o = *m; } m.swap(o); c.count("engine copies"); }
    if ((int)i == cut) { Out dump; read(*m, dump); c.count("merges in between"); }
    if (i < v.size()) ins(*m, v[i]);
  }
  read(*m, out);
  for (auto& e : out) if (!c.check(!e.first.empty(), key + ":emptykey", "a region without any label was reported: " + strv(e.second))) return false;
  return true;
}
// labels of another type: strings whose order differs from the order of the numbers
template <class L> L enc(int x); template <> int enc<int>(int x) { return x; } template <> std::string enc<std::string>(int x) { return (x < 0 ? "n" : "p") + std::to_string(x); }
inline int dec(int x) { return x; } inline int dec(const std::string& x) { return std::stoi(x.substr(1)); }
template <class K, class S, class M, class Obs> void readInto(M& m, Out& out, Obs obs) { std::map<K, S> res; m.merge(res); for (auto& e : res) { std::set<int> k; for (auto& x : e.first) k.insert(dec(x)); auto p = obs(e.second); auto& o = out[k]; o.insert(o.end(), p.begin(), p.end()); } }
static std::string strOut(const Out& o) { std::string s; for (auto& e : o) s += " " + keyStr(e.first) + ":" + strv(e.second); return s; }
#if PART == 0
template <class C, class L> void merge90(Ctx& c) {
  Rng& r = c.rng; typedef bp::polygon_90_set_data<C> S; typedef bp::property_merge_90<C, L> M; i64 lo = sizeof(C) > 4 ? -(1LL << 30) : std::numeric_limits<C>::min(), hi = sizeof(C) > 4 ? 1LL << 30 : std::numeric_limits<C>::max();
  Range q = pickRange(r, lo, hi, true); Scene sc = genScene(r, q, r.chance(1, 8) ? 14 : 8); bool sub = r.chance(1, 3);
  std::vector<Lab> v = genLabs(r, [&](int n) { return genItems(r, sc, n, true, sub, false); }, 6); int how = r.below(5), kt = r.below(2);
  for (auto& l : v) if (l.form == 4 && (l.items.size() != 1 || l.items[0].hole)) l.form = 0;
  c.desc = "merge90 key=" + std::string(kt ? "vector" : "set") + " obs=" + std::to_string(how) + str(v);
  Grid g; for (auto& l : v) addc(g, l.items); g.seal(); std::map<int, W> cov; for (auto& l : v) { W w = positive(rasterItems(g, l.items)); auto& t = cov[l.label]; if (t.empty()) t = w; else for (size_t i = 0; i < t.size(); ++i) t[i] = t[i] || w[i]; }
  Out out;
  if (!runMerge<M>(c, "merge90", v, [&](M& m, const Lab& l) {
    if (l.form == 4) { const Item& i = l.items[0]; if (i.form == 2) m.insert(toRect<C>(i.p.outer), enc<L>(l.label)); else if (i.form == 1) m.insert(to90<C>(i.p.outer), enc<L>(l.label)); else m.insert(to90h<C>(i.p), enc<L>(l.label)); return; }
    S s(l.form & 1 ? bp::VERTICAL : bp::HORIZONTAL); for (auto& i : l.items) insertItem(s, i);
    if (l.form == 2) s.clean();
    if (l.form == 3) { std::vector<bp::rectangle_data<C> > w; s.get(w); S t; bp::assign(t, w); m.insert(t, enc<L>(l.label)); return; }
    m.insert(s, enc<L>(l.label));
  }, [&](M& m, Out& o) { if (kt) readInto<std::vector<L>, S>(m, o, [&](const S& s) { return observe90(s, how); }); else readInto<std::set<L>, S>(m, o, [&](const S& s) { return observe90(s, how); }); }, out)) return;
  std::vector<W> ow; std::vector<std::set<int> > keys; std::string why;
  for (auto& e : out) { W w; if (!c.check(onGrid(g, e.second), "merge90:coords", "output uses coordinates that no input has:" + strOut(out))) return; if (!c.check(rasterOut(g, w, e.second, why), "merge90:shape", why)) return; ow.push_back(w); keys.push_back(e.first); }
  std::set<std::set<int> > seen;
  for (size_t i = 0; i < g.nx * g.ny; ++i) {
    std::set<int> want; for (auto& e : cov) if (e.second[i]) want.insert(e.first); bool hit = want.empty();
    for (size_t k = 0; k < keys.size(); ++k) { int e = keys[k] == want; hit = hit || e; if (ow[k][i] != e && !c.check(false, "merge90:region", "cell x" + std::to_string(g.xs[i / g.ny]) + " y" + std::to_string(g.ys[i % g.ny]) + " is covered by labels " + keyStr(want) + " and " + std::to_string(ow[k][i]) + " times by the region of " + keyStr(keys[k]) + " output:" + strOut(out))) return; }
    if (!hit && !c.check(false, "merge90:missing", "cell x" + std::to_string(g.xs[i / g.ny]) + " y" + std::to_string(g.ys[i % g.ny]) + " with labels " + keyStr(want) + " is missing; output:" + strOut(out))) return;
    seen.insert(want);
  }
  c.count("cells judged", (i64)(g.nx * g.ny)); c.count("label sets seen", (i64)seen.size());
  if (v.size() > 1) c.nontrivial(hashLabs(v));
}
#else
// slots of the sweep: 2.. inputs by label, then the reported regions by key
template <class Allow> void judgeArr(Ctx& c, const std::string& key, const std::vector<Lab>& v, const Out& out, Allow allowed) {
  std::map<int, int> slot; for (auto& l : v) slot.insert(std::make_pair(l.label, 0)); int n = 2; for (auto& e : slot) e.second = n++;
  Arr a; for (auto& l : v) for (auto& i : l.items) a.poly(i.p, slot[l.label], 1);
  std::vector<std::set<int> > keys; for (auto& e : out) { for (auto& p : e.second) a.raw(p, n + (int)keys.size(), 1); keys.push_back(e.first); }
  a.nlab = n + (int)keys.size(); a.finish(); bool ok = true; i64 cells = 0; std::set<std::set<int> > seen;
  a.sweep([&](const Arr::Cell& q) {
    if (!ok) return; ++cells; std::set<int> want; for (auto& e : slot) if (q.w[e.second] > 0) want.insert(e.first); seen.insert(want);
    bool hit = want.empty(), bad = false; int tot = 0, got = -1; bool many = false; for (size_t k = 0; k < keys.size(); ++k) { int g = q.w[n + k], e = keys[k] == want; hit = hit || e; bad = bad || g != e; tot += g; if (g < 0 || g > 1) many = true; if (g == 1) got = (int)k; }
    if ((bad || !hit) && q.area() > 1e-6L && (many || !allowed(q))) { ok = false; c.fail(key + ":region", "cell " + cellStr(q) + " is covered by labels " + keyStr(want) + " and reported " + std::to_string(tot) + " times, under " + (got < 0 ? std::string("none") : keyStr(keys[got])) + "; output:" + strOut(out)); }
  });
  c.count("cells judged", cells); c.count("label sets seen", (i64)seen.size());
}
#endif
#if PART == 1
template <class C, class L> void merge45(Ctx& c, bool off) {
  Rng& r = c.rng; typedef bp::polygon_45_set_data<C> S; typedef bp::property_merge_45<C, L> M; Scene45 sc = genScene45(r, off, sizeof(C) > 4 ? -(1LL << 29) : std::numeric_limits<C>::min(), sizeof(C) > 4 ? 1LL << 29 : std::numeric_limits<C>::max());
  std::vector<Lab> v = genLabs(r, [&](int n) { return genItems45(r, sc, n, true, false); }, 5); int how = r.below(4), kt = r.below(2); c.desc = "merge45 key=" + std::string(kt ? "vector" : "set") + " obs=" + std::to_string(how) + str(v);
  Out out;
  if (!runMerge<M>(c, "merge45", v, [&](M& m, const Lab& l) {
    if (l.form == 4 && l.items.size() == 1) { if (l.items[0].form == 1) m.insert(to45<C>(l.items[0].p.outer), enc<L>(l.label)); else m.insert(to45h<C>(l.items[0].p), enc<L>(l.label)); return; }
    S s; for (auto& i : l.items) insertItem45(s, i); if (l.form == 1) s.clean();
    if (l.form == 2) { std::vector<bp::polygon_45_with_holes_data<C> > w; s.get(w); S t; for (auto& p : w) t.insert(p); m.insert(t, enc<L>(l.label)); return; }
    m.insert(s, enc<L>(l.label));
  }, [&](M& m, Out& o) { if (kt) readInto<std::vector<L>, S>(m, o, [&](const S& s) { return observe45(s, how); }); else readInto<std::set<L>, S>(m, o, [&](const S& s) { return observe45(s, how); }); }, out)) return;
  for (auto& e : out) for (auto& p : e.second) { bool ok = is45Ring(p.outer); for (auto& h : p.holes) ok = ok && is45Ring(h); if (!c.check(ok, "merge45:shape", "an output edge is neither axis-parallel nor diagonal: " + str(p))) return; }
  std::set<P> oc = offCells(allPolys(v)); if (!oc.empty()) c.count("scenes with off-grid crossings");
  judgeArr(c, "merge45", v, out, [&](const Arr::Cell& q) { if (oc.empty()) return false; for (ld e = q.x0; e < q.x1;) { i64 X = (i64)floorl(e + 1e-6L); ld nx = std::min(q.x1, (ld)X + 1); ld t0 = (e - q.x0) / (q.x1 - q.x0), t1 = (nx - q.x0) / (q.x1 - q.x0); ld lo = std::min(q.l0 + (q.l1 - q.l0) * t0, q.l0 + (q.l1 - q.l0) * t1), hi = std::max(q.h0 + (q.h1 - q.h0) * t0, q.h0 + (q.h1 - q.h0) * t1); for (i64 Y = (i64)floorl(lo + 1e-6L); (ld)Y < hi - 1e-6L; ++Y) if (!oc.count(P(X, Y))) return false; e = nx; if (nx <= e && e >= q.x1) break; } return true; });
  if (v.size() > 1) c.nontrivial(hashLabs(v));
}
#elif PART == 2
template <class C, class L> void mergeG(Ctx& c, bool lattice) {
  Rng& r = c.rng; typedef bp::polygon_set_data<C> S; SceneG sc = genSceneG(r, 1LL << 27); Scene45 q; i64 B = 1 << 19; if (lattice) q = genScene45(r, false, -B, B);
  std::vector<Lab> v = genLabs(r, [&](int n) { return lattice ? genItems45(r, q, n, true, false) : genItemsG(r, sc, n, true, false); }, 2); int how = r.below(4), kt = r.below(2); c.desc = "mergeG key=" + std::string(kt ? "vector" : "set") + " obs=" + std::to_string(how) + str(v);
  Out out; auto obs = [&](const S& s) { S t(s); return observeG(t, how); };
  auto ins = [&](auto& m, const Lab& l) {
    for (auto& i : l.items) { if (isRect(i.p) && l.form && i.p.outer[0].x != i.p.outer[2].x && i.p.outer[0].y != i.p.outer[2].y && (i.p.outer[0].x == i.p.outer[1].x || i.p.outer[0].y == i.p.outer[1].y) && (i.p.outer[1].x == i.p.outer[2].x || i.p.outer[1].y == i.p.outer[2].y) && (i.p.outer[3].x == i.p.outer[2].x || i.p.outer[3].y == i.p.outer[2].y) && (i.p.outer[3].x == i.p.outer[0].x || i.p.outer[3].y == i.p.outer[0].y)) m.insert(toRect<C>(i.p.outer), enc<L>(l.label)); else if (i.p.holes.empty() && l.form) m.insert(toGen<C>(i.p.outer), enc<L>(l.label)); else m.insert(toGenh<C>(i.p), enc<L>(l.label)); }
  };
  typedef bp::property_merge<C, L, std::set<L> > M0; typedef bp::property_merge<C, L, std::vector<L> > M1;
  bool ok = kt ? runMerge<M1>(c, "mergeG", v, ins, [&](M1& m, Out& o) { readInto<std::vector<L>, S>(m, o, obs); }, out) : runMerge<M0>(c, "mergeG", v, ins, [&](M0& m, Out& o) { readInto<std::set<L>, S>(m, o, obs); }, out);
  if (!ok) return;
  std::vector<Poly> all = allPolys(v);
  judgeArr(c, "mergeG", v, out, [&](const Arr::Cell& q) { return !lattice && cellReach(q, all) <= 3; });
  if (v.size() > 1) c.nontrivial(hashLabs(v));
}
#endif
std::vector<Family> families() {
  std::vector<Family> f;
#if PART == 0
  f.push_back({"merge90-int", [](Ctx& c) { merge90<int, int>(c); }, 80000, 3000000});
  f.push_back({"merge90-i64", [](Ctx& c) { merge90<long long, int>(c); }, 20000, 800000});
  f.push_back({"merge90str-int", [](Ctx& c) { merge90<int, std::string>(c); }, 10000, 300000});
#elif PART == 1
  f.push_back({"merge45-int", [](Ctx& c) { merge45<int, int>(c, false); }, 16000, 1200000});
  f.push_back({"merge45off-int", [](Ctx& c) { merge45<int, int>(c, true); }, 10000, 800000});
  f.push_back({"merge45str-int", [](Ctx& c) { merge45<int, std::string>(c, false); }, 4000, 100000});
#else
  f.push_back({"mergeG-int", [](Ctx& c) { mergeG<int, int>(c, false); }, 10000, 800000});
  f.push_back({"mergeGlat-int", [](Ctx& c) { mergeG<int, int>(c, true); }, 10000, 800000});
  f.push_back({"mergeGstr-int", [](Ctx& c) { mergeG<int, std::string>(c, true); }, 4000, 100000});
#endif
  return f;
}
}
VF_MAIN()
