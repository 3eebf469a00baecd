// P11: connectivity extraction links exactly the objects whose closed regions meet.
#include "touch.hpp"
namespace vf {
typedef std::vector<std::set<int> > Graph;
static std::string str(const Graph& g) { std::string s; for (size_t i = 0; i < g.size(); ++i) for (int j : g[i]) s += std::to_string(i) + "-" + std::to_string(j) + " "; return s; }
static bool shareCorner(const Grid& g, const W& a, const W& b) {
  auto at = [&](const W& w, i64 i, i64 j) { return i >= 0 && j >= 0 && i < (i64)g.nx && j < (i64)g.ny && w[i * g.ny + j]; };
  for (i64 i = 0; i <= (i64)g.nx; ++i) for (i64 j = 0; j <= (i64)g.ny; ++j) { bool x = at(a, i, j) || at(a, i - 1, j) || at(a, i, j - 1) || at(a, i - 1, j - 1), y = at(b, i, j) || at(b, i - 1, j) || at(b, i, j - 1) || at(b, i - 1, j - 1); if (x && y) return true; }
  return false;
}
// Shared driver: objs are inserted in a random order, possibly with an extraction in between and through copies of the extractor.
template <class CE, class Ins> void drive(Ctx& c, const std::string& key, int n, Ins ins, const std::function<int(int, int)>& want) {
  Rng& r = c.rng; std::vector<int> ord(n); for (int i = 0; i < n; ++i) ord[i] = i; if (r.chance(1, 2)) for (int i = n - 1; i > 0; --i) std::swap(ord[i], ord[r.below(i + 1)]);
  int cut = r.chance(1, 4) ? r.below(n + 1) : -1, cpy = r.chance(1, 4) ? r.below(n + 1) : -1; bool useMap = r.chance(1, 3);
  CE* ce = new CE; std::unique_ptr<CE> own(ce);
  auto judge = [&](int upto) {
    Graph g(upto); 
    if (useMap) { std::map<int, std::set<int> > m; own->extract(m); for (auto& e : m) { if (!c.check(e.first >= 0 && e.first < upto, key + ":id", "unknown id " + std::to_string(e.first) + " in the graph")) return false; g[e.first] = e.second; } } else own->extract(g);
    if (!c.check((int)g.size() == upto, key + ":id", "graph was resized")) return false;
    i64 links = 0;
    for (int i = 0; i < upto; ++i) {
      for (int j : g[i]) if (!c.check(j >= 0 && j < upto && j != i && g[j].count(i), key + ":symmetry", "edge " + std::to_string(i) + "-" + std::to_string(j) + " loops, is one-sided or unknown; graph: " + str(g))) return false;
      for (int j = 0; j < upto; ++j) if (j != i) { int w = want(ord[i], ord[j]); int h = (int)g[i].count(j); links += h; c.count("pairs judged"); if (w >= 0 && !c.check(w == h, key + (w ? ":missing" : ":extra"), "objects " + std::to_string(ord[i]) + " and " + std::to_string(ord[j]) + (w ? " touch but are not linked" : " do not touch but are linked") + "; graph in insertion order: " + str(g))) return false; }
    }
    c.count("links", links / 2);
    return true;
  };
  for (int i = 0; i < n; ++i) {
    if (i == cpy) { std::unique_ptr<CE> o; if (r.chance(1, 2)) o.reset(new CE(*own)); else { o.reset(new CE); *o = *own; } own.swap(o); c.count("extractor copies"); }
    if (i == cut) { if (!judge(i)) return; c.count("partial extractions"); }
    int id = (int)ins(*own, ord[i]); if (!c.check(id == i, key + ":ids", "object inserted as number " + std::to_string(i) + " got id " + std::to_string(id))) return;
  }
  judge(n);
  if (r.chance(1, 4)) { judge(n); c.count("repeated extractions"); }
}
static std::string strObjs(const std::vector<Items>& v) { std::string s; for (size_t i = 0; i < v.size(); ++i) s += " #" + std::to_string(i) + strv(v[i]); return s; }
static u64 hashObjs(const std::vector<Items>& v) { Hash h; for (auto& x : v) { h.add(99); h.add(hashPolys(polysOf(x))); } return h.h; }
#if PART == 0
template <class C> void conn90(Ctx& c) {
  Rng& r = c.rng; typedef bp::polygon_90_set_data<C> S; i64 lo = sizeof(C) > 4 ? -(1LL << 30) : std::numeric_limits<C>::min(), hi = sizeof(C) > 4 ? 1LL << 30 : std::numeric_limits<C>::max();
  Range q = pickRange(r, lo, hi, true); Scene sc = genScene(r, q, r.chance(1, 8) ? 14 : 9); int n = r.chance(1, 10) ? r.below(3) : 2 + r.below(7);
  std::vector<Items> o(n); std::vector<int> form(n); for (int i = 0; i < n; ++i) { o[i] = genItems(r, sc, r.chance(1, 3) ? 4 : 1, true, r.chance(1, 4), false); form[i] = r.below(6); if (form[i] == 5 && (o[i].size() != 1 || o[i][0].p.holes.size() || o[i][0].hole)) form[i] = 0; }
  bool mixed = r.chance(1, 2), base = r.chance(1, 2); std::vector<char> ori(n); for (int i = 0; i < n; ++i) ori[i] = mixed ? r.below(2) : base;
  c.desc = "conn90" + strObjs(o) + " orient="; for (int i = 0; i < n; ++i) c.desc += std::string(ori[i] ? "V" : "H") + std::to_string(form[i]);
  Grid g; for (auto& v : o) addc(g, v); g.seal(); std::vector<W> m; for (auto& v : o) m.push_back(positive(rasterItems(g, v)));
  drive<bp::connectivity_extraction_90<C> >(c, "conn90", n, [&](bp::connectivity_extraction_90<C>& ce, int k) -> unsigned {
    S s(ori[k] ? bp::VERTICAL : bp::HORIZONTAL); for (auto& i : o[k]) insertItem(s, i);
    if (form[k] == 1) s.clean();
    if (form[k] == 2) { std::vector<bp::polygon_90_with_holes_data<C> > w; s.get(w); S t(s.orient()); for (auto& p : w) t.insert(p); return ce.insert(t); }
    if (form[k] == 3) { std::vector<bp::rectangle_data<C> > w; s.get(w); S t; bp::assign(t, w); return ce.insert(t); }
    if (form[k] == 5) return ce.insert(to90<C>(o[k][0].p.outer));
    return ce.insert(s);
  }, [&](int i, int j) { return (int)shareCorner(g, m[i], m[j]); });
  if (n > 1) c.nontrivial(hashObjs(o));
}
#elif PART == 1
template <class C> void conn45(Ctx& c, bool off) {
  Rng& r = c.rng; typedef bp::polygon_45_set_data<C> S; Scene45 sc = genScene45(r, off, sizeof(C) > 4 ? -(1LL << 41) : std::numeric_limits<C>::min(), sizeof(C) > 4 ? 1LL << 41 : std::numeric_limits<C>::max());
  int n = r.chance(1, 10) ? r.below(3) : 2 + r.below(6); std::vector<Items> o(n); std::vector<int> form(n); std::vector<std::vector<Poly> > reg(n);
  for (int i = 0; i < n; ++i) { o[i] = genItems45(r, sc, r.chance(1, 3) ? 3 : 1, true, false); form[i] = r.below(5); reg[i] = polysOf(o[i]); }
  c.desc = "conn45" + strObjs(o);
  drive<bp::connectivity_extraction_45<C> >(c, "conn45", n, [&](bp::connectivity_extraction_45<C>& ce, int k) -> unsigned {
    S s; for (auto& i : o[k]) insertItem45(s, i);
    if (form[k] == 1) s.clean();
    if (form[k] == 2) { std::vector<bp::polygon_45_with_holes_data<C> > w; s.get(w); return ce.insert(w); }
    if (form[k] == 3) { std::vector<bp::polygon_45_data<C> > w; s.get(w); return ce.insert(w); }
    if (form[k] == 4 && o[k].size() == 1) return o[k][0].form == 1 ? ce.insert(to45<C>(o[k][0].p.outer)) : ce.insert(to45h<C>(o[k][0].p));
    return ce.insert(s);
  }, [&](int i, int j) { bool t = contact(reg[i], reg[j]); if (!off) return (int)t; if (t) return 1; return gap(reg[i], reg[j]) > 2 ? 0 : -1; });
  if (n > 1) c.nontrivial(hashObjs(o));
}
#else
template <class C> void connG(Ctx& c, bool lattice) {
  Rng& r = c.rng; typedef bp::polygon_set_data<C> S; SceneG sc = genSceneG(r, 1LL << 27); Scene45 q; i64 B = 1 << 19; if (lattice) q = genScene45(r, false, -B, B);
  int n = r.chance(1, 10) ? r.below(3) : 2 + r.below(6); std::vector<Items> o(n); std::vector<int> form(n); std::vector<std::vector<Poly> > reg(n);
  for (int i = 0; i < n; ++i) { int k = r.chance(1, 3) ? 3 : 1; o[i] = lattice ? genItems45(r, q, k, true, false) : genItemsG(r, sc, k, true, false); form[i] = r.below(5); reg[i] = polysOf(o[i]); }
  c.desc = "connG" + strObjs(o);
  // thin features may legitimately collapse when they are snapped to the grid: only an overlap deeper than the tolerance has to be linked
  auto deep = [&](int i, int j) { Arr a; for (auto& p : reg[i]) a.poly(p, 2, 1); for (auto& p : reg[j]) a.poly(p, 3, 1); a.nlab = 4; a.finish(); std::vector<Poly> all(reg[i]); all.insert(all.end(), reg[j].begin(), reg[j].end()); bool d = false;
    a.sweep([&](const Arr::Cell& q) { if (!d && q.w[2] > 0 && q.w[3] > 0 && cellReach(q, all) > 2) d = true; }); return d; };
  drive<bp::connectivity_extraction<C> >(c, "connG", n, [&](bp::connectivity_extraction<C>& ce, int k) -> unsigned {
    S s; for (auto& i : o[k]) insertItemGen(s, i);
    if (form[k] == 1) s.clean();
    if (form[k] == 2) { std::vector<bp::polygon_with_holes_data<C> > w; s.get(w); S t; for (auto& p : w) t.insert(p); return ce.insert(t); }
    if (form[k] == 3) { std::vector<bp::polygon_data<C> > w; s.get(w); S t; bp::assign(t, w); return ce.insert(t); }
    if (form[k] == 4 && o[k].size() == 1) return o[k][0].form == 1 ? ce.insert(toGen<C>(o[k][0].p.outer)) : ce.insert(toGenh<C>(o[k][0].p));
    return ce.insert(s);
  }, [&](int i, int j) { bool t = contact(reg[i], reg[j]); if (lattice) return (int)t; if (t && deep(i, j)) { c.count("deep overlaps"); return 1; } return !t && gap(reg[i], reg[j]) > 3 ? 0 : -1; });
  if (n > 1) c.nontrivial(hashObjs(o));
}
#endif
std::vector<Family> families() {
  std::vector<Family> f;
#if PART == 0
  f.push_back({"conn90-int", [](Ctx& c) { conn90<int>(c); }, 60000, 3000000});
  f.push_back({"conn90-i64", [](Ctx& c) { conn90<long long>(c); }, 20000, 800000});
#elif PART == 1
  f.push_back({"conn45-int", [](Ctx& c) { conn45<int>(c, false); }, 40000, 1500000});
  f.push_back({"conn45off-int", [](Ctx& c) { conn45<int>(c, true); }, 20000, 800000});
  f.push_back({"conn45-i64", [](Ctx& c) { conn45<long long>(c, false); }, 10000, 400000});
#else
  f.push_back({"connG-int", [](Ctx& c) { connG<int>(c, false); }, 20000, 900000});
  f.push_back({"connGlat-int", [](Ctx& c) { connG<int>(c, true); }, 20000, 900000});
#endif
  return f;
}
}
VF_MAIN()
