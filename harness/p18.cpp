// P18: Voronoi construction depends only on the set of sites.
#include <memory>
#include "vor.hpp"
namespace vf {
typedef bp::default_voronoi_builder VB; typedef bp::point_data<int> VP; typedef bp::segment_data<int> VS;
struct It { bool seg; P a, b; };
static std::string istr(const std::vector<It>& v) { std::string s; for (auto& i : v) s += (i.seg ? "s" : "p") + std::string("(") + std::to_string(i.a.x) + "," + std::to_string(i.a.y) + (i.seg ? ";" + std::to_string(i.b.x) + "," + std::to_string(i.b.y) : "") + ")"; return s; }
typedef std::pair<std::pair<i64, i64>, std::pair<i64, i64> > SK;
static SK skey(P a, P b) { if (std::make_pair(b.x, b.y) < std::make_pair(a.x, a.y)) std::swap(a, b); return SK(std::make_pair(a.x, a.y), std::make_pair(b.x, b.y)); }
struct CEdge { SK a, b; bool prim, lin, i0, i1; double x0, y0, x1, y1;
  bool operator<(const CEdge& o) const { return std::tie(a, b, prim, lin, i0, i1, x0, y0, x1, y1) < std::tie(o.a, o.b, o.prim, o.lin, o.i0, o.i1, o.x0, o.y0, o.x1, o.y1); } };
struct Canon { std::vector<SK> cells; std::vector<std::pair<double, double> > vs; std::vector<CEdge> es; std::vector<bool> empty; };
static bool canon(Ctx& c, const std::vector<It>& in, const VD& vd, Canon& k, const std::string& who) {
  std::vector<SK> st;
  for (auto& x : vd.cells()) {
    std::size_t i = x.source_index(); if (i >= in.size()) { c.fail("source-index", who + ": cell names input " + std::to_string(i)); return false; } const It& t = in[i]; bool ok = true; SK s;
    switch (x.source_category()) {
      case bp::SOURCE_CATEGORY_SINGLE_POINT: ok = !t.seg; s = skey(t.a, t.a); break;
      case bp::SOURCE_CATEGORY_SEGMENT_START_POINT: ok = t.seg; s = skey(t.a, t.a); break;
      case bp::SOURCE_CATEGORY_SEGMENT_END_POINT: ok = t.seg; s = skey(t.b, t.b); break;
      case bp::SOURCE_CATEGORY_INITIAL_SEGMENT: case bp::SOURCE_CATEGORY_REVERSE_SEGMENT: ok = t.seg && (std::make_pair(t.a.x, t.a.y) < std::make_pair(t.b.x, t.b.y)) == (x.source_category() == bp::SOURCE_CATEGORY_INITIAL_SEGMENT); s = skey(t.a, t.b); break;
      default: ok = false; }
    if (!ok) { c.fail("source-category", who + ": category " + std::to_string((int)x.source_category()) + " for input " + std::to_string(i)); return false; }
    st.push_back(s); k.cells.push_back(s);
  }
  auto cx = [&](const bp::voronoi_edge<double>& e) { return st[e.cell() - &vd.cells()[0]]; };
  for (auto& e : vd.edges()) { CEdge q; q.a = cx(e); q.b = cx(*e.twin()); q.prim = e.is_primary(); q.lin = e.is_linear(); q.i0 = !e.vertex0(); q.i1 = !e.vertex1(); q.x0 = q.i0 ? 0 : e.vertex0()->x(); q.y0 = q.i0 ? 0 : e.vertex0()->y(); q.x1 = q.i1 ? 0 : e.vertex1()->x(); q.y1 = q.i1 ? 0 : e.vertex1()->y(); k.es.push_back(q); }
  for (auto& v : vd.vertices()) k.vs.push_back(std::make_pair(v.x(), v.y()));
  std::sort(k.cells.begin(), k.cells.end()); for (size_t i = 1; i < k.cells.size(); ++i) if (k.cells[i] == k.cells[i - 1]) { c.fail("duplicate-cell", who + ": two cells for one site"); return false; }
  std::sort(k.es.begin(), k.es.end()); return true;
}
static bool near(double a, double b, double m) { return std::fabs(a - b) <= 1e-9 * m; }
static bool same(Ctx& c, const Canon& p, const Canon& q, const std::string& who) {
  if (p.cells != q.cells) { c.fail("cells-differ", who + ": " + std::to_string(p.cells.size()) + " and " + std::to_string(q.cells.size()) + " cells, or other sites"); return false; }
  if (p.vs.size() != q.vs.size() || p.es.size() != q.es.size()) { c.fail("counts-differ", who + ": vertices " + std::to_string(p.vs.size()) + "/" + std::to_string(q.vs.size()) + " edges " + std::to_string(p.es.size()) + "/" + std::to_string(q.es.size())); return false; }
  for (size_t i = 0; i < p.es.size(); ++i) { const CEdge &e = p.es[i], &f = q.es[i]; double m = std::max(std::max(std::fabs(e.x0), std::fabs(e.y0)), std::max(std::fabs(e.x1), std::fabs(e.y1))) + 1e-300;
    if (!(e.a == f.a && e.b == f.b && e.prim == f.prim && e.lin == f.lin && e.i0 == f.i0 && e.i1 == f.i1 && near(e.x0, f.x0, m) && near(e.y0, f.y0, m) && near(e.x1, f.x1, m) && near(e.y1, f.y1, m))) { c.fail("edges-differ", who + ": edge " + std::to_string(i) + " of the canonical order differs"); return false; } }
  c.count("diagrams compared"); c.count("edges compared", (i64)p.es.size()); return true;
}
static void feed(Ctx& c, VB& b, const std::vector<It>& in, size_t base, bool freeFn) {
  for (size_t i = 0; i < in.size(); ++i) { const It& t = in[i]; std::size_t k;
    if (t.seg) k = freeFn ? bp::insert(VS(VP((int)t.a.x, (int)t.a.y), VP((int)t.b.x, (int)t.b.y)), &b) : b.insert_segment((int)t.a.x, (int)t.a.y, (int)t.b.x, (int)t.b.y);
    else k = freeFn ? bp::insert(VP((int)t.a.x, (int)t.a.y), &b) : b.insert_point((int)t.a.x, (int)t.a.y);
    if (k != base + i) { c.fail("insert-index", "insertion " + std::to_string(base + i) + " returned " + std::to_string(k)); return; } }
}
static void shuffle(Rng& r, std::vector<It>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below((int)i)]); }
static void run(Ctx& c, bool segs, int maxN) {
  Rng& r = c.rng; VGen G(r); VIn in = G.gen(segs, maxN); std::vector<It> v; for (auto& p : in.pts) v.push_back(It{false, p, p}); for (auto& s : in.segs) v.push_back(It{true, s.first, s.second}); if (r.chance(1, 40)) v.resize(std::min<size_t>(v.size(), r.below(3)));
  c.desc = istr(v); VB b0; feed(c, b0, v, 0, false); VD d0; b0.construct(&d0); Canon k0; if (!canon(c, v, d0, k0, "reference")) return;
  if (v.empty()) c.check(d0.num_cells() == 0 && d0.num_edges() == 0 && d0.num_vertices() == 0, "empty", "no input gave elements");
  { std::set<SK> want; for (auto& t : v) { want.insert(skey(t.a, t.a)); want.insert(skey(t.b, t.b)); if (t.seg) want.insert(skey(t.a, t.b)); } if (want.size() != k0.cells.size() || !std::equal(want.begin(), want.end(), k0.cells.begin())) { c.fail("site-set", "cells are not the sites of the input"); return; } }
  // another order, other directions, duplicates
  { std::vector<It> w = v; if (r.chance(2, 3)) for (auto& t : w) if (t.seg && r.chance(1, 2)) std::swap(t.a, t.b);
    if (r.chance(1, 2)) for (int n = 1 + r.below(4); n > 0 && !v.empty(); --n) { It t = v[r.below((int)v.size())]; w.push_back(It{false, r.chance(1, 2) ? t.a : t.b, P(0, 0)}); w.back().b = w.back().a; }
    if (r.chance(3, 4)) shuffle(r, w); else std::reverse(w.begin(), w.end());
    c.desc = istr(v) + " / " + istr(w); VB b; feed(c, b, w, 0, r.chance(1, 2)); VD d; b.construct(&d); Canon k; if (!canon(c, w, d, k, "permuted") || !same(c, k0, k, "permuted")) return; c.count("permutations");
    // the same builder and diagram again
    int mode = r.below(5); Canon k2; std::string who = "reuse mode " + std::to_string(mode);
    if (mode == 0) { b.clear(); feed(c, b, v, 0, false); d.clear(); b.construct(&d); if (!canon(c, v, d, k2, who) || !same(c, k0, k2, who)) return; }
    else if (mode == 1) { d.clear(); b.construct(&d); if (!canon(c, w, d, k2, who) || !same(c, k0, k2, who)) return; }
    else if (mode == 2) { VD d2; b.construct(&d2); if (!canon(c, w, d2, k2, who) || !same(c, k0, k2, who)) return; }
    else if (mode == 3 && !w.empty()) { // part, construct, rest
      size_t cut = r.below((int)w.size() + 1); std::vector<It> first(w.begin(), w.begin() + cut), rest(w.begin() + cut, w.end()); VB b3; feed(c, b3, first, 0, false); VD d3; b3.construct(&d3); VB bp_; feed(c, bp_, first, 0, false); VD dp; bp_.construct(&dp); Canon ka, kb; if (!canon(c, first, d3, ka, "part") || !canon(c, first, dp, kb, "part") || !same(c, ka, kb, "part")) return;
      feed(c, b3, rest, cut, r.chance(1, 2)); d3.clear(); b3.construct(&d3); if (!canon(c, w, d3, k2, who) || !same(c, k0, k2, who)) return; }
    else { // unrelated work in between
      VGen G2(r); VIn o = G2.gen(segs, 10); b.clear(); d.clear(); for (auto& p : o.pts) b.insert_point((int)p.x, (int)p.y); for (auto& s : o.segs) b.insert_segment((int)s.first.x, (int)s.first.y, (int)s.second.x, (int)s.second.y); b.construct(&d); b.clear(); d.clear(); feed(c, b, v, 0, true); b.construct(&d); if (!canon(c, v, d, k2, who) || !same(c, k0, k2, who)) return; }
    c.count("reuses"); }
  // free functions over ranges
  { std::vector<VP> ps; std::vector<VS> ss; std::vector<It> w; for (auto& t : v) if (!t.seg) { ps.push_back(VP((int)t.a.x, (int)t.a.y)); w.push_back(t); }
    for (auto t : v) if (t.seg) { ss.push_back(VS(VP((int)t.a.x, (int)t.a.y), VP((int)t.b.x, (int)t.b.y))); w.push_back(t); }
    VD d; int mode = r.below(3); if (ss.empty() && mode) bp::construct_voronoi(ps.begin(), ps.end(), &d); else if (ps.empty() && mode) bp::construct_voronoi(ss.begin(), ss.end(), &d); else if (mode == 2) { VB b; bp::insert(ps.begin(), ps.end(), &b); bp::insert(ss.begin(), ss.end(), &b); b.construct(&d); } else bp::construct_voronoi(ps.begin(), ps.end(), ss.begin(), ss.end(), &d);
    Canon k; if (!canon(c, w, d, k, "free functions") || !same(c, k0, k, "free functions")) return; c.count("free function constructions"); }
  if (k0.cells.size() > 1) c.nontrivial(in.hash());
}
std::vector<Family> families() {
  std::vector<Family> f;
  f.push_back({"points", [](Ctx& c) { run(c, false, 30); }, 30000, 800000});
  f.push_back({"segments", [](Ctx& c) { run(c, true, 20); }, 30000, 800000});
  f.push_back({"many", [](Ctx& c) { run(c, c.rng.chance(1, 2), 150); }, 300, 10000});
  return f;
}
}
VF_MAIN()
