// Voronoi inputs and exact helpers.
#ifndef VERIF_VOR_HPP
#define VERIF_VOR_HPP
#include <map>
#include <boost/polygon/voronoi.hpp>
#include "scene45.hpp"
#include "sceneg.hpp"
namespace vf {
typedef std::pair<P, P> SG;
typedef bp::voronoi_diagram<double> VD;
inline int vsgn(i128 v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
inline int vori(P a, P b, P c) { return vsgn((i128)(b.x - a.x) * (c.y - a.y) - (i128)(b.y - a.y) * (c.x - a.x)); }
inline bool vbox(P a, P b, P c) { return std::min(a.x, b.x) <= c.x && c.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= c.y && c.y <= std::max(a.y, b.y); }
inline bool von(P a, P b, P c) { return vori(a, b, c) == 0 && vbox(a, b, c); }
inline bool vinner(P a, P b, P c) { return von(a, b, c) && !(c == a) && !(c == b); }
// legal neighbours: disjoint or meeting at shared endpoints only
inline bool vlegal(SG s, SG t) {
  P a = s.first, b = s.second, c = t.first, d = t.second;
  if ((a == c && b == d) || (a == d && b == c)) return false;
  if (vinner(a, b, c) || vinner(a, b, d) || vinner(c, d, a) || vinner(c, d, b)) return false;
  return !(vori(a, b, c) * vori(a, b, d) < 0 && vori(c, d, a) * vori(c, d, b) < 0);
}
struct VIn { std::vector<P> pts; std::vector<SG> segs; i64 span; std::string kind;
  std::string str() const { std::string w = kind + " pts:"; for (auto& p : pts) w += "(" + std::to_string(p.x) + "," + std::to_string(p.y) + ")"; w += " segs:"; for (auto& s : segs) w += "(" + std::to_string(s.first.x) + "," + std::to_string(s.first.y) + ";" + std::to_string(s.second.x) + "," + std::to_string(s.second.y) + ")"; return w; }
  u64 hash() const { Hash h; for (auto& p : pts) { h.add((u64)p.x); h.add((u64)p.y); } h.add(0x5e6); for (auto& s : segs) { h.add((u64)s.first.x); h.add((u64)s.first.y); h.add((u64)s.second.x); h.add((u64)s.second.y); } return h.h; } };
static const i64 LO = -2147483648LL, HI = 2147483647LL;
struct VGen {
  Rng& r; i64 s, ox, oy; int mode; std::vector<P> pool;

  VGen(Rng& r_) : r(r_) {
    static const i64 sizes[8] = {2, 4, 8, 20, 100, 10000, 1 << 20, 1 << 28}; s = sizes[r.below(8)]; mode = r.below(4); ox = oy = 0;
    switch (r.below(6)) { case 0: ox = oy = -s / 2; break; case 1: if (s < (1 << 20)) { ox = r.range(-1000000000, 1000000000); oy = r.range(-1000000000, 1000000000); } break; case 2: s = HI - LO; ox = LO; oy = LO; break; case 3: ox = LO; oy = HI - s; break; default: break; }
    int n = 3 + r.below(8); for (int i = 0; i < n; ++i) pool.push_back(raw());
  }
  P clamp(P p) { return P(std::max(LO, std::min(HI, p.x)), std::max(LO, std::min(HI, p.y))); }
  P raw() { return clamp(P(ox + r.range(0, s), oy + r.range(0, s))); }
  // With segments, alignments that miss by a few units at large coordinates
  // give simultaneous sweep events that double precision cannot order
  // (see DESIGN.md, known findings); such inputs keep exact alignments only.
  bool exactOnly = false;
  P pt() {
    switch (r.below(mode == 0 ? 1 : 6)) { case 0: case 1: return raw(); case 2: { P a = pool[r.below((int)pool.size())]; if (exactOnly) return a; return clamp(P(a.x + r.range(-2, 2), a.y + r.range(-2, 2))); } case 3: { P a = pool[r.below((int)pool.size())], b = pool[r.below((int)pool.size())]; return clamp(P(a.x, b.y)); }
      case 4: { P a = pool[r.below((int)pool.size())], b = pool[r.below((int)pool.size())]; i64 k = r.range(1, 3); if (exactOnly) return raw(); return clamp(P(a.x + (b.x - a.x) / 4 * k, a.y + (b.y - a.y) / 4 * k)); } default: return pool[r.below((int)pool.size())]; }
  }
  void addSeg(VIn& in, SG t) {
    if (t.first == t.second) return;
    for (auto& q : in.segs) if (!vlegal(q, t)) return;
    for (auto& p : in.pts) if (vinner(t.first, t.second, p)) return;
    in.segs.push_back(t);
  }
  void addPt(VIn& in, P p) { for (auto& q : in.segs) if (vinner(q.first, q.second, p)) return; in.pts.push_back(p); }
  VIn gen0(bool segs, int maxN) {
    VIn in; int n = r.below(4) ? 1 + r.below(8) : r.below(maxN + 1); int kind = r.below(10); in.span = s;
    // the same holds for small figures at large offsets
    if (segs && std::max(std::max(std::abs(ox), std::abs(oy)), std::max(std::abs(ox + s), std::abs(oy + s))) > 4096 * s) { ox %= 4000 * s; oy %= 4000 * s; for (auto& p : pool) p = raw(); }
    { i64 far = std::max(std::max(std::abs(ox), std::abs(oy)), std::max(std::abs(ox + s), std::abs(oy + s))); exactOnly = segs && far > (1LL << 41) / s; } if (exactOnly && kind == 8) kind = 1;
    if (!segs || kind == 0) {
      switch (r.below(6)) {
        case 0: { in.kind = "grid"; int w = 1 + r.below(5), h = 1 + r.below(5); i64 dx = std::max<i64>(1, s / 5), dy = r.chance(1, 2) ? dx : std::max<i64>(1, s / 7); for (int i = 0; i < w; ++i) for (int j = 0; j < h; ++j) in.pts.push_back(clamp(P(ox + i * dx, oy + j * dy))); break; }
        case 1: { in.kind = "circle"; static const int c[12][2] = {{25, 0}, {0, 25}, {7, 24}, {24, 7}, {15, 20}, {20, 15}, {-25, 0}, {0, -25}, {-7, 24}, {24, -7}, {-15, 20}, {20, -15}}; i64 k = std::max<i64>(1, s / 60); P m = raw(); for (int i = 0; i < n; ++i) { int j = r.below(12), f = r.below(2) ? 1 : -1; in.pts.push_back(clamp(P(m.x + f * c[j][0] * k, m.y + c[j][1] * k))); } if (r.chance(1, 3)) in.pts.push_back(m); break; }
        case 2: { in.kind = "line"; P a = raw(), b = raw(); i64 dx = (b.x - a.x) / (n + 1), dy = (b.y - a.y) / (n + 1); if (r.chance(1, 3)) dx = 0; else if (r.chance(1, 3)) dy = 0; for (int i = 0; i < n; ++i) in.pts.push_back(clamp(P(a.x + i * dx, a.y + i * dy))); if (r.chance(1, 3)) in.pts.push_back(pt()); break; }
        default: in.kind = "points"; for (int i = 0; i < n; ++i) in.pts.push_back(pt());
      }
      if (r.chance(1, 3)) for (int i = 1 + r.below(4); i > 0; --i) in.pts.push_back(pt());
    }
    if (segs) {
      int np = r.below(3) ? 0 : r.below(5);
      if (s >= 10000 && s <= (1 << 20) && r.chance(1, 6)) { in.kind += "steep"; kind = -1; for (int i = 0; i < 2 * n && (int)in.segs.size() < n; ++i) { P b = pt(); i64 dx = r.range(0, 4), dy = r.range(s / 8, s) * (r.chance(2, 3) ? -1 : 1); if (r.chance(1, 5)) std::swap(dx, dy); SG q(b, clamp(P(b.x + dx, b.y + dy))); if (r.chance(1, 2)) std::swap(q.first, q.second); addSeg(in, q); } np = r.below(5); }
      switch (kind) {
        case 0: case 1: case 2: in.kind += "segments"; for (int i = 0; i < 2 * n && (int)in.segs.size() < n; ++i) addSeg(in, SG(pt(), pt())); break;
        case 3: { in.kind += "chain"; P a = pt(); for (int i = 0; i < n; ++i) { P b = pt(); size_t k = in.segs.size(); addSeg(in, SG(a, b)); if (in.segs.size() > k) { if (r.chance(1, 2)) std::swap(in.segs.back().first, in.segs.back().second); a = b; } } break; }
        case 4: { in.kind += "star"; P a = pt(); for (int i = 0; i < n; ++i) { SG q(a, pt()); if (r.chance(1, 2)) std::swap(q.first, q.second); addSeg(in, q); } break; }
        case 5: { in.kind += "parallel"; P a = raw(); i64 dx = r.range(-3, 3) * std::max<i64>(1, s / 8), dy = r.range(-3, 3) * std::max<i64>(1, s / 8); for (int i = 0; i < n; ++i) { P b = pt(); addSeg(in, SG(b, clamp(P(b.x + dx, b.y + dy)))); } (void)a; break; }
        case 6: { in.kind += "ring"; SceneG sc; sc.x0 = ox; sc.y0 = oy; sc.s = std::min<i64>(s, HI - std::max(ox, oy)); if (sc.s < 3) sc.s = 3; sc.mode = 1; sc.pool = pool; for (auto& p : sc.pool) { p.x = std::max(ox, std::min(ox + sc.s, p.x)); p.y = std::max(oy, std::min(oy + sc.s, p.y)); } int m = 1 + r.below(2); for (int j = 0; j < m; ++j) { Ring g2 = genRingG(r, sc); for (size_t i = 0; i < g2.size(); ++i) addSeg(in, SG(clamp(g2[i]), clamp(g2[(i + 1) % g2.size()]))); } break; }
        case 7: { in.kind += "rectilinear"; for (int i = 0; i < 2 * n && (int)in.segs.size() < n; ++i) { P a = pt(), b = pt(); if (r.below(2)) b.x = a.x; else b.y = a.y; addSeg(in, SG(a, b)); } break; }
        case 8: { in.kind += "fan"; P a = raw(); for (int i = 0; i < n; ++i) { P b = clamp(P(a.x + s, a.y + r.range(-3, 3))); addSeg(in, SG(a, b)); } break; }
        default: { in.kind += "collinear"; P a = raw(); i64 dx = r.range(-2, 2) * std::max<i64>(1, s / 40), dy = r.range(-2, 2) * std::max<i64>(1, s / 40); for (int i = 0; i < n; ++i) { i64 k = r.range(0, 12), l = k + r.range(1, 3); addSeg(in, SG(clamp(P(a.x + k * dx, a.y + k * dy)), clamp(P(a.x + l * dx, a.y + l * dy)))); } break; }
      }
      for (int i = 0; i < np; ++i) addPt(in, pt());
    }
    return in;
  }
  // Moves some scenes so that a vertex of their diagram has a zero coordinate
  // (nearly half of the vertices of these scenes are at multiples of 1/2).
  VIn gen(bool segs, int maxN) {
    VIn in = gen0(segs, maxN); if (!r.chance(1, 3)) return in;
    VD vd; { bp::default_voronoi_builder b; for (auto& p : in.pts) b.insert_point((int)p.x, (int)p.y); for (auto& q : in.segs) b.insert_segment((int)q.first.x, (int)q.first.y, (int)q.second.x, (int)q.second.y); b.construct(&vd); }
    if (vd.num_vertices() == 0) return in;
    i64 far = 0; auto all = [&](P p) { far = std::max(far, std::max(std::abs(p.x), std::abs(p.y))); }; for (auto& p : in.pts) all(p); for (auto& q : in.segs) { all(q.first); all(q.second); } i64 old = std::min(far, HI); far = 0;
    const auto& v = vd.vertices()[r.below((int)vd.num_vertices())]; if (!(std::fabs(v.x()) < 1e10 && std::fabs(v.y()) < 1e10)) return in;
    i64 dx = (i64)std::floor(v.x() + 0.5), dy = (i64)std::floor(v.y() + 0.5); switch (r.below(3)) { case 0: dx = 0; break; case 1: dy = 0; break; default: break; }
    VIn o = in; o.kind += "-zero"; auto mv = [&](P& p) { p = P(p.x - dx, p.y - dy); all(p); }; for (auto& p : o.pts) mv(p); for (auto& q : o.segs) { mv(q.first); mv(q.second); }
    return far <= old ? o : in;
  }
  // One to four sites, mostly axis-parallel segments.
  VIn tiny() {
    VIn in; in.kind = "tiny"; in.span = s; int n = 2 + r.below(3); if (s < 20) s = 20 << r.below(6); if (s > (1LL << 31)) s = 1LL << (5 + r.below(26)); ox = oy = 0; exactOnly = false;
    for (int i = 0; i < 4 * n && (int)in.segs.size() < n; ++i) { P a = raw(), b = raw(); switch (r.below(8)) { case 0: break; case 1: b = P(a.x + (b.y - a.y), b.y); break; case 2: if (i) addPt(in, a); --n; continue; case 3: case 4: b.x = a.x; break; default: b.y = a.y; } addSeg(in, SG(a, clamp(b))); }
    return in;
  }
  // the scene moved so that point v has a coordinate that is zero or small
  bool recentre(VIn& o, const VIn& in, double vx, double vy) {
    if (!(std::fabs(vx) < 4e9 && std::fabs(vy) < 4e9)) return false;
    i64 dx = (i64)std::floor(vx + 0.5), dy = (i64)std::floor(vy + 0.5), q = r.chance(1, 2) ? 0 : std::max<i64>(1, s / 100); if (q) { dx += r.range(-q, q); dy += r.range(-q, q); } switch (r.below(4)) { case 0: dx = 0; break; case 1: dy = 0; break; default: break; }
    o = in; bool ok = true; auto mv = [&](P& p) { p = P(p.x - dx, p.y - dy); ok = ok && p.x >= LO && p.x <= HI && p.y >= LO && p.y <= HI; }; for (auto& p : o.pts) mv(p); for (auto& q2 : o.segs) { mv(q2.first); mv(q2.second); } return ok;
  }
};
// a site of the diagram
struct Site { bool seg; P a, b; };
struct XY { ld x, y; };
inline ld vd2(XY q, P p) { ld dx = q.x - p.x, dy = q.y - p.y; return dx * dx + dy * dy; }
inline ld vdist(XY q, P p) { return hypotl(q.x - p.x, q.y - p.y); }
// position of the projection of q on the line a-b, 0 at a and 1 at b
inline ld vparam(XY q, P a, P b) { ld dx = (ld)b.x - a.x, dy = (ld)b.y - a.y; return ((q.x - a.x) * dx + (q.y - a.y) * dy) / (dx * dx + dy * dy); }
inline ld vline(XY q, P a, P b) { ld dx = (ld)b.x - a.x, dy = (ld)b.y - a.y; return fabsl(((q.x - a.x) * dy - (q.y - a.y) * dx) / hypotl(dx, dy)); }
inline ld vdistS(XY q, P a, P b) { ld t = vparam(q, a, b); if (t <= 0) return vdist(q, a); if (t >= 1) return vdist(q, b); return vline(q, a, b); }
inline ld vdistSite(XY q, const Site& s) { return s.seg ? vdistS(q, s.a, s.b) : vdist(q, s.a); }
inline ld vnearest(XY q, const VIn& in) { ld m = HUGE_VALL; for (auto& p : in.pts) m = std::min(m, vdist(q, p)); for (auto& s : in.segs) m = std::min(m, vdistS(q, s.first, s.second)); return m; }
template <class PT> PT vpt(P p) { return PT((int)p.x, (int)p.y); }
inline void vbuild(const VIn& in, VD& vd) {
  bp::default_voronoi_builder b; for (auto& p : in.pts) b.insert_point((int)p.x, (int)p.y); for (auto& s : in.segs) b.insert_segment((int)s.first.x, (int)s.first.y, (int)s.second.x, (int)s.second.y); b.construct(&vd);
}
// the input named by a cell, or false
inline bool vsource(const VIn& in, std::size_t idx, bp::SourceCategory cat, Site& s) {
  if (idx < in.pts.size()) { if (cat != bp::SOURCE_CATEGORY_SINGLE_POINT) return false; s.seg = false; s.a = s.b = in.pts[idx]; return true; }
  idx -= in.pts.size(); if (idx >= in.segs.size()) return false; SG g2 = in.segs[idx];
  switch (cat) { case bp::SOURCE_CATEGORY_SEGMENT_START_POINT: s.seg = false; s.a = s.b = g2.first; return true; case bp::SOURCE_CATEGORY_SEGMENT_END_POINT: s.seg = false; s.a = s.b = g2.second; return true;
    case bp::SOURCE_CATEGORY_INITIAL_SEGMENT: case bp::SOURCE_CATEGORY_REVERSE_SEGMENT: { bool fwd = g2.first.x != g2.second.x ? g2.first.x < g2.second.x : g2.first.y < g2.second.y; if (fwd != (cat == bp::SOURCE_CATEGORY_INITIAL_SEGMENT)) return false; s.seg = true; s.a = g2.first; s.b = g2.second; return true; } default: return false; }
}
struct VSites { std::vector<Site> s; };
// every cell names an input, every distinct site has exactly one cell
inline bool vsites(Ctx& c, const VIn& in, const VD& vd, std::vector<Site>& out) {
  std::set<std::pair<std::pair<i64, i64>, std::pair<i64, i64> > > want, got;
  auto key = [](P a, P b) { if (std::make_pair(b.x, b.y) < std::make_pair(a.x, a.y)) std::swap(a, b); return std::make_pair(std::make_pair(a.x, a.y), std::make_pair(b.x, b.y)); };
  for (auto& p : in.pts) want.insert(key(p, p)); for (auto& s : in.segs) { want.insert(key(s.first, s.first)); want.insert(key(s.second, s.second)); want.insert(key(s.first, s.second)); }
  out.clear();
  for (auto& cell : vd.cells()) {
    Site s; if (!vsource(in, cell.source_index(), cell.source_category(), s)) { c.fail("cell-source", "cell names index " + std::to_string(cell.source_index()) + " category " + std::to_string((int)cell.source_category())); return false; }
    if (cell.contains_point() == s.seg || cell.contains_segment() != s.seg) { c.fail("cell-category", "contains_point disagrees with the category"); return false; }
    if (!got.insert(key(s.a, s.b)).second) { c.fail("cell-duplicate", "two cells for one site"); return false; }
    out.push_back(s);
  }
  if (got != want) { c.fail("cell-missing", std::to_string(want.size()) + " sites but " + std::to_string(got.size()) + " cells"); return false; }
  return true;
}
inline bool vendpoint(const Site& a, const Site& b) { // one is a segment, the other its endpoint
  if (a.seg == b.seg) return false; const Site& s = a.seg ? a : b; const Site& p = a.seg ? b : a; return p.a == s.a || p.a == s.b;
}
} // namespace vf
#endif
