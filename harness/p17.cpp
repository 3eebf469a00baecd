// P17: cells of a Voronoi diagram hold exactly the points nearest to their source.
#include "vor.hpp"
namespace vf {
typedef VD::edge_type VE; typedef VD::cell_type VC; typedef VD::vertex_type VV;
static const ld REL = 1e-12L;
inline XY foot(XY q, const Site& s) {
  if (!s.seg) return XY{(ld)s.a.x, (ld)s.a.y}; ld t = vparam(q, s.a, s.b); if (t <= 0) return XY{(ld)s.a.x, (ld)s.a.y}; if (t >= 1) return XY{(ld)s.b.x, (ld)s.b.y};
  return XY{s.a.x + t * ((ld)s.b.x - s.a.x), s.a.y + t * ((ld)s.b.y - s.a.y)};
}
inline ld mag(XY q) { return std::max(fabsl(q.x), fabsl(q.y)); }
inline std::string sx(XY q) { char b[80]; snprintf(b, sizeof b, "(%.20Lg,%.20Lg)", q.x, q.y); return b; }
inline std::string ss(const Site& s) { return s.seg ? "[" + std::to_string(s.a.x) + "," + std::to_string(s.a.y) + ";" + std::to_string(s.b.x) + "," + std::to_string(s.b.y) + "]" : "(" + std::to_string(s.a.x) + "," + std::to_string(s.a.y) + ")"; }
struct Judge {
  Ctx& c; const VIn& in; const VD& vd; std::vector<Site> st; ld ext; i64 edgesN = 0, samplesN = 0, raysN = 0, curvedN = 0, vertN = 0, exactN = 0, transN = 0; ld worstUlp = 0;
  Judge(Ctx& c_, const VIn& i_, const VD& v_) : c(c_), in(i_), vd(v_), ext(1) { for (auto& p : in.pts) ext = std::max(ext, (ld)std::max(std::abs(p.x), std::abs(p.y))); for (auto& s : in.segs) ext = std::max(ext, (ld)std::max(std::max(std::abs(s.first.x), std::abs(s.first.y)), std::max(std::abs(s.second.x), std::abs(s.second.y)))); }
  const Site& site(const VC* x) const { return st[x - &vd.cells()[0]]; }
  // q belongs to both closed cells
  bool shared(const char* key, XY q, const Site& a, const Site& b, ld tol, const std::string& what) {
    ++samplesN; ld m = vnearest(q, in), da = vdistSite(q, a), db = vdistSite(q, b);
    if (da <= m + tol && db <= m + tol) return true;
    c.fail(key, what + " " + sx(q) + ": distances " + std::to_string((double)da) + " to " + ss(a) + " and " + std::to_string((double)db) + " to " + ss(b) + ", nearest site at " + std::to_string((double)m)); return false;
  }
  bool vertices() {
    for (auto& v : vd.vertices()) {
      ++vertN; XY q = {(ld)v.x(), (ld)v.y()}; ld tol = REL * mag(q) + 1e-17L * ext, m = vnearest(q, in); std::set<const VC*> cs; const VE* e = v.incident_edge(), *f = e; size_t deg = 0;
      do { cs.insert(f->cell()); f = f->rot_next(); ++deg; } while (f != e);
      for (auto x : cs) { ld d = vdistSite(q, site(x)); if (!(fabsl(d - m) <= tol)) { c.fail("vertex-distance", "vertex " + sx(q) + " is " + std::to_string((double)d) + " from " + ss(site(x)) + ", nearest site at " + std::to_string((double)m)); return false; } }
      if (in.segs.empty() && deg == 3 && cs.size() == 3) { // exact circumcenter
        auto it = cs.begin(); P p = site(*it++).a, a = site(*it++).a, b = site(*it).a; i128 ax = a.x - p.x, ay = a.y - p.y, bx = b.x - p.x, by = b.y - p.y, den = 2 * (ax * by - ay * bx), a2 = ax * ax + ay * ay, b2 = bx * bx + by * by;
        if (den == 0) { c.fail("vertex-collinear", "vertex of three collinear sites"); return false; }
        i128 nx = p.x * den + (by * a2 - ay * b2), ny = p.y * den + (ax * b2 - bx * a2); ++exactN;
        for (int k = 0; k < 2; ++k) { ld w = (ld)(k ? ny : nx) / (ld)den, g = k ? q.y : q.x; ld err = fabsl(w - g), bound = 66 * 2.2204460492503131e-16L * fabsl(w); if (w != 0) worstUlp = std::max(worstUlp, err / fabsl(w) / 2.2204460492503131e-16L); if (!(err <= bound)) { c.fail("vertex-precision", "vertex " + sx(q) + " of " + ss(Site{false, p, p}) + ss(Site{false, a, a}) + ss(Site{false, b, b}) + ": exact coordinate " + std::to_string((double)w)); return false; } }
      }
    }
    return true;
  }
  bool edges() {
    for (auto& e : vd.edges()) {
      if (&e > e.twin()) { /* judged both ways below */ }
      ++edgesN; const Site &a = site(e.cell()), &b = site(e.twin()->cell()); const VV *v0 = e.vertex0(), *v1 = e.vertex1(); std::string nm = std::string(e.is_curved() ? "curved" : e.is_secondary() ? "secondary" : "linear") + " edge " + std::to_string(&e - &vd.edges()[0]);
      if (!v0 || !v1) {
        ++raysN; if (e.is_curved()) { c.fail("ray-curved", nm + " is infinite"); return false; }
        // direction with the own site on the left
        XY d, base; if (!a.seg && !b.seg) { d = XY{(ld)a.a.y - b.a.y, (ld)b.a.x - a.a.x}; base = XY{((ld)a.a.x + b.a.x) / 2, ((ld)a.a.y + b.a.y) / 2}; }
        else { const Site& s = a.seg ? a : b; P p = (a.seg ? b : a).a; if (a.seg && b.seg) { c.fail("ray-segments", nm + " between two segments is infinite"); return false; } if (!(p == s.a) && !(p == s.b)) { c.fail("ray-point", nm + " between a point and a foreign segment is infinite"); return false; }
          P o = p == s.a ? s.b : s.a; XY u = {(ld)o.x - p.x, (ld)o.y - p.y}; if (!a.seg) { u.x = -u.x; u.y = -u.y; } d = XY{u.y, -u.x}; base = XY{(ld)p.x, (ld)p.y}; }
        // a on the left of d: cross(d, a - b) > 0
        ld len = hypotl(d.x, d.y); d.x /= len; d.y /= len; XY q0 = v0 ? XY{(ld)v0->x(), (ld)v0->y()} : v1 ? XY{(ld)v1->x(), (ld)v1->y()} : base; ld sg = v0 ? 1 : v1 ? -1 : 1;
        for (ld k : {1e-3L, 1.0L, 1e3L}) { ld L = k * (ext + mag(q0)); XY q = {q0.x + sg * d.x * L, q0.y + sg * d.y * L}; if (!shared("ray-distance", q, a, b, REL * 4 * (mag(q) + mag(q0)), nm)) return false; }
        if (!v0 && !v1) for (ld k : {1e-3L, 1.0L, 1e3L}) { ld L = k * ext; XY q = {q0.x - d.x * L, q0.y - d.y * L}; if (!shared("ray-distance", q, a, b, REL * 4 * (mag(q) + mag(q0)), nm)) return false; }
        continue;
      }
      XY p0 = {(ld)v0->x(), (ld)v0->y()}, p1 = {(ld)v1->x(), (ld)v1->y()}; ld M = std::max(mag(p0), mag(p1)), tol = REL * M + 1e-17L * ext, len = hypotl(p1.x - p0.x, p1.y - p0.y); XY mid;
      if (!e.is_curved()) {
        for (ld t : {0.25L, 0.5L, 0.75L}) { XY q = {p0.x + t * (p1.x - p0.x), p0.y + t * (p1.y - p0.y)}; if (!shared("edge-distance", q, a, b, tol, nm)) return false; mid = q; }
      } else {
        ++curvedN; const Site& s = a.seg ? a : b; P p = (a.seg ? b : a).a; ld dx = (ld)s.b.x - s.a.x, dy = (ld)s.b.y - s.a.y, l = hypotl(dx, dy); dx /= l; dy /= l;
        ld u0 = (p0.x - s.a.x) * dx + (p0.y - s.a.y) * dy, u1 = (p1.x - s.a.x) * dx + (p1.y - s.a.y) * dy, up = ((ld)p.x - s.a.x) * dx + ((ld)p.y - s.a.y) * dy, h = ((ld)p.y - s.a.y) * dx - ((ld)p.x - s.a.x) * dy; bool wide = fabsl(u1 - u0) > 1e-7L * (M + ext) && h != 0;
        if (!wide) continue;
        for (ld t : {0.25L, 0.75L, 0.5L}) { ld u = u0 + t * (u1 - u0), w = ((u - up) * (u - up) + h * h) / (2 * h); XY q = {s.a.x + dx * u - dy * w, s.a.y + dy * u + dx * w}; if (!shared("curve-distance", q, a, b, tol * 16, nm)) return false; mid = q; }
      }
      if (len > 1e-7L * (M + ext)) {
        XY w; if (e.is_secondary()) { const Site& s = a.seg ? a : b; P p = (a.seg ? b : a).a; P o = p == s.a ? s.b : s.a; w = XY{(ld)o.x - p.x, (ld)o.y - p.y}; if (!a.seg) { w.x = -w.x; w.y = -w.y; } }
        else { XY fa = foot(mid, a), fb = foot(mid, b); w = XY{fa.x - fb.x, fa.y - fb.y}; if (hypotl(w.x, w.y) < 1e-7L * (M + ext)) continue; }
        if (!((p1.x - p0.x) * w.y - (p1.y - p0.y) * w.x > 0)) { c.fail("edge-side", nm + " does not have its cell's site " + ss(a) + " on the left"); return false; }
      }
    }
    return true;
  }
  // transitions of the nearest site along random chords are edges of the diagram
  bool transitions() {
    if (st.size() < 2) return true; std::set<std::pair<size_t, size_t> > adj; for (auto& e : vd.edges()) adj.insert(std::make_pair(e.cell() - &vd.cells()[0], e.twin()->cell() - &vd.cells()[0]));
    ld x0 = HUGE_VALL, x1 = -x0, y0 = x0, y1 = -x0; for (auto& s : st) for (P p : {s.a, s.b}) { x0 = std::min(x0, (ld)p.x); x1 = std::max(x1, (ld)p.x); y0 = std::min(y0, (ld)p.y); y1 = std::max(y1, (ld)p.y); }
    ld w = std::max(x1 - x0, y1 - y0) * 0.3L + 1; auto rnd = [&](ld a, ld b) { return a - w + (b - a + 2 * w) * ((ld)c.rng.range(0, 1000000007) / 1000000007.0L); };
    for (int k = 0; k < 8; ++k) {
      XY A = {rnd(x0, x1), rnd(y0, y1)}, B = {rnd(x0, x1), rnd(y0, y1)};
      auto near = [&](ld t, size_t& i, size_t& j, ld& gap) { XY q = {A.x + t * (B.x - A.x), A.y + t * (B.y - A.y)}; ld d1 = HUGE_VALL, d2 = d1, d3 = d1; i = j = 0; for (size_t n = 0; n < st.size(); ++n) { ld d = vdistSite(q, st[n]);
          // a segment only owns points that project inside it, its ends own the rest
          if (st[n].seg) { ld u = vparam(q, st[n].a, st[n].b); if (u <= 0 || u >= 1) continue; }
          if (d < d1) { d3 = d2; d2 = d1; j = i; d1 = d; i = n; } else if (d < d2) { d3 = d2; d2 = d; j = n; } else if (d < d3) d3 = d; } gap = d3 - d2; return d2 - d1; };
      ld lo = 0, hi = 1; size_t i0, j0, i1, j1; ld g; near(lo, i0, j0, g); near(hi, i1, j1, g); if (i0 == i1) continue;
      size_t ilo = i0; for (int n = 0; n < 60; ++n) { ld m = (lo + hi) / 2; size_t i, j; near(m, i, j, g); if (i == ilo) lo = m; else hi = m; }
      size_t ia, ja, ib, jb; ld ga, gb; near(lo, ia, ja, ga); near(hi, ib, jb, gb); if (ia != ilo || ib == ia) continue;
      // third candidates must be clearly farther; ends of either segment are judged with their segment
      XY q = {A.x + lo * (B.x - A.x), A.y + lo * (B.y - A.y)}; ld d = vdistSite(q, st[ia]); bool clear = true; for (size_t n = 0; n < st.size() && clear; ++n) if (n != ia && n != ib) { ld dn = vdistSite(q, st[n]); if (dn < d + 1e-6L * (ext + d)) clear = false; }
      if (st[ia].seg && vendpoint(st[ia], st[ib])) clear = true, void(); 
      if (vendpoint(st[ia], st[ib])) { clear = true; for (size_t n = 0; n < st.size(); ++n) if (n != ia && n != ib && vdistSite(q, st[n]) < d + 1e-6L * (ext + d)) clear = false; }
      if (!clear) continue; ++transN; if (!adj.count(std::make_pair(ia, ib))) { c.fail("missing-edge", "cells of " + ss(st[ia]) + " and " + ss(st[ib]) + " share points near " + sx(q) + " but no edge"); return false; }
    }
    return true;
  }
  // point sets of moderate span: adjacency of every pair decided exactly
  bool pairs() {
    if (!in.segs.empty() || st.size() > 14 || st.size() < 2) return true; for (auto& s : st) for (auto& t : st) if (std::abs(s.a.x - t.a.x) > (1 << 29) || std::abs(s.a.y - t.a.y) > (1 << 29)) return true;
    std::map<std::pair<size_t, size_t>, int> adj; for (auto& e : vd.edges()) ++adj[std::make_pair(e.cell() - &vd.cells()[0], e.twin()->cell() - &vd.cells()[0])];
    for (size_t i = 0; i < st.size(); ++i) for (size_t j = i + 1; j < st.size(); ++j) {
      P p = st[i].a; i128 Dx = st[j].a.x - p.x, Dy = st[j].a.y - p.y; bool lo = false, hi = false, none = false; i128 ln = 0, ld_ = 1, hn = 0, hd = 1; // lo <= t <= hi
      for (size_t k = 0; k < st.size(); ++k) if (k != i && k != j) {
        i128 Kx = st[k].a.x - p.x, Ky = st[k].a.y - p.y, num = Kx * Kx + Ky * Ky - Dx * Kx - Dy * Ky, den = 2 * (-Dy * Kx + Dx * Ky); // t * den <= num
        if (den == 0) { if (num < 0) none = true; continue; }
        if (den > 0) { if (!hi || num * hd < hn * den) { hi = true; hn = num; hd = den; } } else { num = -num; den = -den; if (!lo || num * ld_ > ln * den) { lo = true; ln = num; ld_ = den; } }
      }
      int got = adj.count(std::make_pair(i, j)) ? adj[std::make_pair(i, j)] : 0; bool want = !none && !(lo && hi && ln * hd >= hn * ld_);
      ld gap = lo && hi ? ((ld)hn / (ld)hd - (ld)ln / (ld)ld_) * hypotl((ld)Dx, (ld)Dy) : HUGE_VALL, far = lo && hi ? ext + (fabsl((ld)hn / (ld)hd) + fabsl((ld)ln / (ld)ld_)) * hypotl((ld)Dx, (ld)Dy) : 1;
      if (want && gap < 1e-12L * far && got <= 1) continue;
      if (got != (want ? 1 : 0)) { c.fail("pair-edge", ss(st[i]) + " and " + ss(st[j]) + (want ? " are neighbours" : " are not neighbours") + ", diagram has " + std::to_string(got) + " edges"); return false; }
      c.count("site pairs decided exactly");
    }
    return true;
  }
  void run() {
    if (!vsites(c, in, vd, st)) return; bool ok = vertices() && edges() && transitions() && pairs(); (void)ok;
    c.count("vertices judged", vertN); c.count("vertices compared with the exact circumcenter", exactN); c.count("edges judged", edgesN); c.count("curved edges sampled", curvedN); c.count("infinite edge ends judged", raysN); c.count("edge points compared with all sites", samplesN); c.count("nearest-site transitions judged", transN);
  }
};
static void run(Ctx& c, bool segs, int maxN) { VGen G(c.rng); VIn in = G.gen(segs, maxN); c.desc = in.str(); VD vd; vbuild(in, vd); Judge j(c, in, vd); j.run(); if (vd.num_cells() > 1) c.nontrivial(in.hash()); }
// a few sites, then the same scene around each of the vertices found
static void tiny(Ctx& c) {
  VGen G(c.rng); VIn in = G.tiny(); c.desc = in.str(); VD vd; vbuild(in, vd); { Judge j(c, in, vd); if (!vsites(c, in, vd, j.st) || !j.vertices() || !j.edges()) return; c.count("vertices judged", j.vertN); c.count("edges judged", j.edgesN); }
  if (vd.num_cells() > 1) c.nontrivial(in.hash());
  for (auto& v : vd.vertices()) { VIn o; if (!G.recentre(o, in, v.x(), v.y())) continue; c.desc = o.str(); VD w; vbuild(o, w); Judge j(c, o, w); if (!vsites(c, o, w, j.st) || !j.vertices() || !j.edges()) return; c.count("vertices judged", j.vertN); c.count("edges judged", j.edgesN); c.count("moved scenes"); }
}
std::vector<Family> families() {
  std::vector<Family> f;
  f.push_back({"points", [](Ctx& c) { run(c, false, 30); }, 30000, 1200000});
  f.push_back({"segments", [](Ctx& c) { run(c, true, 20); }, 30000, 1200000});
  f.push_back({"tiny", tiny, 60000, 3000000});
  f.push_back({"many-points", [](Ctx& c) { run(c, false, 200); }, 200, 10000});
  f.push_back({"many-segments", [](Ctx& c) { run(c, true, 80); }, 200, 10000});
  return f;
}
}
VF_MAIN()
