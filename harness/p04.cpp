// P04: arbitrary-angle boolean operations are correct up to grid snapping.
#if PART == 1
// documented configuration for full robustness: exact rationals behind the intersection construction
#include <boost/polygon/polygon.hpp>
#include <boost/polygon/gmp_override.hpp>
#endif
#include "sceneg.hpp"
namespace vf {
using namespace boost::polygon::operators;
static const char* OPN[4] = {"or", "and", "xor", "sub"};
template <class C, class L, class R> bp::polygon_set_data<C> applyFree(int op, const L& a, const R& b) {
  switch (op) { case 0: return bp::polygon_set_data<C>(a + b); case 1: return bp::polygon_set_data<C>(a & b); case 2: return bp::polygon_set_data<C>(a ^ b); default: return bp::polygon_set_data<C>(a - b); }
}
static ld TOL() { const char* e = getenv("VF_TOL"); return e ? atof(e) : 3.0L; }
// rings whose every crossing falls on an integer point: edges on a few slopes, all offsets multiples of K
static const i64 KX = 60;
template <class C> void boolCase(Ctx& c, int kind) {
  Rng& r = c.rng; typedef bp::polygon_set_data<C> S;
  int op = r.below(4), form = r.below(6), obs = r.below(4); bool sub = form == 0 && r.chance(1, 3);
  Items A, B; int mi = r.chance(1, 6) ? 7 : 3;
  if (kind == 0) { SceneG sc = genSceneG(r, 1LL << 29); A = genItemsG(r, sc, mi, true, sub); B = genItemsG(r, sc, mi, true, sub); }
  else { // no snapping needed: small lattice scaled so that every crossing is an integer point
    SceneG sc = genSceneG(r, 1000); sc.s = 4 + r.below(3); sc.x0 = sc.y0 = -2; sc.pool.clear(); for (int i = 0; i < 8; ++i) sc.pool.push_back(P(sc.x0 + r.range(0, sc.s), sc.y0 + r.range(0, sc.s)));
    A = genItemsG(r, sc, mi, true, sub); B = genItemsG(r, sc, mi, true, sub);
    // least common multiple of the determinants of all crossing edge pairs
    std::vector<std::pair<P, P> > e; auto add = [&](const Ring& q) { for (size_t i = 0; i < q.size(); ++i) e.push_back(std::make_pair(q[i], q[(i + 1) % q.size()])); };
    for (auto* v : {&A, &B}) for (auto& i : *v) { add(i.p.outer); for (auto& h : i.p.holes) add(h); }
    i64 L = 1; for (size_t i = 0; i < e.size(); ++i) for (size_t j = i + 1; j < e.size(); ++j) { i64 d = (e[i].second.x - e[i].first.x) * (e[j].second.y - e[j].first.y) - (e[i].second.y - e[i].first.y) * (e[j].second.x - e[j].first.x);
      if (!d || std::max(e[i].first.x, e[i].second.x) < std::min(e[j].first.x, e[j].second.x) || std::max(e[j].first.x, e[j].second.x) < std::min(e[i].first.x, e[i].second.x)) continue;
      d = std::llabs(d); i64 a = L, b = d; while (b) { i64 t = a % b; a = b; b = t; } if (L / a * d > (1LL << 27)) { L = 0; break; } L = L / a * d; if (!L) break; }
    if (L == 0) { c.count("lattice scenes skipped"); return; }
    // no vertex or crossing may lie within a grid unit of an edge it is not on, or it would be snapped
    std::vector<std::pair<ld, ld> > pts; for (auto& q : e) pts.push_back(std::make_pair((ld)q.first.x, (ld)q.first.y));
    for (size_t i = 0; i < e.size(); ++i) for (size_t j = i + 1; j < e.size(); ++j) { i64 px = e[i].second.x - e[i].first.x, py = e[i].second.y - e[i].first.y, qx = e[j].second.x - e[j].first.x, qy = e[j].second.y - e[j].first.y, d = px * qy - py * qx; if (!d) continue;
      ld t = (ld)((e[j].first.x - e[i].first.x) * qy - (e[j].first.y - e[i].first.y) * qx) / d, u = (ld)((e[j].first.x - e[i].first.x) * py - (e[j].first.y - e[i].first.y) * px) / d; if (t > -1e-9L && t < 1 + 1e-9L && u > -1e-9L && u < 1 + 1e-9L) pts.push_back(std::make_pair(e[i].first.x + t * px, e[i].first.y + t * py)); }
    ld md = 1e9L; for (auto& p : pts) for (auto& q : e) { ld d = distSeg(p.first, p.second, q.first, q.second); if (d > 1e-9L && d < md) md = d; }
    i64 m = (i64)ceill(1.5L / (md * (ld)L)); if (m < 1) m = 1; L *= m; if (r.chance(1, 3)) L *= r.range(1, 40); if (L > (PART == 1 ? 1LL << 27 : 1LL << 16)) { c.count("lattice scenes skipped"); return; } // crossings stay exact in the engine's long double arithmetic
    for (auto* v : {&A, &B}) for (auto& i : *v) mapPoly(i.p, [&](P q) { return P(q.x * L, q.y * L); });
  }
  c.desc = std::string(OPN[op]) + " form=" + std::to_string(form) + " obs=" + std::to_string(obs) + " A=" + strv(A) + " B=" + strv(B);
  Arr arr; arrItems(arr, A, 2); arrItems(arr, B, 3);
  S a, b; for (auto& i : A) insertItemGen(a, i); for (auto& i : B) insertItemGen(b, i);
  S res; auto pa = polysOf(A), pb = polysOf(B); int steps = 1;
  switch (form) {
    case 0: res = applyFree<C>(op, a, b); break;
    case 1: res = a; if (op == 0) res |= b; else if (op == 1) res &= b; else if (op == 2) res ^= b; else res -= b; break;
    case 2: { std::vector<bp::polygon_with_holes_data<C> > va, vb; for (auto& i : A) va.push_back(toGenh<C>(i.p)); for (auto& i : B) vb.push_back(toGenh<C>(i.p)); res = applyFree<C>(op, va, vb); break; }
    case 3: { std::list<bp::polygon_with_holes_data<C> > va; for (auto& i : A) va.push_back(toGenh<C>(i.p)); res = applyFree<C>(op, va, b); break; }
    case 4: { S a2(a); a2.clean(); steps = 2; if (op == 0) res = (a2 + b) + a; else if (op == 1) res = (a2 * b) & a; else if (op == 2) res = (a2 ^ b) ^ (a - a); else res = (a2 - b) - b; break; }
    default: { res = b; if (op == 3) { res = a; res -= b; } else if (op == 0) res += a; else if (op == 1) res *= a; else res ^= a; break; }
  }
  std::vector<Poly> out = observeG(res, obs);
  arrOut(arr, out, 1); arr.nlab = 4; arr.finish();
  std::vector<Poly> in = pa; in.insert(in.end(), pb.begin(), pb.end());
  bool nt = false; ld tol = TOL() * steps, worst = 0;
  sameArr(c, arr, [&](const int* w) { bool e = boolOp(w[2] > 0, w[3] > 0, op); if (e) nt = true; return (int)e; },
    [&](const Arr::Cell& q, int, int) { if (PART != 1 && kind != 0 && !(obs & 1)) return false; ld d = cellReach(q, in); if (d > worst) worst = d; return d <= (kind && PART != 1 ? 1.5L : tol); }, // cutting holes open puts vertices at rounded positions even here
    kind ? "exact" : "snap", [&]() { return " worst=" + sld(worst) + " output=" + strv(out); });
  c.count(worst > 2 ? "worst>2" : worst > 1.5 ? "worst>1.5" : worst > 1 ? "worst>1" : worst > 0.71 ? "worst>.71" : worst > 0 ? "worst>0" : "worst=0");
  // output vertices lie near the input
  for (auto& p : out) { auto vr = [&](const Ring& q) { for (auto& v : q) { ld d = distRings((ld)v.x, (ld)v.y, in); if (d > tol) { c.fail("vertex", "output vertex " + str(v) + " is " + sld(d) + " away from every input edge"); return; } } }; vr(p.outer); for (auto& h : p.holes) vr(h); }
  if (nt && !A.empty() && !B.empty()) { Hash h; h.add(op); h.add(form); h.add(obs); c.nontrivial(hashPolys(in, h)); }
}
std::vector<Family> families() {
  std::vector<Family> f;
#if PART <= 1
  f.push_back({"snap-int", [](Ctx& c) { boolCase<int>(c, 0); }, 20000, 800000});
  f.push_back({"exact-int", [](Ctx& c) { boolCase<int>(c, 1); }, 20000, 800000});
#else
  f.push_back({"snap-i64", [](Ctx& c) { boolCase<long long>(c, 0); }, 16000, 800000});
  f.push_back({"exact-i64", [](Ctx& c) { boolCase<long long>(c, 1); }, 16000, 800000});
#endif
  return f;
}
}
VF_MAIN()
