// P03: 45-degree boolean operations are exact up to off-grid intersections.
#include "scene45.hpp"
namespace vf {
using namespace boost::polygon::operators;
static const char* OPN[4] = {"or", "and", "xor", "sub"};

template <class C, class L, class R> bp::polygon_45_set_data<C> applyFree(int op, const L& a, const R& b) {
  switch (op) { case 0: return bp::polygon_45_set_data<C>(a | b); case 1: return bp::polygon_45_set_data<C>(a & b); case 2: return bp::polygon_45_set_data<C>(a ^ b); default: return bp::polygon_45_set_data<C>(a - b); }
}
template <class C> void boolCase(Ctx& c, bool offgrid) {
  Rng& r = c.rng; typedef bp::polygon_45_set_data<C> S;
  Scene45 sc = genScene45(r, offgrid, sizeof(C) > 4 ? -(1LL << 41) : std::numeric_limits<C>::min(), sizeof(C) > 4 ? 1LL << 41 : std::numeric_limits<C>::max());
  int op = r.below(4), form = r.below(6), obs = r.below(6);
  bool sub = form == 0 && r.chance(1, 3);
  int mi = r.chance(1, 8) ? 9 : 4; if (mi == 9 && sc.k < 1000) sc.n += r.below(5);
  Items A = genItems45(r, sc, mi, true, sub), B = genItems45(r, sc, mi, true, sub);
  c.desc = std::string(OPN[op]) + " form=" + std::to_string(form) + " obs=" + std::to_string(obs) + " A=" + strv(A) + " B=" + strv(B);
  Arr arr; arrItems(arr, A, 2); arrItems(arr, B, 3);
  S a, b; for (auto& i : A) insertItem45(a, i); for (auto& i : B) insertItem45(b, i);
  S res;
  auto pa = polysOf(A), pb = polysOf(B);
  switch (form) {
    case 0: res = applyFree<C>(op, a, b); break;
    case 1: res = a; if (op == 0) res |= b; else if (op == 1) res &= b; else if (op == 2) res ^= b; else res -= b; break;
    case 2: { std::vector<bp::polygon_45_with_holes_data<C> > va, vb; for (auto& i : A) va.push_back(to45h<C>(i.p)); for (auto& i : B) vb.push_back(to45h<C>(i.p)); res = applyFree<C>(op, va, vb); break; }
    case 3: { std::list<bp::polygon_45_with_holes_data<C> > va; for (auto& i : A) va.push_back(to45h<C>(i.p)); res = applyFree<C>(op, va, b); break; }
    case 4: { // chained expression; cleaned operands
      S a2(a); a2.clean(); res = a2; if (op == 0) res = (a + b) + a; else if (op == 1) res = (a * b) & a; else if (op == 2) res = (a ^ b) ^ (a - a); else res = (a - b) - b; break; }
    default: { res = b; if (op == 3) { res = a; res -= b; } else if (op == 0) res += a; else if (op == 1) res *= a; else res ^= a; break; }
  }
  std::vector<Poly> out = observe45(res, obs);
  for (auto& p : out) { bool ok = is45Ring(p.outer); for (auto& h : p.holes) ok = ok && is45Ring(h); c.check(ok, "bool:angles", "edge that is neither horizontal, vertical nor diagonal: " + str(p)); }
  arrOut(arr, out, 1); arr.nlab = 4;
  std::vector<Poly> in = pa; in.insert(in.end(), pb.begin(), pb.end());
  std::set<P> off = offCells(in);
  for (auto& q : off) arr.ring(rectRing(q.x, q.y, q.x + 1, q.y + 1), 0, 0); // split gaps at the excusable squares
  arr.finish();
  bool nt = false; i64 excused = 0; bool differs = false;
  sameArr(c, arr, [&](const int* w) { bool e = boolOp(w[2] > 0, w[3] > 0, op); if (e) nt = true; return (int)e; },
    [&](const Arr::Cell& q, int, int g) {
      if (g != 0 && g != 1) return false;
      P cell((i64)floorl((q.x0 + q.x1) / 2), (i64)floorl((q.l0 + q.l1 + q.h0 + q.h1) / 4));
      if (!off.count(cell) || q.x1 > cell.x + 1 + 1e-6L) return false;
      if (std::max(q.h0, q.h1) > cell.y + 1 + 1e-6L || std::min(q.l0, q.l1) < cell.y - 1e-6L) return false;
      ++excused; differs = true; return true; },
    offgrid ? "offgrid" : "exact", [&]() { return " output=" + strv(out); });
  if (differs) { c.count("off-grid differences excused", excused); c.check(res.has_error_data() && res.error_count() > 0, "offgrid:unreported:form" + std::to_string(form), "result differs at an off-grid intersection but the set reports no error data; output=" + strv(out)); }
  // the reported error squares bound the differences
  if (differs && form != 4) {
    S err; res.get_error_data(err); std::vector<Poly> sq = observe45(err, 0);
    Arr ea; arrItems(ea, A, 2); arrItems(ea, B, 3); arrOut(ea, out, 1); for (auto& p : sq) ea.raw(p, 4, 1); ea.nlab = 5; ea.finish(); bool bad = false; std::string where;
    ea.sweep([&](const Arr::Cell& q) { if (bad || q.area() < 1e-6L) return; if ((q.w[1] != 0) != boolOp(q.w[2] > 0, q.w[3] > 0, op) && q.w[4] <= 0) { bad = true; where = cellStr(q); } });
    c.check(!bad, "offgrid:error-squares", "difference at " + where + " lies outside the reported error squares " + strv(sq) + " output=" + strv(out));
  }
  if (off.empty()) c.check(!res.has_error_data(), "exact:spurious-error", "error data reported although every crossing is an integer point");
  else c.count("scenes with off-grid crossings");
  if (nt && !A.empty() && !B.empty()) { Hash h; h.add(op); h.add(form); h.add(obs); c.nontrivial(hashPolys(in, h)); }
}
std::vector<Family> families() {
  std::vector<Family> f;
#if PART == 0
  f.push_back({"exact-int", [](Ctx& c) { boolCase<int>(c, false); }, 60000, 1500000});
  f.push_back({"offgrid-int", [](Ctx& c) { boolCase<int>(c, true); }, 40000, 1000000});
#else
  f.push_back({"exact-i64", [](Ctx& c) { boolCase<long long>(c, false); }, 15000, 400000});
#endif
  return f;
}
}
VF_MAIN()
