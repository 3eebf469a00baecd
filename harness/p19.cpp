// P19: fixed-width big integers, extended-exponent and robust floats against arbitrary precision.
#include <boost/polygon/voronoi.hpp>
#include <boost/multiprecision/cpp_int.hpp>
#include <boost/multiprecision/cpp_bin_float.hpp>
#include "common.hpp"
#include "geo.hpp"
namespace vf {
namespace bd = boost::polygon::detail; namespace mp = boost::multiprecision;
typedef mp::cpp_int Z; typedef mp::number<mp::backends::cpp_bin_float<4600, mp::backends::digit_base_2, void, boost::int64_t>, mp::et_off> F; typedef mp::number<mp::backends::cpp_bin_float<400, mp::backends::digit_base_2, void, boost::int64_t>, mp::et_off> G;
static const double EPS = 2.220446049250313e-16;
// a big integer with interesting limbs
static Z rndZ(Rng& r, int bits) {
  if (bits <= 0) return Z(0); int n = 1 + r.below(bits); Z z = 0; int mode = r.below(6);
  if (mode == 0) { z = Z(1) << (n - 1); if (r.chance(1, 2)) z -= 1; if (r.chance(1, 3)) z += r.range(-3, 3); }
  else { for (int i = 0; i < (n + 31) / 32; ++i) { u64 w = r.next() & 0xffffffffu; if (mode == 1 && r.chance(1, 2)) w = r.chance(1, 2) ? 0xffffffffu : 0; if (mode == 2 && r.chance(2, 3)) w = 0; if (mode == 3) w = r.below(3); z = (z << 32) | w; } z &= (Z(1) << n) - 1; }
  if (z < 0) z = -z; if (r.chance(1, 2)) z = -z; return z;
}
template <size_t N> bd::extended_int<N> big(Z z) { bool neg = z < 0; if (neg) z = -z; std::vector<bd::uint32> v; while (z != 0) { v.insert(v.begin(), (bd::uint32)(z & 0xffffffffu)); z >>= 32; } return bd::extended_int<N>(v, !neg); }
template <size_t N> Z val(const bd::extended_int<N>& e) { Z z = 0; for (size_t i = e.size(); i > 0; --i) z = (z << 32) | e.chunks()[i - 1]; return e.count() < 0 ? Z(-z) : z; }
static int bitlen(const Z& z) { return z == 0 ? 0 : (int)mp::msb(mp::abs(z)) + 1; }
static std::string zs(const Z& z) { return z.str(0, std::ios_base::dec); }
// every magnitude, both sides of powers of two, the extremes
static i64 draw64(Rng& r) { switch (r.below(6)) { case 0: return r.chance(1, 2) ? INT64_MIN : INT64_MAX; case 1: return (i64)r.next(); case 2: return r.range(-5, 5); case 3: return (i64)r.next() >> r.below(63); default: { i64 k = (i64)((u64)1 << (r.chance(1, 2) ? 30 + r.below(4) : r.below(63))) + r.range(-2, 2); return r.chance(1, 2) ? k : -k; } } }
template <size_t N> void bigInt(Ctx& c) {
  typedef bd::extended_int<N> E; Rng& r = c.rng; int W = 32 * (int)N;
  // a short program over a pool of values, every result compared
  std::vector<std::pair<E, Z> > pool; for (int i = 0; i < 4; ++i) { Z z = rndZ(r, r.chance(1, 2) ? W / 2 : W); if (i && r.chance(1, 3)) { z = pool[r.below(i)].second + (r.chance(1, 2) ? rndZ(r, W / 2) : Z(r.range(-2, 2))); if (bitlen(z) > W) z = 1; } pool.push_back(std::make_pair(big<N>(z), z)); }
  c.desc = "width " + std::to_string(W); for (auto& p : pool) c.desc += " " + zs(p.second); Hash h;
  auto norm = [&](const E& e, const char* what) { if (e.size() && e.chunks()[e.size() - 1] == 0) { c.fail(std::string(what) + ":leading-zero", "result keeps a leading zero limb"); return false; } return true; };
  auto eq = [&](const E& e, const Z& z, const char* what) { if (val(e) != z) { c.fail(what, "expected " + zs(z) + " got " + zs(val(e))); return false; } if (e.is_zero() != (z == 0) || e.is_pos() != (z > 0) || e.is_neg() != (z < 0) || bd::is_neg(e) != (z < 0) || bd::is_pos(e) != (z > 0) || bd::is_zero(e) != (z == 0)) { c.fail(std::string(what) + ":sign", "sign queries disagree for " + zs(z)); return false; } c.count("integer results compared"); return norm(e, what); };
  for (int step = 0; step < 12; ++step) {
    auto& x = pool[r.below((int)pool.size())]; auto& y = pool[r.below((int)pool.size())]; const E a = x.first, b = y.first; const Z p = x.second, q = y.second; int op = r.below(9); E e; Z z; c.desc += " op" + std::to_string(op); h.add(op); h.add((u64)(p & 0xffffffffffffffffULL)); h.add((u64)(q & 0xffffffffffffffffULL));
    switch (op) {
      case 0: z = p + q; if (bitlen(z) > W) continue; e = a + b; if (!eq(e, z, "add")) return; break;
      case 1: z = p - q; if (bitlen(z) > W) continue; e = a - b; if (!eq(e, z, "subtract")) return; break;
      case 2: z = p * q; if (bitlen(z) > W) continue; e = a * b; if (!eq(e, z, "multiply")) return; break;
      case 3: z = -p; e = -a; if (!eq(e, z, "negate")) return; break;
      case 4: { i64 k = draw64(r); z = k; if (bitlen(z) > W) continue; e = E((bd::int64)k); if (!eq(e, z, "from-int64")) return; E f(a); f = (bd::int64)k; if (!eq(f, z, "assign-int64")) return; z = p * k; if (bitlen(z) > W) continue; e = a * (bd::int64)k; if (!eq(e, z, "multiply-int64")) return; break; }
      case 5: { int k = r.chance(1, 5) ? (r.chance(1, 2) ? INT32_MIN : INT32_MAX) : (int)draw64(r); z = k; e = E((bd::int32)k); if (!eq(e, z, "from-int32")) return; E f(a); f = (bd::int32)k; if (!eq(f, z, "assign-int32")) return; z = p * k; if (bitlen(z) > W) continue; e = a * (bd::int32)k; if (!eq(e, z, "multiply-int32")) return; break; }
      case 6: { int w = p < q ? -1 : p > q ? 1 : 0; if ((a < b) != (w < 0) || (a > b) != (w > 0) || (a <= b) != (w <= 0) || (a >= b) != (w >= 0) || (a == b) != (w == 0) || (a != b) != (w != 0)) { c.fail("compare", zs(p) + " and " + zs(q)); return; } c.count("integer comparisons"); continue; }
      case 7: { double d = a.d(); if (bitlen(p) > 1000) { std::pair<double, int> pr = a.p(); G t = G(pr.first); t = mp::ldexp(t, pr.second); G w(p); if (mp::abs(t - w) > mp::abs(w) * G(1.01 * EPS)) { c.fail("to-pair", zs(p)); return; } c.count("integer conversions"); continue; } G w(p), t(d); if (mp::abs(t - w) > mp::abs(w) * G(1.01 * EPS) || (bitlen(p) <= 53 && t != w)) { c.fail("to-double", zs(p) + " became " + std::to_string(d)); return; }
        std::pair<double, int> pr = a.p(); t = mp::ldexp(G(pr.first), pr.second); if (mp::abs(t - w) > mp::abs(w) * G(1.01 * EPS)) { c.fail("to-pair", zs(p)); return; } c.count("integer conversions"); continue; }
      default: { bd::extended_int<2 * N> w(a); if (val(w) != p) { c.fail("widen", zs(p)); return; } bd::extended_int<2 * N> s = w * bd::extended_int<2 * N>(b); if (val(s) != p * q) { c.fail("widen-multiply", zs(p) + " * " + zs(q)); return; } c.count("integer results compared"); continue; }
    }
    if (pool.size() < 8) pool.push_back(std::make_pair(e, z)); else pool[r.below(8)] = std::make_pair(e, z);
  }
  c.nontrivial(h.h);
}
static double rndD(Rng& r) {
  switch (r.below(6)) { case 0: return 0; case 1: return (double)r.range(-10, 10); case 2: return (double)(i64)r.next(); case 3: return std::ldexp((double)(i64)r.next(), r.range(-900, 800)); case 4: return std::ldexp(1.0, r.range(-300, 300)) * (r.chance(1, 2) ? 1 : -1); default: return (double)r.range(-1000000000, 1000000000) / (1 + r.below(1000)); }
}
// extended-exponent floats
static void efpt(Ctx& c) {
  typedef bd::extended_exponent_fpt<double> E; Rng& r = c.rng; std::vector<std::pair<E, F> > pool; Hash h;
  auto value = [](const E& e, bool& ok) { // recover the stored value from scaled copies
    E t = e; (void)t; ok = true; return 0; }; (void)value;
  for (int i = 0; i < 4; ++i) { double d = rndD(r); int x = r.chance(1, 3) ? 0 : r.range(-600, 600); pool.push_back(std::make_pair(r.chance(1, 4) && x == 0 ? E(d) : E(d, x), mp::ldexp(F(d), x))); c.desc += " " + std::to_string(d) + "*2^" + std::to_string(x); u64 w; memcpy(&w, &d, 8); h.add(w); h.add(x); }
  auto good = [&](const E& e, const F& w, const char* what, double ulps) {
    if (e.is_zero() != (w == 0) || e.is_pos() != (w > 0) || e.is_neg() != (w < 0) || bd::is_zero(e) != (w == 0) || bd::is_neg(e) != (w < 0)) { c.fail(std::string(what) + ":sign", "sign differs from the exact result"); return false; }
    if (w == 0) return true; // scale into double range and compare
    long x = (long)mp::ilogb(w); if (std::labs(x) > 200000) return true; E s(1.0, -(int)x); double d = (e * s).d(); F t = mp::ldexp(F(d), x); if (mp::abs(t - w) > mp::abs(w) * F(ulps * EPS)) { c.fail(what, "relative error above " + std::to_string(ulps) + " epsilon"); return false; } c.count("extended float results compared"); return true; };
  for (int step = 0; step < 8; ++step) {
    auto x = pool[r.below((int)pool.size())], y = pool[r.below((int)pool.size())]; int op = r.below(7); F w; E e(0.0); c.desc += " op" + std::to_string(op);
    switch (op) { case 0: w = x.second + y.second; e = x.first + y.first; { E q = x.first; q += y.first; e = r.chance(1, 2) ? q : e; } break; case 1: w = x.second - y.second; e = x.first - y.first; { E q = x.first; q -= y.first; e = r.chance(1, 2) ? q : e; } break; case 2: w = x.second * y.second; e = x.first * y.first; { E q = x.first; q *= y.first; e = r.chance(1, 2) ? q : e; } break;
      case 3: if (y.second == 0) continue; w = x.second / y.second; e = x.first / y.first; { E q = x.first; q /= y.first; e = r.chance(1, 2) ? q : e; } break; case 4: if (x.second < 0) continue; w = mp::sqrt(x.second); e = bd::get_sqrt(x.first); break; case 5: w = -x.second; e = -x.first; break;
      default: { F t = x.second; if (t == 0 || mp::ilogb(t) < -900 || mp::ilogb(t) > 1000) continue; double d = x.first.d(); if (F(d) != t) { c.fail("value", "d() is not the stored value"); return; } c.count("extended float conversions"); continue; } }
    h.add(op); if (op < 5 && w != 0) { static const char* nm[6] = {"efpt-add", "efpt-subtract", "efpt-multiply", "efpt-divide", "efpt-sqrt", "efpt-negate"}; if (!good(e, w, nm[op], 1)) return; }
    else if (!good(e, w, "efpt-zero", 1)) return;
    // continue from the rounded value itself
    if (w == 0) continue; long lx = (long)mp::ilogb(w); if (std::labs(lx) > 5000) continue; E s(1.0, -(int)lx); F t = mp::ldexp(F((e * s).d()), lx); if (pool.size() < 7) pool.push_back(std::make_pair(e, t)); else pool[r.below(7)] = std::make_pair(e, t);
  }
  c.nontrivial(h.h);
}
// robust floats: reported error covers the true one
static void robust(Ctx& c) {
  typedef bd::robust_fpt<double> R; typedef bd::robust_dif<R> D; Rng& r = c.rng; Hash h; std::vector<std::pair<R, G> > pool;
  auto in = [&]() { double d; do d = r.chance(1, 2) ? (double)r.range(-1000000, 1000000) : r.chance(1, 2) ? (double)(i64)r.next() : (double)r.range(-1000, 1000) / 7; while (d == 0); return d; };
  for (int i = 0; i < 5; ++i) { double d = in(); u64 w; memcpy(&w, &d, 8); h.add(w); if (r.chance(1, 3)) { i64 k = (i64)r.next(); if (!k) k = 1; pool.push_back(std::make_pair(R((double)k, 1), G(k))); } else pool.push_back(std::make_pair(R(d), G(d))); c.desc += " " + std::to_string(d); }
  auto covered = [&](const R& x, const G& w, const char* what) { // true error within re epsilon (first order)
    if (x.fpv() == 0 || w == 0) return false; if (!(x.re() < 1e9) || std::fabs(x.fpv()) > 1e280 || std::fabs(x.fpv()) < 1e-280) { return false; } G t(x.fpv()), err = mp::abs(t - w) / mp::abs(w); c.count("robust results compared");
    if (x.ulp() != x.re()) c.fail("robust-ulp", "ulp() differs from re()"); if (err > G(x.re() * EPS * (1 + 1e-5))) { c.fail(what, "true error " + std::to_string((double)err / EPS) + " epsilon, reported " + std::to_string(x.re())); return false; } return true; };
  for (int step = 0; step < 10; ++step) {
    auto x = pool[r.below((int)pool.size())], y = pool[r.below((int)pool.size())]; int op = r.below(6), form = r.below(2); R e; G w; c.desc += " op" + std::to_string(op); h.add(op);
    switch (op) { case 0: w = x.second + y.second; e = x.first; if (form) e += y.first; else e = x.first + y.first; break; case 1: w = x.second - y.second; e = x.first; if (form) e -= y.first; else e = x.first - y.first; break; case 2: w = x.second * y.second; e = x.first; if (form) e *= y.first; else e = x.first * y.first; break;
      case 3: w = x.second / y.second; e = x.first; if (form) e /= y.first; else e = x.first / y.first; break; case 4: if (x.second < 0) continue; w = mp::sqrt(x.second); e = r.chance(1, 2) ? x.first.sqrt() : bd::get_sqrt(x.first); break; default: w = -x.second; e = -x.first; }
    static const char* nm[6] = {"robust-add", "robust-subtract", "robust-multiply", "robust-divide", "robust-sqrt", "robust-negate"};
    if (bd::is_neg(e) != (e.fpv() < 0) || bd::is_pos(e) != (e.fpv() > 0) || bd::is_zero(e) != (e.fpv() == 0)) { c.fail("robust-sign", "sign queries"); return; }
    if (!covered(e, w, nm[op])) continue; if (pool.size() < 9) pool.push_back(std::make_pair(e, w)); else pool[r.below(9)] = std::make_pair(e, w);
  }
  // differences kept apart
  struct T { D d; G p, n; }; auto mk = [&](const std::pair<R, G>& q) { T t; t.d = D(); t.p = 0; t.n = 0; t.d += q.first; if (q.second < 0) t.n = -q.second; else t.p = q.second; return t; };
  T t = mk(pool[r.below((int)pool.size())]);
  for (int step = 0; step < 8; ++step) {
    auto y = pool[r.below((int)pool.size())]; G yp = y.second < 0 ? G(0) : y.second, yn = y.second < 0 ? G(-y.second) : G(0); int op = r.below(10), form = r.below(2); c.desc += " dif" + std::to_string(op); T u = t;
    switch (op) {
      case 0: if (form) u.d += y.first; else u.d = r.chance(1, 2) ? t.d + y.first : y.first + t.d; u.p = t.p + yp; u.n = t.n + yn; break;
      case 1: if (form) u.d -= y.first; else u.d = t.d - y.first; u.p = t.p + yn; u.n = t.n + yp; break;
      case 2: if (form) u.d *= y.first; else u.d = r.chance(1, 2) ? t.d * y.first : y.first * t.d; u.p = t.p * yp + t.n * yn; u.n = t.p * yn + t.n * yp; break;
      case 3: { G a = mp::abs(y.second); if (form) u.d /= y.first; else u.d = t.d / y.first; if (y.second > 0) { u.p = t.p / a; u.n = t.n / a; } else { u.p = t.n / a; u.n = t.p / a; } break; }
      case 4: { T v = mk(y); if (form) u.d += v.d; else u.d = t.d + v.d; u.p = t.p + v.p; u.n = t.n + v.n; break; }
      case 5: { T v = mk(y); if (form) u.d -= v.d; else u.d = t.d - v.d; u.p = t.p + v.n; u.n = t.n + v.p; break; }
      case 6: { T v = mk(y); v.d += pool[0].first; if (pool[0].second < 0) v.n -= pool[0].second; else v.p += pool[0].second; if (form) u.d *= v.d; else u.d = t.d * v.d; u.p = t.p * v.p + t.n * v.n; u.n = t.p * v.n + t.n * v.p; break; }
      case 7: u.d = y.first - t.d; u.p = t.n + yp; u.n = t.p + yn; break;
      case 8: u.d = -t.d; u.p = t.n; u.n = t.p; break;
      default: { R q = t.d.dif(); G w = t.p - t.n; if (t.d.pos().fpv() > 0 && t.d.neg().fpv() > 0) covered(q, w, "dif-value"); continue; } }
    if (u.d.pos().fpv() < 0 || u.d.neg().fpv() < 0) { c.fail("dif-negative", "a sum of a difference is negative"); return; }
    if ((u.d.pos().fpv() == 0) != (u.p == 0) || (u.d.neg().fpv() == 0) != (u.n == 0)) { c.fail("dif-zero", "a sum vanished or appeared"); return; }
    if (u.p != 0) covered(u.d.pos(), u.p, "dif-positive"); if (u.n != 0) covered(u.d.neg(), u.n, "dif-negative-sum");
    if (std::max(u.d.pos().fpv(), u.d.neg().fpv()) > 1e150 || (u.p != 0 && u.d.pos().fpv() < 1e-150) || (u.n != 0 && u.d.neg().fpv() < 1e-150)) break; t = u; c.count("difference results compared");
  }
  c.nontrivial(h.h);
}
// sums of integer multiples of square roots
template <size_t N> void sqrtExpr(Ctx& c) {
  typedef bd::extended_int<N> E; typedef bd::extended_exponent_fpt<double> X; typedef bd::robust_sqrt_expr<E, X, bd::type_converter_efpt> S; Rng& r = c.rng; int n = 1 + r.below(4);
  // intermediate products must fit the width: eval4 needs about 8 bits(A) + 4 bits(B)
  int ba = 4 + r.below((int)N * 32 / 16), bb = 4 + r.below((int)N * 32 / 16); if (8 * ba + 6 * bb + 40 > (int)N * 32) { ba = (int)N * 2; bb = (int)N * 2; } Z za[4], zb[4]; E A[5], B[5]; Hash h;
  for (int i = 0; i < n; ++i) { za[i] = rndZ(r, ba); zb[i] = mp::abs(rndZ(r, bb)); }
  if (n >= 2 && r.chance(1, 2)) { // nearly cancelling: A0 sqrt(B0) ~ -A1 sqrt(B1)
    int i = r.below(n), j = r.below(n); if (i != j) { Z k = mp::abs(rndZ(r, ba / 3 + 1)), l = mp::abs(rndZ(r, ba / 3 + 1)); if (r.chance(1, 2)) { za[i] = k * l; zb[i] = zb[j]; za[j] = -k * l + r.range(-1, 1); } else { Z b = mp::abs(rndZ(r, bb / 2)); za[i] = k; zb[i] = b * b + (r.chance(1, 2) ? 1 : 0); za[j] = -k * b; zb[j] = 1; if (bitlen(za[j]) > ba) { za[j] = -k; zb[j] = b * b; } } } }
  for (int i = 0; i < n; ++i) { A[i] = big<N>(za[i]); B[i] = big<N>(zb[i]); c.desc += " " + zs(za[i]) + "*sqrt(" + zs(zb[i]) + ")"; h.add((u64)(mp::abs(za[i]) & 0xffffffffffffffffULL)); h.add((u64)(zb[i] & 0xffffffffffffffffULL)); }
  F w = 0; for (int i = 0; i < n; ++i) w += F(za[i]) * mp::sqrt(F(zb[i])); F scale = 0; for (int i = 0; i < n; ++i) scale += mp::abs(F(za[i])) * mp::sqrt(F(zb[i]));
  if (mp::abs(w) <= mp::ldexp(scale, -4400)) w = 0; // zero within 4600 bits
  S s; X e = n == 1 ? s.eval1(A, B) : n == 2 ? s.eval2(A, B) : n == 3 ? s.eval3(A, B) : s.eval4(A, B); static const double lim[5] = {0, 4, 7, 16, 25}; std::string key = "sqrt-eval" + std::to_string(n);
  if (e.is_zero() != (w == 0) || e.is_neg() != (w < 0)) { if (!(w == 0 && n >= 2)) { c.fail(key + ":sign", "sign or zero differs from the exact sum"); return; } c.fail(key + ":zero", "exact sum is zero"); return; }
  if (w != 0) { long x = (long)mp::ilogb(w); double d = (e * X(1.0, -(int)x)).d(); F t = mp::ldexp(F(d), x), err = mp::abs(t - w) / mp::abs(w); if (err > F(lim[n] * EPS)) { c.fail(key, "relative error " + std::to_string((double)(err / F(EPS))) + " epsilon, bound " + std::to_string(lim[n])); return; } c.count("square root sums compared"); if (mp::abs(w) < scale * F(1e-12)) c.count("cancelling square root sums"); } else c.count("vanishing square root sums");
  c.nontrivial(h.h);
}
static void ulps(Ctx& c) {
  bd::ulp_comparison<double> u; Rng& r = c.rng; double a = rndD(r), b = r.chance(1, 2) ? a : rndD(r); unsigned m = r.chance(1, 2) ? r.below(5) : r.below(1000); int k = r.range(-(int)m - 3, (int)m + 3); for (int i = 0; i < std::abs(k); ++i) b = std::nextafter(b, k < 0 ? -HUGE_VAL : HUGE_VAL); if (!std::isfinite(a) || !std::isfinite(b)) return;
  auto rank = [](double d) { i64 w; memcpy(&w, &d, 8); return w < 0 ? (i128)INT64_MIN - w : (i128)w; }; i128 dif = rank(b) - rank(a); int want = dif > (i128)m ? -1 : dif < -(i128)m ? 1 : 0; int got = u(a, b, m); char buf[120]; snprintf(buf, sizeof buf, "%a vs %a max %u", a, b, m); c.desc = buf;
  if (got != want) c.fail("ulp-compare", "expected " + std::to_string(want) + " got " + std::to_string(got)); c.count("ulp comparisons"); if (want == 0) c.count("ulp comparisons equal"); Hash h; u64 w; memcpy(&w, &a, 8); h.add(w); memcpy(&w, &b, 8); h.add(w); h.add(m); c.nontrivial(h.h);
}
std::vector<Family> families() {
  std::vector<Family> f;
  f.push_back({"bigint-64", [](Ctx& c) { bigInt<2>(c); }, 20000, 1000000});
  f.push_back({"bigint-256", [](Ctx& c) { bigInt<8>(c); }, 20000, 1000000});
  f.push_back({"bigint-2048", [](Ctx& c) { bigInt<64>(c); }, 5000, 200000});
  f.push_back({"extended-float", [](Ctx& c) { efpt(c); }, 3000, 100000});
  f.push_back({"robust-float", [](Ctx& c) { robust(c); }, 20000, 800000});
  f.push_back({"sqrt-512", [](Ctx& c) { sqrtExpr<16>(c); }, 3000, 100000});
  f.push_back({"sqrt-2048", [](Ctx& c) { sqrtExpr<64>(c); }, 2000, 60000});
  f.push_back({"ulp", [](Ctx& c) { ulps(c); }, 50000, 2000000});
  return f;
}
}
VF_MAIN()
