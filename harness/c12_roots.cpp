// C12: polynomial root isolation on an interval finds exactly the real roots
#include "../lib/vh.h"
#include <vector>
#include <cmath>
#include <cassert>
#include <stack>
#include <algorithm>
#include "delfem2/polynomial_root.h"
namespace d = delfem2;
typedef long double LD;
struct Poly { std::vector<double> c; std::vector<double> roots; /* real roots, sorted */ };
static double value(const std::vector<double> &c, double x, double *mag) { LD v = 0, m = 0; for (size_t i = c.size(); i-- > 0;) { v = v * x + c[i]; m = m * std::fabs((LD)x) + std::fabs((LD)c[i]); } if (mag) *mag = (double)m; return (double)v; }
// polynomial with given real roots, complex pairs; the true degree may be less than the array degree
static Poly make(vh::Rng &r, int nmax, double lo, double hi, bool dyadic) {
  double L = hi - lo, sep = 0.04; Poly p; int deg = r.irange(1, nmax - 1); if (r.chance(0.6)) deg = nmax - 1; std::vector<LD> c = {1}; int left = deg; std::vector<double> rt;
  while (left > 0) {
    if (left >= 2 && r.chance(0.3)) { LD re = lo + L * r.uni(-0.5, 1.5), im = L * r.uni(0.12, 1); std::vector<LD> n(c.size() + 2, 0); for (size_t i = 0; i < c.size(); ++i) { n[i] += c[i] * (re * re + im * im); n[i + 1] -= 2 * re * c[i]; n[i + 2] += c[i]; } c = n; left -= 2; continue; }
    bool ok = false; double x = 0; for (int it = 0; it < 300 && !ok; ++it) { int k = r.irange(0, 9); x = k < 2 ? lo - L * r.uni(sep, 1) : k < 3 ? hi + L * r.uni(sep, 1) : lo + L * (dyadic && r.chance(0.7) ? r.irange(1, 15) / 16. : r.uni(sep, 1 - sep)); ok = true; for (double y : rt) ok &= std::fabs(x - y) > sep * L; }
    if (!ok) { left = 0; break; } rt.push_back(x); std::vector<LD> n(c.size() + 1, 0); for (size_t i = 0; i < c.size(); ++i) { n[i] -= c[i] * x; n[i + 1] += c[i]; } c = n; --left; }
  LD s = (r.chance(0.5) ? 1 : -1) * std::pow(10.L, (LD)r.uni(-3, 3)); if (dyadic && r.chance(0.7)) s = r.chance(0.5) ? 1 : -1;
  p.c.assign(nmax, 0.); for (size_t i = 0; i < c.size(); ++i) p.c[i] = (double)(c[i] * s); std::sort(rt.begin(), rt.end()); p.roots = rt; return p; }
// uncertainty of a root caused by rounding the coefficients
static double root_tol(const Poly &p, double x) { double m; value(p.c, x, &m); double h = 1e-5; double dv = (value(p.c, x + h, nullptr) - value(p.c, x - h, nullptr)) / (2 * h); return 1e-14 + 2e-15 * m / (std::fabs(dv) + 1e-300); }
static bool usable(const Poly &p) { for (double x : p.roots) if (root_tol(p, x) > 1e-9) return false; return true; }
template <int n> static void one(vh::Ctx &ctx, bool dyadic, bool unit) {
  auto &r = ctx.rng; double lo = 0, hi = 1; if (!unit) { lo = r.uni(-3, 2); hi = lo + r.uni(0.5, 3); if (dyadic) { lo = r.irange(-3, 2); hi = lo + r.pick({1., 2., 4.}); } }
  Poly p = make(r, n, lo, hi, dyadic); if (p.roots.empty() && r.chance(0.7)) return; if (!usable(p)) { ctx.count("ill_conditioned_skipped"); return; } ctx.sig(vh::Hash().vd(p.c).h);
  std::vector<double> in; for (double x : p.roots) if (x > lo && x < hi) in.push_back(x); bool lead0 = p.c[n - 1] == 0;
  double st[n][n]; for (auto &row : st) for (double &x : row) x = 777; d::SturmSequenceOfPolynomial<n>(st, p.c.data());
  // the number of distinct roots in any interval whose ends are clear of the roots
  for (int k = 0; k < 4; ++k) { double a = lo + (hi - lo) * r.uni(-0.3, 1.3), b = lo + (hi - lo) * r.uni(-0.3, 1.3); if (a > b) std::swap(a, b); bool clear = b - a > 1e-3; int cnt = 0; for (double x : p.roots) { clear &= std::fabs(x - a) > 1e-3 && std::fabs(x - b) > 1e-3; cnt += x > a && x < b; } if (!clear) continue; int na = d::SturmNumber<n>(a, st), nb = d::SturmNumber<n>(b, st); CK(na - nb == cnt, "Sturm number difference counts the roots", "degree<=%d on (%g,%g): %d expected %d; coefficients %s", n - 1, a, b, na - nb, cnt, vh::str(p.c).c_str()); }
  auto iv = d::RootInterval_SturmSequence<n>(lo, hi, st); bool oki = CK(iv.size() == in.size(), "number of isolating intervals", "degree<=%d on (%g,%g): %zu expected %zu; coefficients %s", n - 1, lo, hi, iv.size(), in.size(), vh::str(p.c).c_str());
  std::sort(iv.begin(), iv.end()); for (size_t i = 0; oki && i < iv.size(); ++i) { double t = root_tol(p, in[i]) + 1e-9; CK(in[i] >= iv[i].first - t && in[i] <= iv[i].second + t && iv[i].first >= lo && iv[i].second <= hi && (i == 0 || iv[i - 1].second <= iv[i].first), "an interval isolates one root", "(%.17g %.17g]: %.17g", iv[i].first, iv[i].second, in[i]); }
  int nb = r.pick({6, 15, 30, 60}); double acc = (hi - lo) * std::pow(2., -nb);
  if (oki) for (size_t i = 0; i < iv.size(); ++i) { double x = d::RootInInterval_Bisection(iv[i].first, iv[i].second, p.c.data(), n, nb); CK(std::fabs(x - in[i]) <= acc + root_tol(p, in[i]), "bisection returns the root of its interval", "degree<=%d (%.17g %.17g) %d steps: %.17g expected %.17g; coefficients %s", n - 1, iv[i].first, iv[i].second, nb, x, in[i], vh::str(p.c).c_str()); }
  if (unit) { auto v = d::RootsOfPolynomial<n>(p.c.data(), nb); std::sort(v.begin(), v.end()); if (CK(v.size() == in.size(), "roots in [0,1]: number", "degree<=%d: %zu expected %zu; coefficients %s", n - 1, v.size(), in.size(), vh::str(p.c).c_str())) for (size_t i = 0; i < v.size(); ++i) CK(std::fabs(v[i] - in[i]) <= acc + root_tol(p, in[i]), "roots in [0,1]", "degree<=%d: %.17g expected %.17g; %d steps, coefficients %s", n - 1, v[i], in[i], nb, vh::str(p.c).c_str()); ctx.count("unit_roots", in.size()); }
  for (int k = 0; k < 3; ++k) { double x = r.uni(-2, 2), m, v = value(p.c, x, &m); CKN(d::Eval_Polynomial(x, p.c.data(), n), v, 1e-13 * m + 1e-300, "polynomial value", "at %g", x); }
  if (lead0) ctx.count("vanishing_leading"); if (dyadic) ctx.count("dyadic"); ctx.count("poly"); ctx.count("roots_in", in.size()); ctx.count(vh::fmt("distinct_%zu", in.size())); }
template <int n> static void any(vh::Ctx &ctx) { bool dy = ctx.rng.chance(0.4), un = ctx.rng.chance(0.5); one<n>(ctx, dy, un); }
VH_FAMILY(deg1, 11500, 300000) { any<2>(ctx); }
VH_FAMILY(deg2, 13000, 600000) { any<3>(ctx); }
VH_FAMILY(deg3, 14000, 800000) { any<4>(ctx); }
VH_FAMILY(deg4, 14000, 800000) { any<5>(ctx); }
VH_FAMILY(deg5, 14000, 800000) { any<6>(ctx); }
VH_FAMILY(deg6, 13000, 600000) { any<7>(ctx); }
// closed-form Sturm sequences of the quadratic and the cubic
VH_FAMILY(closed_sturm, 20000, 80000) {
  auto &r = ctx.rng; double lo = -1, hi = 1; for (int w = 0; w < 2; ++w) { int n = w ? 4 : 3; Poly p = make(r, n, lo, hi, false); if (!usable(p) || p.c[n - 1] == 0) continue; ctx.sig(vh::Hash().vd(p.c).h);
    double s3[3][3] = {}, s4[4][4] = {}; if (w) d::SturmSequenceOfPolynomial_Cubic(s4, p.c.data()); else d::SturmSequenceOfPolynomial_Quadratic(s3, p.c.data());
    for (int k = 0; k < 5; ++k) { double a = r.uni(-3, 3), b = r.uni(-3, 3); if (a > b) std::swap(a, b); bool clear = true; int cnt = 0; for (double x : p.roots) { clear &= std::fabs(x - a) > 1e-3 && std::fabs(x - b) > 1e-3; cnt += x > a && x < b; } if (!clear) continue; int got = w ? d::SturmNumber<4>(a, s4) - d::SturmNumber<4>(b, s4) : d::SturmNumber<3>(a, s3) - d::SturmNumber<3>(b, s3); CK(got == cnt, w ? "closed-form cubic Sturm sequence" : "closed-form quadratic Sturm sequence", "(%g,%g): %d expected %d; coefficients %s", a, b, got, cnt, vh::str(p.c).c_str()); }
    ctx.count("closed_sturm"); } }
// double roots are counted once (dyadic values: the closed forms are exact)
VH_FAMILY(multiple, 10000, 40000) {
  auto &r = ctx.rng; double x0 = r.irange(1, 7) / 8., x1 = x0 + r.pick({-0.125, 0.25, 0.5, -0.5, 2.}); double m = r.pick({1., -1., 2., -4.}); bool quad = r.chance(0.3); if (quad) x1 = x0;
  double c[4] = {-m * x0 * x0 * x1, m * (x0 * x0 + 2 * x0 * x1), m * (-2 * x0 - x1), m}, c2[3] = {m * x0 * x0, -2 * m * x0, m}; ctx.sig(vh::Hash().d(x0).d(x1).d(m).h); double st[4][4], s2[3][3], g2[3][3]; d::SturmSequenceOfPolynomial_Cubic(st, c); d::SturmSequenceOfPolynomial_Quadratic(s2, c2); d::SturmSequenceOfPolynomial<3>(g2, c2);
  double a = r.uni(-0.5, 0.9), b = r.uni(a, 1.8); for (double x : {x0, x1}) if (std::fabs(x - a) < 1e-2 || std::fabs(x - b) < 1e-2) return; int cnt = (x0 > a && x0 < b) + (x1 > a && x1 < b && x1 != x0);
  int got = quad ? d::SturmNumber<3>(a, s2) - d::SturmNumber<3>(b, s2) : d::SturmNumber<4>(a, st) - d::SturmNumber<4>(b, st); CK(got == cnt, "a double root is counted once", "(%g,%g): %d expected %d for roots %g %g %g", a, b, got, cnt, x0, x0, x1); if (quad) CK(d::SturmNumber<3>(a, g2) - d::SturmNumber<3>(b, g2) == cnt, "a double root is counted once (general sequence)", "%g", x0); ctx.count("multiple"); }
template <class R> static void quad(vh::Ctx &ctx) {
  auto &r = ctx.rng; int kind = r.irange(0, 4); LD a, b, c; std::vector<LD> rt; R lo = (R)r.uni(-2, 1), hi = (R)(lo + r.uni(0.2, 3));
  if (kind == 0) { a = 0; b = r.uni(0.2, 2) * (r.chance(0.5) ? 1 : -1); LD x = r.uni(-3, 3); if (r.chance(0.2)) x = 0; c = -b * x; rt = {x}; }
  else if (kind == 1) { a = r.uni(0.2, 2) * (r.chance(0.5) ? 1 : -1); LD re = r.uni(-2, 2), im = r.uni(0.3, 2); b = -2 * re * a; c = a * (re * re + im * im); }
  else { LD x = r.uni(-3, 3), y = r.uni(-3, 3); if (kind == 3) y = (r.chance(0.5) ? 1 : -1) * std::pow(10.L, (LD)r.uni(1, sizeof(R) == 4 ? 4 : 12)); if (r.chance(0.1)) x = 0; if (std::fabs(x - y) < 0.05) return; LD s = r.uni(0.2, 2) * (r.chance(0.5) ? 1 : -1) / (kind == 3 ? std::fabs(y) : 1); a = s; b = -s * (x + y); c = s * x * y; rt = {x, y}; }
  R A = (R)a, B = (R)b, C = (R)c; ctx.sig(vh::Hash().d(A).d(B).d(C).d(lo).d(hi).h); std::sort(rt.begin(), rt.end()); double eps = sizeof(R) == 4 ? 2e-5 : 1e-13; std::vector<LD> in; for (LD x : rt) { if (std::fabs(x - lo) < 1e-3 || std::fabs(x - hi) < 1e-3) return; if (x > lo && x < hi) in.push_back(x); }
  auto v = d::RootsInRange_QuadraticPolynomial<R>(lo, hi, A, B, C); std::sort(v.begin(), v.end());
  if (CK(v.size() == in.size(), "quadratic roots in the range: number", "%zu expected %zu: %g x^2 + %g x + %g on [%g,%g]", v.size(), in.size(), (double)A, (double)B, (double)C, (double)lo, (double)hi)) for (size_t i = 0; i < v.size(); ++i) CK(std::fabs(v[i] - in[i]) < eps * 40 * (1 + std::fabs(in[i])), "quadratic roots in the range", "%.17g expected %.17Lg: %g x^2 + %g x + %g", (double)v[i], in[i], (double)A, (double)B, (double)C);
  ctx.count("quadratic"); if (kind == 0) ctx.count("linear"); if (kind == 3) ctx.count("tiny_leading"); }
VH_FAMILY(quadratic_range, 30000, 150000) { quad<double>(ctx); }
VH_FAMILY(quadratic_range_float, 3000, 60000) { quad<float>(ctx); }
