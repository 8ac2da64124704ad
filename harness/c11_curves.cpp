// C11: curve operations agree with the curve they describe
#include "../lib/vh.h"
#include <vector>
#include <array>
#include <cmath>
#include <algorithm>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/geo_curve_quadratic.h"
#include "delfem2/geo_curve_cubic.h"
#include "delfem2/geo_curve_ndegree.h"
#include "delfem2/geo_surface_parametric.h"
#include "delfem2/quadrature.h"
namespace d = delfem2;
typedef d::CVec2d V2; typedef d::CVec3d V3; typedef d::CVec2f F2; typedef d::CVec3f F3; typedef long double LD;
template <class V> struct Tr; template <> struct Tr<V2> { static const int n = 2; typedef double S; }; template <> struct Tr<V3> { static const int n = 3; typedef double S; }; template <> struct Tr<F2> { static const int n = 2; typedef float S; }; template <> struct Tr<F3> { static const int n = 3; typedef float S; };
struct P { LD x[3] = {0, 0, 0}; LD &operator[](int i) { return x[i]; } LD operator[](int i) const { return x[i]; } };
static P operator+(P a, const P &b) { for (int i = 0; i < 3; ++i) a.x[i] += b.x[i]; return a; }
static P operator-(P a, const P &b) { for (int i = 0; i < 3; ++i) a.x[i] -= b.x[i]; return a; }
static P operator*(P a, LD s) { for (int i = 0; i < 3; ++i) a.x[i] *= s; return a; }
static LD dot(const P &a, const P &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static LD len(const P &a) { return std::sqrt(dot(a, a)); }
template <class V> P up(const V &v) { P p; for (int i = 0; i < Tr<V>::n; ++i) p[i] = v.p[i]; return p; }
template <class V> double dist(const V &v, const P &q) { return (double)len(up(v) - q); }
// de Casteljau
static P bez(std::vector<P> c, LD t) { for (size_t n = c.size(); n > 1; --n) for (size_t i = 0; i + 1 < n; ++i) c[i] = c[i] * (1 - t) + c[i + 1] * t; return c[0]; }
static P dbez(const std::vector<P> &c, LD t) { std::vector<P> q; for (size_t i = 0; i + 1 < c.size(); ++i) q.push_back((c[i + 1] - c[i]) * (LD)(c.size() - 1)); return bez(q, t); }
template <class V> std::vector<P> ups(const std::vector<V> &c) { std::vector<P> r; for (auto &v : c) r.push_back(up(v)); return r; }
static LD size_of(const std::vector<P> &c) { LD m = 0; for (auto &p : c) m = std::max(m, len(p)); return m; }
template <class V> void sig(vh::Ctx &ctx, const std::vector<V> &c) { std::vector<double> s; for (auto &v : c) for (int i = 0; i < Tr<V>::n; ++i) s.push_back(v.p[i]); ctx.sig(vh::Hash().vd(s).h); }
template <class V> V rnd(vh::Rng &r, double s) { V v; for (int i = 0; i < Tr<V>::n; ++i) v.p[i] = (typename Tr<V>::S)(s * r.uni(-1, 1)); return v; }
// control polygons; kind says which degenerate shape
template <class V> std::vector<V> control(vh::Rng &r, int n, int &kind) {
  typedef typename Tr<V>::S S; kind = r.irange(0, 9); double sc = kind == 1 ? 1e-3 : kind == 2 ? 1e3 : 1.; std::vector<V> c(n); for (auto &v : c) v = rnd<V>(r, sc);
  if (kind == 3) { V a = c[0], b = c[n - 1]; for (int i = 0; i < n; ++i) c[i] = a + (b - a) * (S)((double)i / (n - 1)); } // uniform straight line
  if (kind == 4) { V a = c[0], b = c[n - 1] - c[0]; for (int i = 1; i < n; ++i) c[i] = a + b * (S)r.irange(-4, 4); } // collinear, possibly doubling back
  if (kind == 5) { int k = r.irange(0, n - 2); c[k + 1] = c[k]; } // coincident neighbours
  if (kind == 6) c[n - 1] = c[0]; // closed
  if (kind == 7) { int k = r.irange(0, Tr<V>::n - 1); for (auto &v : c) v.p[k] = c[0].p[k]; } // inside an axis-aligned plane
  if (kind == 8 && r.chance(0.3)) for (auto &v : c) v = c[0]; // a point
  if (kind == 9) for (auto &v : c) for (int i = 0; i < Tr<V>::n; ++i) v.p[i] = (S)r.irange(-2, 2);
  return c; }
static const char *KN[10] = {"general", "tiny", "large", "uniform_line", "collinear", "coincident", "closed", "planar", "point", "lattice"};
static LD abs_scale = 1;
static LD speed_integral(const std::vector<P> &c, LD a, LD b, int depth) { // adaptive: Gauss 5 vs two halves
  static const LD X[3] = {0, 0.538469310105683091036314420700208804967L, 0.906179845938663992797626878299392965126L}, W[3] = {0.568888888888888888888888888888888888889L, 0.478628670499366468041291514835638192912L, 0.236926885056189087514264040719917362643L};
  auto q = [&](LD l, LD h) { LD m = (l + h) / 2, e = (h - l) / 2, s = 0; s += W[0] * len(dbez(c, m)); for (int k = 1; k < 3; ++k) s += W[k] * (len(dbez(c, m + e * X[k])) + len(dbez(c, m - e * X[k]))); return s * e; };
  LD m = (a + b) / 2, w = q(a, b), h = q(a, m) + q(m, b); if (depth == 0 || std::fabs(w - h) <= 1e-11L * std::fabs(h) + 1e-17L * (b - a) * abs_scale) return h; return speed_integral(c, a, m, depth - 1) + speed_integral(c, m, b, depth - 1); }
static LD arc(const std::vector<P> &c) { // pieces end where a coordinate turns back: the speed may have a kink there
  abs_scale = 0; for (auto &p : c) abs_scale = std::max(abs_scale, len(p)); std::vector<LD> ts; for (int i = 0; i <= 13; ++i) ts.push_back(i / 13.L);
  for (int k = 0; k < 3; ++k) { LD A, B, D; if (c.size() == 3) { A = 0; B = c[0][k] - 2 * c[1][k] + c[2][k]; D = c[1][k] - c[0][k]; } else { A = c[3][k] - 3 * c[2][k] + 3 * c[1][k] - c[0][k]; B = 2 * (c[0][k] - 2 * c[1][k] + c[2][k]); D = c[1][k] - c[0][k]; } LD dis = B * B - 4 * A * D; if (dis < 0) continue; LD w = B >= 0 ? -(B + std::sqrt(dis)) / 2 : (std::sqrt(dis) - B) / 2; for (LD t : {A != 0 ? w / A : -1.L, w != 0 ? D / w : -1.L, A != 0 ? -B / (2 * A) : -1.L}) if (t > 0 && t < 1) ts.push_back(t); }
  std::sort(ts.begin(), ts.end()); LD s = 0; for (size_t i = 0; i + 1 < ts.size(); ++i) if (ts[i + 1] > ts[i]) s += speed_integral(c, ts[i], ts[i + 1], 22); return s; }
static LD area_ref(const std::vector<P> &c) { int N = 64; LD s = 0; auto f = [&](LD t) { P p = bez(c, t), q = dbez(c, t); return (p[0] * q[1] - p[1] * q[0]) / 2; }; for (int i = 0; i < N; ++i) { LD a = (LD)i / N, h = 1.L / N; s += h / 90 * (7 * f(a) + 32 * f(a + h / 4) + 12 * f(a + h / 2) + 32 * f(a + h * 3 / 4) + 7 * f(a + h)); } return s; }
// global nearest parameter by dense sampling and local refinement
struct Near { LD t, d; bool clear; };
static Near nearest(const std::vector<P> &c, const P &q, LD lo = 0, LD hi = 1) { const int N = 400; std::vector<LD> v(N + 1); for (int i = 0; i <= N; ++i) v[i] = len(bez(c, (LD)i / N) - q); (void)lo; (void)hi; Near b{0, 1e300L, true}; std::vector<std::pair<LD, LD>> m;
  for (int i = 0; i <= N; ++i) if ((i == 0 || v[i] <= v[i - 1]) && (i == N || v[i] <= v[i + 1])) { LD a = std::max<LD>(0, (i - 1.L) / N), e = std::min<LD>(1, (i + 1.L) / N); for (int k = 0; k < 60; ++k) { LD x = a + (e - a) * 0.382L, y = a + (e - a) * 0.618L; if (len(bez(c, x) - q) < len(bez(c, y) - q)) e = y; else a = x; } LD t = (a + e) / 2, dd = len(bez(c, t) - q); for (LD z : {0.L, 1.L}) if (len(bez(c, z) - q) <= dd && std::fabs(z - t) < 1e-6L) { t = z; dd = len(bez(c, z) - q); } m.push_back({t, dd}); if (dd < b.d) { b.t = t; b.d = dd; } }
  for (auto &x : m) if (std::fabs(x.first - b.t) > 1e-6L && x.second < b.d + 1e-2L * size_of(c)) b.clear = false; return b; }

template <class V, int N> std::array<V, 2 * N> split(const std::vector<V> &c, double t);
template <class V> static std::array<V, 6> split3(const std::vector<V> &c, double t) { return d::Split_QuadraticBezierCurve(c[0], c[1], c[2], (typename Tr<V>::S)t); }
template <class V> static std::array<V, 8> split4(const std::vector<V> &c, double t) { return d::Split_CubicBezierCurve(c[0], c[1], c[2], c[3], (typename Tr<V>::S)t); }

template <class V> static void common(vh::Ctx &ctx, int n) {
  typedef typename Tr<V>::S S; auto &r = ctx.rng; int kind; std::vector<V> c = control<V>(r, n, kind); sig(ctx, c); std::vector<P> C = ups(c); LD sz = size_of(C) + 1e-30L; double eps = sizeof(S) == 4 ? 1e-6 : 1e-14; double te = (double)sz * eps * 20; bool q = n == 3; ctx.count(KN[kind]);
  auto at = [&](double t) -> V { return q ? d::PointOnQuadraticBezierCurve((S)t, c[0], c[1], c[2]) : d::PointOnCubicBezierCurve((S)t, c[0], c[1], c[2], c[3]); };
  for (double t : {0., 1., 0.5, r.u01(), r.u01(), r.uni(-0.5, 1.5)}) { t = (S)t; CK(dist(at(t), bez(C, t)) <= te * 10, "point on the curve", "%s t=%g: off by %g", KN[kind], t, dist(at(t), bez(C, t))); if (!q) { V g = d::Tangent_CubicBezierCurve(t, c[0], c[1], c[2], c[n - 1]); CK(dist(g, dbez(C, t)) <= te * 30, "tangent of the curve", "%s t=%g: off by %g", KN[kind], t, dist(g, dbez(C, t))); } }
  { std::vector<V> pl; unsigned m = r.irange(2, 20); if (q) d::Polyline_BezierQuadratic(pl, m, c[0], c[1], c[2]); else d::Polyline_BezierCubic(pl, m, c[0], c[1], c[2], c[3]); if (CK(pl.size() == m, "polyline size", "%zu", pl.size())) for (unsigned i = 0; i < m; ++i) CK(dist(pl[i], bez(C, (LD)i / (m - 1))) <= te * 10, "polyline points", "%u", i); }
  { double t = r.pick({0., 1., 0.5, r.u01()}); t = (S)t; std::vector<P> a, b; std::vector<V> all; if (q) { auto s = split3(c, t); all.assign(s.begin(), s.end()); } else { auto s = split4(c, t); all.assign(s.begin(), s.end()); } for (int i = 0; i < n; ++i) { a.push_back(up(all[i])); b.push_back(up(all[n + i])); } for (int k = 0; k < 4; ++k) { LD u = k == 0 ? 0 : k == 1 ? 1 : r.u01(); CK((double)len(bez(a, u) - bez(C, u * t)) <= te * 10, "first half of a split traces the curve", "t=%g", t); CK((double)len(bez(b, u) - bez(C, t + u * (1 - t))) <= te * 10, "second half of a split traces the curve", "t=%g", t); } }
  { std::vector<double> bb; if (q) { auto s = d::AABB_QuadraticBezierCurve(c[0], c[1], c[2]); bb.assign(s.begin(), s.end()); } else { auto s = d::AABB_CubicBezierCurve(c[0], c[1], c[2], c[3]); bb.assign(s.begin(), s.end()); } int dim = Tr<V>::n; std::vector<LD> lo(dim, 1e300L), hi(dim, -1e300L); for (int k = 0; k < dim; ++k) { std::vector<LD> ts = {0, 1}; LD p0 = C[0][k], p1 = C[1][k], p2 = C[2][k], p3 = n == 4 ? C[3][k] : 0; LD A, B, D; if (q) { A = 0; B = 2 * (p0 - 2 * p1 + p2); D = 2 * (p1 - p0); } else { A = 3 * (p3 - 3 * p2 + 3 * p1 - p0); B = 6 * (p0 - 2 * p1 + p2); D = 3 * (p1 - p0); } LD dis = B * B - 4 * A * D; if (dis >= 0) { LD w = B >= 0 ? -(B + std::sqrt(dis)) / 2 : (std::sqrt(dis) - B) / 2; if (A != 0) ts.push_back(w / A); if (w != 0) ts.push_back(D / w); } for (LD t : ts) if (t >= 0 && t <= 1) { LD v = bez(C, t)[k]; lo[k] = std::min(lo[k], v); hi[k] = std::max(hi[k], v); } }
   
    if (CK((int)bb.size() == 2 * dim, "bounding box size", "%zu", bb.size())) for (int k = 0; k < dim; ++k) CK(std::fabs(bb[k] - lo[k]) <= te * 10 && std::fabs(bb[k + dim] - hi[k]) <= te * 10, "bounding box is tight", "%s axis %d: [%g,%g] expected [%Lg,%Lg]", KN[kind], k, bb[k], bb[k + dim], lo[k], hi[k]); }
  // length
  { LD L = arc(C); double tl = (double)L; double lt = sizeof(S) == 4 ? 2e-5 : 3e-6; double a; 
    if (q) { a = d::Length_QuadraticBezierCurve_Analytic(c[0], c[1], c[2]); CK(std::fabs(a - tl) <= lt * tl + te * 30 + (sizeof(S) == 4 ? 1e-3 * tl : 0), "closed-form length", "%s: %.12g expected %.12g; %.17g %.17g %.17g %.17g %.17g %.17g", KN[kind], a, tl, (double)c[0].p[0], (double)c[0].p[1], (double)c[1].p[0], (double)c[1].p[1], (double)c[2].p[0], (double)c[2].p[1]); }
    double s = q ? (double)d::Length_QuadraticBezierCurve_QuadratureSubdiv(c[0], c[1], c[2], 1e-7, 14) : (double)d::Length_CubicBezierCurve_QuadratureSubdivision(c[0], c[1], c[2], c[3], 1e-7, 14); LD mn = 1e300L, mx = 0; for (int i = 0; i <= 32; ++i) { LD w = len(dbez(C, i / 32.L)); mn = std::min(mn, w); mx = std::max(mx, w); }
    // the two rules may agree by accident on a curve that turns back
    CK(std::fabs(s - tl) <= (mn > 0.2L * mx ? (sizeof(S) == 4 ? 1e-5 : 1e-6) : 1e-2) * tl + te * 30, "length by subdivided quadrature", "%s: %.12g expected %.12g: %.17g %.17g  %.17g %.17g  %.17g %.17g", KN[kind], s, tl, (double)c[0].p[0], (double)c[0].p[1], (double)c[1].p[0], (double)c[1].p[1], (double)c[2].p[0], (double)c[2].p[1]);
    // a smooth regular curve: plain quadrature is accurate
    if (mn > 0.3L * mx) { for (int g = 3; g <= 5; ++g) { double z = q ? (double)d::Length_QuadraticBezierCurve_Quadrature(c[0], c[1], c[2], g) : (double)d::Length_CubicBezierCurve_Quadrature(c[0], c[1], c[2], c[3], g); CK(std::fabs(z - tl) <= 0.05 * tl, "length by quadrature", "%s order %d: %.12g expected %.12g", KN[kind], g, z, tl); } ctx.count("regular_speed"); }
    LD chord = len(C[0] - C[n - 1]), poly = 0; for (int i = 0; i + 1 < n; ++i) poly += len(C[i + 1] - C[i]); CK(s <= poly * (1 + 1e-2) + te * 30 && s >= chord * (1 - 1e-2) - te * 30, "length lies between the chord and the control polygon", "%g in [%Lg,%Lg]", s, chord, poly); }
  if constexpr (Tr<V>::n == 2) { double ar = q ? (double)d::Area_QuadraticBezierCurve2(c[0], c[1], c[2]) : (double)d::Area_CubicBezierCurve2(c[0], c[1], c[2], c[3]); LD ref = area_ref(C); CK(std::fabs(ar - (double)ref) <= te * (double)sz * 20, "area swept from the origin", "%s: %.12g expected %.12Lg", KN[kind], ar, ref); }
  ctx.count(q ? "quadratic" : "cubic"); }
VH_FAMILY(quad2, 1500, 40000) { common<V2>(ctx, 3); }
VH_FAMILY(quad3, 1500, 40000) { common<V3>(ctx, 3); }
VH_FAMILY(cubic2, 1500, 40000) { common<V2>(ctx, 4); }
VH_FAMILY(cubic3, 1500, 40000) { common<V3>(ctx, 4); }
VH_FAMILY(quad2f, 500, 10000) { common<F2>(ctx, 3); }
VH_FAMILY(cubic3f, 500, 10000) { common<F3>(ctx, 4); }

template <class V> static void near_case(vh::Ctx &ctx, int n) {
  auto &r = ctx.rng; int kind; std::vector<V> c = control<V>(r, n, kind); std::vector<P> C = ups(c); LD sz = size_of(C) + 1e-30L; V q = rnd<V>(r, (double)sz * r.pick({1., 0.3, 3.})); int where = r.irange(0, 4); bool quad = n == 3; if (where == 0) { double t = r.u01(); q = quad ? d::PointOnQuadraticBezierCurve(t, c[0], c[1], c[2]) : d::PointOnCubicBezierCurve(t, c[0], c[1], c[2], c[3]); } if (where == 1) q = c[0]; if (where == 2) q = c[n - 1]; sig(ctx, c); P Q = up(q); Near b = nearest(C, Q);
  double ts = quad ? (double)d::Nearest_QuadraticBezierCurve_Sturm(q, c[0], c[1], c[2], 40) : (double)d::Nearest_CubicBezierCurve_Strum(q, c[0], c[1], c[2], c[3], 40); LD ds = len(bez(C, ts) - Q);
  // a nearly multiple root of the derivative costs accuracy in the parameter but not in the squared distance
  double tol = (double)(ds * ds - b.d * b.d); CK(ts >= 0 && ts <= 1 && tol <= 1e-7 * (double)((sz + b.d) * (sz + b.d)), "nearest point by root isolation", "%s: t=%.9g distance %.12Lg, best t=%.9Lg distance %.12Lg %s %s", KN[kind], ts, ds, b.t, b.d, vh::str(std::vector<double>(q.p, q.p + Tr<V>::n)).c_str(), [&] { std::string z; for (auto &v : c) z += vh::str(std::vector<double>(v.p, v.p + Tr<V>::n)); return z; }().c_str());
  unsigned ns = r.irange(1, 80); int ni = r.irange(0, 12); double tn = quad ? (double)d::Nearest_QuadraticBezierCurve(q, c[0], c[1], c[2], ns, ni) : (double)d::Nearest_CubicBezierCurve(q, c[0], c[1], c[2], c[3], ns, ni); LD dn = len(bez(C, tn) - Q), sm = 1e300L; for (unsigned i = 0; i <= ns; ++i) sm = std::min(sm, len(bez(C, (LD)i / ns) - Q)); CK(tn >= 0 && tn <= 1 && dn <= sm + 1e-13L * (sz + sm), "sampled nearest point is not worse than its samples", "%s: t=%.9g distance %.12Lg, best sample %.12Lg", KN[kind], tn, dn, sm);
  if (b.clear && b.d > 0.02L * sz && ns >= 30 && ni >= 9 && b.t > 0.02L && b.t < 0.98L) { auto D = [&](LD t) { P e = bez(C, t) - Q; return dot(e, e); }; LD h = 1e-3L, dd = (D(b.t + h) - 2 * D(b.t) + D(b.t - h)) / (h * h); if (dd > 1.0L * sz * sz) { CK(std::fabs(tn - b.t) < 1e-6L, "sampled nearest point converges", "%s: %.9g expected %.9Lg", KN[kind], tn, b.t); ctx.count("newton_checked"); } }
  ctx.count(b.t == 0 || b.t == 1 ? "near_end" : "near_inner"); }
VH_FAMILY(near_quad2, 800, 20000) { near_case<V2>(ctx, 3); }
VH_FAMILY(near_quad3, 800, 20000) { near_case<V3>(ctx, 3); }
VH_FAMILY(near_cubic2, 800, 20000) { near_case<V2>(ctx, 4); }
VH_FAMILY(near_cubic3, 800, 20000) { near_case<V3>(ctx, 4); }

VH_FAMILY(winding, 1500, 40000) {
  auto &r = ctx.rng; V2 q0 = rnd<V2>(r, 1), q1 = rnd<V2>(r, 4), q2 = rnd<V2>(r, 4); if (r.chance(0.1)) q2 = V2(0, 0); if (r.chance(0.1)) q2 = q1 * -1.; const int N = 2000; double th = 0, mn = 1e300; P p0 = up(q0), pp = p0; for (int i = 0; i <= N; ++i) { LD t = (LD)i / N; P p = p0 + up(q1) * t + up(q2) * (t * t); mn = std::min(mn, (double)len(p)); if (i) th += std::atan2((double)(pp[0] * p[1] - pp[1] * p[0]), (double)(pp[0] * p[0] + pp[1] * p[1])); pp = p; } if (mn < 0.03) return; ctx.sig(vh::Hash().d(q0[0]).d(q1[0]).d(q2[0]).h);
  double w = d::WindingNumber_QuadraticCurve2(q0, q1, q2, 30, r.irange(4, 9)); CK(std::fabs(w - th) < 1e-6, "angle swept around the origin", "%.9g expected %.9g", w, th); ctx.count("winding"); if (std::fabs(th) > 3.2) ctx.count("winding_large"); 
  double e = d::Length_QuadraticCurve(q0, q1, q2); LD L = arc({p0, p0 + up(q1) * 0.5L, p0 + up(q1) + up(q2)}); CK(std::fabs(e - (double)L) < 3e-6 * (1 + (double)L), "length of a curve in monomial form", "%.12g expected %.12Lg", e, L); }
VH_FAMILY(plane, 3000, 60000) {
  auto &r = ctx.rng; int kind; auto c = control<V3>(r, 4, kind); auto C = ups(c); V3 nrm = rnd<V3>(r, 1), org = c[0] * r.u01() + c[3] * r.u01(); if (r.chance(0.6)) { double s = r.uni(0.05, 0.95); org = c[0] * (1 - s) + c[3] * s; } sig(ctx, c); double t = -77; bool ok = d::getParameterCubicBezier_IntersectionWithPlane(t, org, nrm, c[0], c[1], c[2], c[3]); P O = up(org), M = up(nrm); LD h[4], ref = 0; for (int i = 0; i < 4; ++i) { h[i] = dot(C[i] - O, M); ref += std::fabs(h[i]); }
  if (ok) { LD v = dot(bez(C, t) - O, M); CK(t >= 0 && t <= 1 && std::fabs(v) <= 2e-5L * ref, "a reported intersection is one", "%s: t=%g height %Lg of %Lg", KN[kind], t, v, ref); ctx.count("plane_hit"); }
  else { bool opp = h[0] * h[3] < 0 && std::fabs(h[0]) > 1e-3L * ref && std::fabs(h[3]) > 1e-3L * ref; CK(!opp, "ends on opposite sides: an intersection is reported", "%s: heights %Lg %Lg %Lg %Lg", KN[kind], h[0], h[1], h[2], h[3]); ctx.count("plane_none"); } }
VH_FAMILY(chain, 500, 10000) {
  auto &r = ctx.rng; int ns = r.irange(1, 4), n = r.irange(1, 6); std::vector<V3> c(3 * ns + 1); for (auto &v : c) v = rnd<V3>(r, 1); sig(ctx, c); std::vector<V3> p; d::getCubicBezierCurve(n, p, c); if (!CK((int)p.size() == ns * n + 1, "size of a curve chain", "%zu", p.size())) return; for (int i = 0; i <= ns * n; ++i) { int s = std::min(i / n, ns - 1); std::vector<P> C; for (int k = 0; k < 4; ++k) C.push_back(up(c[3 * s + k])); CK(dist(p[i], bez(C, (LD)(i - s * n) / n)) < 1e-13, "points of a curve chain", "%d", i); } ctx.count("chain"); }

// ---------------- B-splines, reference: Cox-de Boor recursion
static LD cox(int i, int k, LD u, const std::vector<LD> &kn, bool last) { if (k == 0) { if (kn[i] <= u && u < kn[i + 1]) return 1; return (last && u == kn.back() && kn[i] < kn[i + 1] && kn[i + 1] == kn.back()) ? 1 : 0; } LD a = kn[i + k] - kn[i], b = kn[i + k + 1] - kn[i + 1]; LD s = 0; if (a > 0) s += (u - kn[i]) / a * cox(i, k - 1, u, kn, last); if (b > 0) s += (kn[i + k + 1] - u) / b * cox(i + 1, k - 1, u, kn, last); return s; }
static P spline(const std::vector<P> &c, int deg, const std::vector<LD> &kn, LD u) { P p; for (size_t i = 0; i < c.size(); ++i) p = p + c[i] * cox(i, deg, u, kn, true); return p; }
static std::vector<LD> openknot(int ncp, int deg) { int N = ncp - deg; std::vector<LD> k; for (int i = 0; i < deg; ++i) k.push_back(0); for (int i = 0; i <= N; ++i) k.push_back(i); for (int i = 0; i < deg; ++i) k.push_back(N); return k; }
static P dspline(const std::vector<P> &c, int deg, const std::vector<LD> &kn, LD u) { std::vector<P> q; for (size_t i = 0; i + 1 < c.size(); ++i) { LD w = kn[i + deg + 1] - kn[i + 1]; q.push_back((c[i + 1] - c[i]) * (w > 0 ? deg / w : 0)); } std::vector<LD> k2(kn.begin() + 1, kn.end() - 1); return spline(q, deg - 1, k2, u); }
static double param(vh::Rng &r, int N) { int k = r.irange(0, 5); if (k == 0) return 0; if (k == 1) return N; if (k == 2) return r.irange(0, N); if (k == 3) { double x = r.irange(0, N); double y = std::nextafter(x, r.chance(0.5) ? 0. : N); return std::clamp<double>(y, 0, N); } return r.uni(0, N); }
VH_FAMILY(bspline_quadratic, 1500, 40000) {
  auto &r = ctx.rng; int n = r.irange(3, 9); std::vector<V3> c(n); for (auto &v : c) v = rnd<V3>(r, 1); sig(ctx, c); auto C = ups(c); auto kn = openknot(n, 2); int N = n - 2;
  for (int k = 0; k < 4; ++k) { double t = param(r, N); CK(dist(d::Sample_QuadraticBsplineCurve(t, c), spline(C, 2, kn, t)) < 1e-13, "quadratic B-spline point", "t=%.17g of %d", t, N); bool knot = t == std::floor(t) && t > 0 && t < N; CK(dist(d::Tangent_QuadraticBsplineCurve(t, c), dspline(C, 2, kn, t)) < 1e-12, "quadratic B-spline tangent", "t=%.17g of %d", t, N); (void)knot; }
  for (int s = 0; s < N; ++s) { double co[3][3]; d::CoefficientsOfOpenUniformBSpline_Quadratic(co, s, (unsigned)N); double t = r.u01(); for (int k = 0; k < 3; ++k) CK(std::fabs(co[k][0] + co[k][1] * t + co[k][2] * t * t - (double)cox(s + k, 2, s + t, kn, true)) < 1e-13, "quadratic B-spline coefficients", "segment %d of %d", s, N); }
  V3 q = rnd<V3>(r, r.pick({0.5, 1., 2.})); if (r.chance(0.2)) q = d::Sample_QuadraticBsplineCurve(r.uni(0, N), c); if (r.chance(0.1)) q = c[0]; if (r.chance(0.1)) q = c[n - 1]; double t = d::Nearest_QuadraticBSplineCurve(c, q); LD b = 1e300L; P Q = up(q); for (int i = 0; i <= 40 * N; ++i) b = std::min(b, len(spline(C, 2, kn, i / 40.L) - Q)); LD g = t >= 0 && t <= N ? len(spline(C, 2, kn, t) - Q) : 1e300L; CK(g <= b + 1e-6L, "nearest point on a quadratic B-spline", "t=%g distance %Lg, sampled %Lg", t, g, b); ctx.count("bsp2"); }
VH_FAMILY(bspline_cubic, 1500, 40000) {
  auto &r = ctx.rng; int n = r.irange(4, 10); std::vector<V3> c(n); for (auto &v : c) v = rnd<V3>(r, 1); sig(ctx, c); auto C = ups(c); auto kn = openknot(n, 3); int N = n - 3; for (int k = 0; k < 4; ++k) { double t = param(r, N); CK(dist(d::Sample_CubicBsplineCurve(t, c), spline(C, 3, kn, t)) < 1e-13, "cubic B-spline point", "t=%.17g of %d", t, N); }
  for (int s = 0; s < N; ++s) { double co[4][4]; d::CoefficientsOfOpenUniformCubicBSpline(co, s, N); double t = r.u01(); for (int k = 0; k < 4; ++k) CK(std::fabs(co[k][0] + t * (co[k][1] + t * (co[k][2] + t * co[k][3])) - (double)cox(s + k, 3, s + t, kn, true)) < 1e-13, "cubic B-spline coefficients", "segment %d of %d", s, N); }
  std::vector<V3> pl; unsigned m = r.irange(2, 12); d::Polyline_CubicBSplineCurve(pl, m, c); if (CK(pl.size() == m, "B-spline polyline size", "%zu", pl.size())) for (unsigned i = 0; i < m; ++i) CK(dist(pl[i], spline(C, 3, kn, std::min<LD>(N, (double)i / (m - 1) * N))) < 1e-12, "B-spline polyline", "%u", i); ctx.count("bsp3"); }
template <int O> static void nspline(vh::Ctx &ctx) { auto &r = ctx.rng; int n = r.irange(O, O + 6); std::vector<V2> c(n); for (auto &v : c) v = rnd<V2>(r, 1); sig(ctx, c); auto C = ups(c); auto kn = openknot(n, O - 1); int N = n - O + 1; for (int k = 0; k < 4; ++k) { double t = param(r, N); CK(dist(d::Sample_BsplineCurve<V2, O>(t, c), spline(C, O - 1, kn, t)) < 1e-11, "B-spline point", "degree %d t=%.17g of %d", O - 1, t, N); if constexpr (O > 2) CK(dist(d::Sample_BsplineDerivative<V2, O>(t, c), dspline(C, O - 1, kn, t)) < 1e-10, "B-spline derivative", "degree %d t=%.17g of %d", O - 1, t, N); } ctx.count(vh::fmt("bsp_degree_%d", O - 1)); }
VH_FAMILY(bspline_n, 2000, 50000) { switch (ctx.rng.irange(2, 6)) { case 2: nspline<2>(ctx); break; case 3: nspline<3>(ctx); break; case 4: nspline<4>(ctx); break; case 5: nspline<5>(ctx); break; default: nspline<6>(ctx); } }
VH_FAMILY(deboor, 2000, 50000) {
  auto &r = ctx.rng; int deg = r.irange(1, 4); std::vector<double> kv; std::vector<int> km; double u = r.uni(-1, 1); int ni = r.irange(0, 5); kv.push_back(u); km.push_back(deg + 1); for (int i = 0; i < ni; ++i) { u += r.chance(0.5) ? 1. : r.uni(0.1, 1); kv.push_back(u); km.push_back(r.irange(1, deg)); } u += r.uni(0.2, 1); kv.push_back(u); km.push_back(deg + 1);
  std::vector<double> flat = {9, 9}; d::FlatKnot(flat, km, kv); std::vector<LD> kn; for (size_t i = 0; i < kv.size(); ++i) for (int k = 0; k < km[i]; ++k) kn.push_back(kv[i]); if (!CK(flat.size() == kn.size() && std::equal(kn.begin(), kn.end(), flat.begin()), "flat knot vector", "%zu", flat.size())) return; std::vector<V3> c(kn.size() - deg - 1); for (auto &v : c) v = rnd<V3>(r, 1); sig(ctx, c); auto C = ups(c);
  for (int k = 0; k < 5; ++k) { double t = k == 0 ? kv[0] : k == 1 ? kv.back() : k == 2 ? r.pick(kv) : r.uni(kv[0], kv.back()); V3 g = d::DeBoorBSpline(t, deg, c, flat); CK(dist(g, spline(C, deg, kn, t)) < 1e-9, "general knot vector", "degree %d t=%.17g", deg, t); }
  std::vector<V3> pl; int ns = r.irange(1, 9); d::SampleBSpline(pl, ns, deg, flat, c); if (CK((int)pl.size() == ns + 1, "sampled spline size", "%zu", pl.size())) for (int i = 0; i <= ns; ++i) CK(dist(pl[i], spline(C, deg, kn, std::clamp<LD>(kn[0] + (kn.back() - kn[0]) * i / ns, kn[0], kn.back()))) < 1e-9, "sampled spline", "%d of %d", i, ns); ctx.count("deboor"); }
VH_FAMILY(catmull, 1500, 30000) {
  auto &r = ctx.rng; int n = r.irange(3, 9); std::vector<V2> c(n); for (auto &v : c) v = rnd<V2>(r, 1); sig(ctx, c); auto C = ups(c); auto m = [&](int i) { return i == 0 ? C[1] - C[0] : i == n - 1 ? C[n - 1] - C[n - 2] : (C[i + 1] - C[i - 1]) * 0.5L; };
  for (int k = 0; k < 5; ++k) { double s = param(r, n - 1); int i = std::min((int)s, n - 2); LD t = s - i; P e = C[i] * (1 - t * t * (3 - 2 * t)) + C[i + 1] * (t * t * (3 - 2 * t)) + m(i) * (t * (1 - t) * (1 - t)) - m(i + 1) * (t * t * (1 - t)); CK(dist(d::Sample_CatmullRomSplineCurve(s, c), e) < 1e-13, "Catmull-Rom spline", "s=%.17g of %d", s, n - 1); }
  std::vector<V2> pl; unsigned q = n * 2 - 1; d::Polyline_CatmullRomSplineCurve(pl, q, c); if (CK(pl.size() == q, "Catmull-Rom polyline size", "%zu", pl.size())) for (int i = 0; i < n; ++i) CK(dist(pl[2 * i], C[i]) < 1e-12, "Catmull-Rom spline interpolates", "%d", i); ctx.count("catmull"); }

// ---------------- surfaces
VH_FAMILY(surface, 1500, 30000) {
  auto &r = ctx.rng; std::vector<V3> c(16); for (auto &v : c) v = rnd<V3>(r, 1); sig(ctx, c); auto C = ups(c); auto patch = [&](LD u, LD v) { std::vector<P> row; for (int i = 0; i < 4; ++i) row.push_back(bez({C[4 * i], C[4 * i + 1], C[4 * i + 2], C[4 * i + 3]}, v)); return bez(row, u); };
  double u = r.pick({0., 1., r.u01()}), v = r.pick({0., 1., r.u01()}); CK(dist(d::getPointSurfaceBezierCubic(u, v, c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8], c[9], c[10], c[11], c[12], c[13], c[14], c[15]), patch(u, v)) < 1e-13, "Bezier patch", "%g %g", u, v);
  int n = r.irange(1, 5); std::vector<V3> g; d::getCubicBezierSurface(n, g, c); if (CK((int)g.size() == (n + 1) * (n + 1), "patch grid size", "%zu", g.size())) for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) CK(dist(g[i * (n + 1) + j], patch((LD)i / n, (LD)j / n)) < 1e-13, "patch grid", "%d %d", i, j);
  // a quad bounded by four cubic curves
  V3 q[12]; for (auto &w : q) w = rnd<V3>(r, 1); P Q[12]; for (int i = 0; i < 12; ++i) Q[i] = up(q[i]); auto e0 = [&](LD s) { return bez({Q[0], Q[1], Q[2], Q[3]}, s); }; auto e1 = [&](LD s) { return bez({Q[9], Q[8], Q[7], Q[6]}, s); }; auto f0 = [&](LD s) { return bez({Q[0], Q[11], Q[10], Q[9]}, s); }; auto f1 = [&](LD s) { return bez({Q[3], Q[4], Q[5], Q[6]}, s); };
  P coons = e0(u) * (1 - (LD)v) + e1(u) * v + f0(v) * (1 - (LD)u) + f1(v) * u - (Q[0] * ((1 - (LD)u) * (1 - (LD)v)) + Q[3] * (u * (1 - (LD)v)) + Q[6] * ((LD)u * v) + Q[9] * ((1 - (LD)u) * v)); CK(dist(d::getPointCoonsQuad_CubicBezier(u, v, q), coons) < 1e-13 && dist(d::getPointCoonsQuad_CubicBezierEdge(u, v, q), coons) < 1e-13, "Coons quad", "%g %g", u, v);
  // the hermitian patch interpolates the same boundary
  { double s = r.u01(); CK(dist(d::getPointHermetianQuad(s, 0., q), e0(s)) < 1e-12 && dist(d::getPointHermetianQuad(s, 1., q), e1(s)) < 1e-12 && dist(d::getPointHermetianQuad(0., s, q), f0(s)) < 1e-12 && dist(d::getPointHermetianQuad(1., s, q), f1(s)) < 1e-12, "hermitian quad interpolates its boundary", "%g", s); }
  // a triangle bounded by three cubic curves
  { double s = r.pick({0., 1., 0.5, r.u01()}); double w; V3 b0 = d::getPointCoonsTri_CubicBezierEdge(1 - s, s, w = 0., q), b1 = d::getPointCoonsTri_CubicBezierEdge(0., 1 - s, s, q), b2 = d::getPointCoonsTri_CubicBezierEdge(s, 0., 1 - s, q); CK(dist(b0, bez({Q[0], Q[1], Q[2], Q[3]}, s)) < 1e-13, "Coons triangle interpolates its first edge", "s=%g", s); CK(dist(b1, bez({Q[3], Q[4], Q[5], Q[6]}, s)) < 1e-13, "Coons triangle interpolates its second edge", "s=%g", s); CK(dist(b2, bez({Q[6], Q[7], Q[8], Q[0]}, s)) < 1e-13, "Coons triangle interpolates its third edge", "s=%g", s); }
  ctx.count("surface"); }
// ---------------- quadrature rules
VH_FAMILY(quadrature, 9, 9) {
  int i = (int)ctx.icase; if (i < 7) { unsigned a = d::kNumIntegrationPoint_GaussianQuadrature[i], b = d::kNumIntegrationPoint_GaussianQuadrature[i + 1]; CK(b - a == (unsigned)i + 1, "rule size", "%u", b - a); for (int deg = 0; deg <= 2 * i + 1; ++deg) { LD s = 0; double sf = 0; for (unsigned k = a; k < b; ++k) { s += std::pow((LD)d::kPositionWeight_GaussianQuadrature<double>[k][0], deg) * d::kPositionWeight_GaussianQuadrature<double>[k][1]; sf += std::pow((double)d::kPositionWeight_GaussianQuadrature<float>[k][0], deg) * d::kPositionWeight_GaussianQuadrature<float>[k][1]; } LD e = deg % 2 ? 0 : 2.L / (deg + 1); CK(std::fabs(s - e) < 1e-13L && std::fabs(sf - (double)e) < 2e-6, "Gauss rule is exact", "%d points degree %d: %.17Lg expected %.17Lg", i + 1, deg, s, e); } }
  else if (i == 7) for (int deg = 0; deg <= 22; ++deg) { LD s = 0; for (int k = 0; k < 15; ++k) s += std::pow((LD)d::kPositionWeight_GaussKronrodQuadrature<double>[k][0], deg) * d::kPositionWeight_GaussKronrodQuadrature<double>[k][1]; LD e = deg % 2 ? 0 : 2.L / (deg + 1); CK(std::fabs(s - e) < 1e-13L, "Kronrod rule is exact", "degree %d: %.17Lg expected %.17Lg", deg, s, e); }
  ctx.sig(vh::Hash().u(i).h); ctx.count("rules"); }
