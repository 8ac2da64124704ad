// C34: boundary element flow (0th, 1st order, vortex sheet), wave fields, vortex particles and their grid.
#include "../lib/vh.h"
#include <cmath>
#include <complex>
#include <iostream>
#include "delfem2/bem.h"
namespace d = delfem2;
using V3 = d::CVec3d;
using cd = std::complex<double>;
struct Quiet { std::ostringstream o; std::streambuf *b; Quiet() { b = std::cout.rdbuf(o.rdbuf()); } ~Quiet() { std::cout.rdbuf(b); } };
struct P3 { double x, y, z; };
static P3 operator+(P3 a, P3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static P3 operator-(P3 a, P3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static P3 operator*(double s, P3 a) { return {s * a.x, s * a.y, s * a.z}; }
static double dot(P3 a, P3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static P3 cross(P3 a, P3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static double len(P3 a) { return std::sqrt(dot(a, a)); }
static P3 unit(P3 a) { return (1 / len(a)) * a; }
static P3 p3(const V3 &v) { return {v.p[0], v.p[1], v.p[2]}; }
static V3 v3(P3 a) { return V3(a.x, a.y, a.z); }
static P3 rdir(vh::Ctx &ctx) { for (;;) { P3 v{ctx.rng.gauss(), ctx.rng.gauss(), ctx.rng.gauss()}; if (len(v) > 0.1) return unit(v); } }
struct Mesh { std::vector<P3> X; std::vector<std::array<int, 3>> T;
  std::vector<double> xyz() const { std::vector<double> o; for (P3 p : X) { o.push_back(p.x); o.push_back(p.y); o.push_back(p.z); } return o; }
  template <class I> std::vector<I> tri() const { std::vector<I> o; for (auto &t : T) for (int k : t) o.push_back((I)k); return o; } };
// ---- accurate integrals over a triangle: Gauss-Legendre (10 x 10) on the collapsed square, halved while the point is near
static const double *gl_x() { static double x[10]; static bool k = false; if (!k) { for (int i = 0; i < 10; ++i) { double t = std::cos(M_PI * (i + 0.75) / 10.5); for (int n = 0; n < 60; ++n) { double p0 = 1, p1 = t; for (int j = 2; j <= 10; ++j) { double p = ((2 * j - 1) * t * p1 - (j - 1) * p0) / j; p0 = p1; p1 = p; } double dp = 10 * (t * p1 - p0) / (t * t - 1); t -= p1 / dp; } x[i] = t; } k = true; } return x; }
static const double *gl_w() { static double w[10]; static bool k = false; if (!k) { const double *x = gl_x(); for (int i = 0; i < 10; ++i) { double t = x[i], p0 = 1, p1 = t; for (int j = 2; j <= 10; ++j) { double p = ((2 * j - 1) * t * p1 - (j - 1) * p0) / j; p0 = p1; p1 = p; } double dp = 10 * (t * p1 - p0) / (t * t - 1); w[i] = 2 / ((1 - t * t) * dp * dp); } k = true; } return w; }
// f(y, b0, b1, b2) accumulates weight w
template <class F> static void integ_rec(const P3 q[3], const std::array<double, 3> b[3], P3 p, int depth, F &&f) {
  P3 c = (1. / 3) * (q[0] + q[1] + q[2]); double sz = std::max({len(q[0] - q[1]), len(q[1] - q[2]), len(q[2] - q[0])});
  if (depth > 0 && len(p - c) < 1.6 * sz) {
    P3 m[3] = {0.5 * (q[1] + q[2]), 0.5 * (q[2] + q[0]), 0.5 * (q[0] + q[1])}; std::array<double, 3> n[3];
    for (int k = 0; k < 3; ++k) { n[0][k] = 0.5 * (b[1][k] + b[2][k]); n[1][k] = 0.5 * (b[2][k] + b[0][k]); n[2][k] = 0.5 * (b[0][k] + b[1][k]); }
    { P3 s[3] = {q[0], m[2], m[1]}; std::array<double, 3> e[3] = {b[0], n[2], n[1]}; integ_rec(s, e, p, depth - 1, f); }
    { P3 s[3] = {q[1], m[0], m[2]}; std::array<double, 3> e[3] = {b[1], n[0], n[2]}; integ_rec(s, e, p, depth - 1, f); }
    { P3 s[3] = {q[2], m[1], m[0]}; std::array<double, 3> e[3] = {b[2], n[1], n[0]}; integ_rec(s, e, p, depth - 1, f); }
    { P3 s[3] = {m[0], m[1], m[2]}; std::array<double, 3> e[3] = {n[0], n[1], n[2]}; integ_rec(s, e, p, depth - 1, f); }
    return;
  }
  double A2 = len(cross(q[1] - q[0], q[2] - q[0])); const double *x = gl_x(), *w = gl_w();
  for (int i = 0; i < 10; ++i) for (int j = 0; j < 10; ++j) {
    double u = 0.5 * (1 + x[i]), v = 0.5 * (1 + x[j]); double l0 = u, l1 = (1 - u) * v, l2 = 1 - l0 - l1; double wt = 0.25 * w[i] * w[j] * (1 - u) * A2;
    P3 y = l0 * q[0] + l1 * q[1] + l2 * q[2]; double B[3]; for (int k = 0; k < 3; ++k) B[k] = l0 * b[0][k] + l1 * b[1][k] + l2 * b[2][k];
    f(y, B, wt);
  }
}
template <class F> static void integ(P3 a, P3 b, P3 c, P3 p, F &&f, int depth = 4) { P3 q[3] = {a, b, c}; std::array<double, 3> e[3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}; integ_rec(q, e, p, depth, f); }
static const int DEG[6] = {1, 2, 5, 6, 7, 8};
// accuracy of a rule of degree d for the kernels here, relative to the integral of the absolute kernel, as a function of h / distance
static double rule_tol(int g, double ratio) { return 2e-8 + 6 * std::pow(1.1 * ratio, DEG[g] + 1); }
static double solid_angle(P3 a, P3 b, P3 c) { double la = len(a), lb = len(b), lc = len(c); return 2 * std::atan2(dot(a, cross(b, c)), la * lb * lc + dot(a, b) * lc + dot(b, c) * la + dot(c, a) * lb); }
static double winding(const Mesh &m, P3 p) { double s = 0; for (auto &t : m.T) s += solid_angle(m.X[t[0]] - p, m.X[t[1]] - p, m.X[t[2]] - p); return s / (4 * M_PI); }
static Mesh icosphere(int n) { // every face of an icosahedron divided n x n
  const double f = (1 + std::sqrt(5.)) / 2; std::vector<P3> V = {{-1, f, 0}, {1, f, 0}, {-1, -f, 0}, {1, -f, 0}, {0, -1, f}, {0, 1, f}, {0, -1, -f}, {0, 1, -f}, {f, 0, -1}, {f, 0, 1}, {-f, 0, -1}, {-f, 0, 1}};
  int F[20][3] = {{0, 11, 5}, {0, 5, 1}, {0, 1, 7}, {0, 7, 10}, {0, 10, 11}, {1, 5, 9}, {5, 11, 4}, {11, 10, 2}, {10, 7, 6}, {7, 1, 8}, {3, 9, 4}, {3, 4, 2}, {3, 2, 6}, {3, 6, 8}, {3, 8, 9}, {4, 9, 5}, {2, 4, 11}, {6, 2, 10}, {8, 6, 7}, {9, 8, 1}};
  Mesh m; std::map<std::array<long, 3>, int> id;
  auto add = [&](P3 p) { p = unit(p); std::array<long, 3> k{std::lround(p.x * 1e7), std::lround(p.y * 1e7), std::lround(p.z * 1e7)}; auto it = id.find(k); if (it != id.end()) return it->second; m.X.push_back(p); return id[k] = (int)m.X.size() - 1; };
  for (auto &t : F) { std::vector<std::vector<int>> g(n + 1); for (int i = 0; i <= n; ++i) for (int j = 0; j <= n - i; ++j) g[i].push_back(add((double)(n - i - j) * V[t[0]] + (double)i * V[t[1]] + (double)j * V[t[2]]));
    for (int i = 0; i < n; ++i) for (int j = 0; j < n - i; ++j) { m.T.push_back({g[i][j], g[i + 1][j], g[i][j + 1]}); if (j < n - i - 1) m.T.push_back({g[i + 1][j], g[i + 1][j + 1], g[i][j + 1]}); } }
  return m;
}
static void shuffle_mesh(vh::Ctx &ctx, Mesh &m) { std::vector<int> pe(m.X.size()); for (size_t i = 0; i < pe.size(); ++i) pe[i] = (int)i; ctx.rng.shuffle(pe); std::vector<P3> X(m.X.size()); for (size_t i = 0; i < pe.size(); ++i) X[pe[i]] = m.X[i]; m.X = X; for (auto &t : m.T) { int r = ctx.rng.irange(0, 2); std::array<int, 3> o{pe[t[r]], pe[t[(r + 1) % 3]], pe[t[(r + 2) % 3]]}; t = o; } ctx.rng.shuffle(m.T); }
static std::vector<double> solve(std::vector<double> A, std::vector<double> b) { int n = (int)b.size(); for (int i = 0; i < n; ++i) { int p = i; for (int k = i; k < n; ++k) if (std::fabs(A[k * n + i]) > std::fabs(A[p * n + i])) p = k; if (p != i) { for (int j = 0; j < n; ++j) std::swap(A[i * n + j], A[p * n + j]); std::swap(b[i], b[p]); } double iv = 1 / A[i * n + i]; for (int k = i + 1; k < n; ++k) { double c = A[k * n + i] * iv; if (c == 0) continue; for (int j = i; j < n; ++j) A[k * n + j] -= c * A[i * n + j]; b[k] -= c * b[i]; } } for (int i = n - 1; i >= 0; --i) { double s = b[i]; for (int j = i + 1; j < n; ++j) s -= A[i * n + j] * b[j]; b[i] = s / A[i * n + i]; } return b; }
static double fin(double x) { return std::isfinite(x) ? x : 1e300; }

// a handful of triangles far enough from the evaluation point for the rules to be accurate
struct Patch { Mesh m; P3 p; double ratio, dist; };
static Patch make_patch(vh::Ctx &ctx) {
  auto &r = ctx.rng; Patch c; double ls = std::pow(10., r.uni(-1.5, 1.5)); int nt = r.irange(1, 5); c.p = ls * P3{r.uni(-3, 3), r.uni(-3, 3), r.uni(-3, 3)}; c.ratio = std::exp(r.uni(std::log(0.03), std::log(0.45))); c.dist = 1e300;
  for (int t = 0; t < nt; ++t) for (;;) { double D = ls * std::exp(r.uni(0, 1.)); P3 ce = c.p + D * rdir(ctx); P3 q[3]; double h = 0, dm = 1e300; for (auto &x : q) { x = ce + (0.5 * c.ratio * D) * rdir(ctx); }
    for (int k = 0; k < 3; ++k) { h = std::max(h, len(q[k] - q[(k + 1) % 3])); dm = std::min(dm, len(q[k] - c.p)); } double A = 0.5 * len(cross(q[1] - q[0], q[2] - q[0])); if (A < 0.1 * h * h || h > c.ratio * dm) continue;
    int o = (int)c.m.X.size(); for (auto &x : q) c.m.X.push_back(x); c.m.T.push_back({o, o + 1, o + 2}); c.dist = std::min(c.dist, dm); break; }
  return c;
}

VH_FAMILY(panels, 400, 6000) { // fields of single panels against accurate integrals of the kernels
  auto &r = ctx.rng; Patch c = make_patch(ctx); const Mesh &m = c.m; auto X = m.xyz(); auto Tu = m.tri<unsigned>(); auto Ti = m.tri<int>(); int nt = (int)m.T.size(), np = (int)m.X.size(); P3 U = r.chance(0.15) ? P3{0, 0, 0} : r.uni(0.1, 3) * rdir(ctx);
  std::vector<double> st(nt), sp(np), sv(2 * nt); for (double &v : st) v = r.uni(-2, 2); for (double &v : sp) v = r.uni(-2, 2); for (double &v : sv) v = r.uni(-2, 2); if (r.chance(0.1)) for (double &v : st) v = 0;
  ctx.sig(vh::Hash().vd(X).d(U.x).d(c.p.x).h); const double f4 = 1 / (4 * M_PI);
  for (int g = 0; g < 6; ++g) {
    double tol = rule_tol(g, c.ratio);
    double ph0 = 0, ph1 = 0, s0 = 1e-300, sg = 1e-300, svl = 1e-300; P3 g0{0, 0, 0}, g1{0, 0, 0}, vs{0, 0, 0};
    for (int t = 0; t < nt; ++t) { P3 a = m.X[m.T[t][0]], b = m.X[m.T[t][1]], e = m.X[m.T[t][2]]; P3 nm = unit(cross(b - a, e - a)), n = -1. * nm; P3 uy = unit(b - a), vy = cross(nm, uy);
      integ(a, b, e, c.p, [&](P3 y, const double *B, double w) { P3 v = c.p - y; double l = len(v), G = f4 / l, K = dot(v, n) * f4 / (l * l * l), vn = -dot(n, U); P3 dG = (-f4 / (l * l * l)) * v, dK = (f4 / (l * l * l)) * n - (3 * dot(v, n) * f4 / (l * l * l * l * l)) * v; double f0 = st[t], f1 = B[0] * sp[m.T[t][0]] + B[1] * sp[m.T[t][1]] + B[2] * sp[m.T[t][2]];
        ph0 += w * (-K * f0 + G * vn); ph1 += w * (-K * f1 + G * vn); g0 = g0 + w * (vn * dG - f0 * dK); g1 = g1 + w * (vn * dG - f1 * dK); s0 += w * (2 * f4 / (l * l) + G * std::fabs(vn) + 1e-3 * G); sg += w * (8 * f4 / (l * l * l) + std::fabs(vn) * f4 / (l * l));
        // the field of a sheet of circulation of the given strength along the triangle's own axes
        P3 gam = sv[2 * t] * vy - sv[2 * t + 1] * uy; vs = vs + (w * f4 / (l * l * l)) * cross(gam, v); svl += w * 3 * f4 / (l * l); }); }
    double phi = 7; V3 gr(7, 7, 7); d::evaluateField_PotentialFlow_Order0th(phi, gr, v3(c.p), v3(U), g, st, X, Tu); P3 e0 = p3(gr) - (U + g0);
    CK(fin(std::fabs(phi - ph0)) <= tol * s0 * 2, "constant panels: potential", "rule %d ratio %g: %g should be %g (scale %g)", g, c.ratio, phi, ph0, s0);
    CK(fin(len(e0)) <= tol * sg * 3 + 1e-13 * len(U), "constant panels: velocity", "rule %d ratio %g: off %g scale %g", g, c.ratio, len(e0), sg);
    phi = 7; V3 gv = d::evaluateField_PotentialFlow_Order1st(phi, v3(c.p), v3(U), g, sp, X, Ti); P3 e1 = p3(gv) - (U + g1);
    CK(fin(std::fabs(phi - ph1)) <= tol * s0 * 2, "linear panels: potential", "rule %d ratio %g: %g should be %g (scale %g)", g, c.ratio, phi, ph1, s0);
    CK(fin(len(e1)) <= tol * sg * 3 + 1e-13 * len(U), "linear panels: velocity", "rule %d ratio %g: off %g scale %g", g, c.ratio, len(e1), sg);
    P3 ev = p3(d::evaluateField_VortexSheet_Order0th(v3(c.p), sv, g, X, Ti, -1)) - vs; CK(fin(len(ev)) <= tol * svl * 3, "vortex sheet: velocity", "rule %d ratio %g: off %g scale %g", g, c.ratio, len(ev), svl);
    // leaving one panel out
    int ex = r.irange(0, nt - 1); P3 vx = p3(d::evaluateField_VortexSheet_Order0th(v3(c.p), sv, g, X, Ti, ex)); auto s2 = sv; s2[2 * ex] = s2[2 * ex + 1] = 0; CK(len(vx - p3(d::evaluateField_VortexSheet_Order0th(v3(c.p), s2, g, X, Ti, -1))) <= 1e-12 * svl, "leaving one panel out", "");
    ctx.count("panel_fields", 3); ctx.count(("rule_" + std::to_string(g)).c_str());
  }
  // coefficients of the vortex sheet equal the field at the centre of the other panel
  if (nt >= 2) for (int g = 0; g < 6; ++g) { P3 o = c.p; double h = r.uni(0.01, 0.2) * c.dist; P3 x0 = o + h * rdir(ctx), x1 = o + h * rdir(ctx); P3 x2 = 3. * o - x0 - x1; if (len(cross(x1 - x0, x2 - x0)) < 0.1 * h * h) continue; P3 nx = unit(cross(x1 - x0, x2 - x0)), ux = unit(x1 - x0), vx = cross(nx, ux);
    int t = r.irange(0, nt - 1); double C[4]; d::BEM_VortexSheet_Coeff_0th(C, v3(x0), v3(x1), v3(x2), v3(m.X[m.T[t][0]]), v3(m.X[m.T[t][1]]), v3(m.X[m.T[t][2]]), v3(U), g); std::vector<double> s(2 * nt, 0.0); double tolc = 0; for (int k = 0; k < 2; ++k) { s[2 * t] = k == 0; s[2 * t + 1] = k == 1; P3 v = p3(d::evaluateField_VortexSheet_Order0th(v3(o), s, g, X, Ti, -1)); tolc = 1e-11 * (len(v) + 1e-300) + 1e-12 / (c.dist); CK(std::fabs(C[k] + dot(v, ux)) <= tolc * 10 && std::fabs(C[2 + k] + dot(v, vx)) <= tolc * 10, "coefficients of a pair of panels", "%g %g should be %g %g", C[k], C[2 + k], -dot(v, ux), -dot(v, vx)); } ctx.count("pair_coefficients"); }
  { // wave fields
    double k = r.chance(0.1) ? 0 : r.uni(0, 3) / c.dist, be = r.chance(0.2) ? 0 : r.uni(-1, 1); std::vector<cd> sol(np); for (auto &v : sol) v = cd(r.uni(-1, 1), r.uni(-1, 1)); P3 src = c.p + c.dist * r.uni(0.1, 3) * rdir(ctx); double rs = len(c.p - src); cd inc = std::exp(cd(0, k * rs)) * (f4 / rs);
    for (int g = 0; g < 3; ++g) { cd tot = inc; double sc = 0; for (int t = 0; t < nt; ++t) { P3 a = m.X[m.T[t][0]], b = m.X[m.T[t][1]], e = m.X[m.T[t][2]]; P3 n = unit(cross(b - a, e - a)); cd C[3] = {0, 0, 0}; double s = 1e-300;
        integ(a, b, e, c.p, [&](P3 y, const double *B, double w) { P3 v = c.p - y; double l = len(v); cd G = std::exp(cd(0, k * l)) * (f4 / l); cd ker = G * (cd(1 / l, -k) * (dot(v, n) / l) - cd(0, k * be)); for (int q = 0; q < 3; ++q) C[q] += w * B[q] * ker; s += w * f4 / l * (1 / l + k + k * std::fabs(be)); });
        cd o[3]; d::Helmholtz_TransferOrder1st_PntTri(o, v3(c.p), v3(a), v3(b), v3(e), k, be, g); for (int q = 0; q < 3; ++q) { double tl = (rule_tol(g, c.ratio) + (g == 0 ? 2 : 3) * std::pow((1 + k * c.dist) * 0.5 * c.ratio, DEG[g] + 1)) * s * (g == 0 ? 4 : 2); CK(fin(std::abs(o[q] - C[q])) <= tl, "wave: linear panel coefficients", "rule %d ratio %g k %g: off %g scale %g", g, c.ratio, k, std::abs(o[q] - C[q]), s); tot -= o[q] * sol[m.T[t][q]]; } sc += s; }
      cd ev = d::evaluateField_Helmholtz_Order1st(sol, v3(c.p), v3(src), k, be, Ti, X, r.chance(0.5), g); CK(fin(std::abs(ev - tot)) <= 1e-12 * (std::abs(inc) + sc), "wave: source plus panels (linear)", "off %g", std::abs(ev - tot)); ctx.count("wave_fields"); }
    std::vector<cd> s0(nt); for (auto &v : s0) v = cd(r.uni(-1, 1), r.uni(-1, 1)); bool inv = r.chance(0.5); cd tot = inc; double sc = std::abs(inc);
    for (int t = 0; t < nt; ++t) { P3 a = m.X[m.T[t][0]], b = m.X[m.T[t][1]], e = m.X[m.T[t][2]]; P3 an = 0.5 * cross(b - a, e - a); double A = len(an); P3 n = (inv ? -1 / A : 1 / A) * an; P3 v = c.p - (1. / 3) * (a + b + e); double l = len(v); cd G = std::exp(cd(0, k * l)) * (f4 / l); tot += A * s0[t] * (G * cd(1 / l, -k) * (dot(v, n) / l) + cd(0, k * be) * G); sc += A * f4 / l * (1 / l + 2 * k) * 2; }
    cd ev = d::evaluateField_Helmholtz_Order0th(s0, v3(c.p), v3(src), k, be, Tu, X, inv); CK(fin(std::abs(ev - tot)) <= 1e-12 * sc, "wave: source plus panels (constant)", "off %g of %g", std::abs(ev - tot), sc);
    std::vector<cd> z(np, 0.0); CK(std::abs(d::evaluateField_Helmholtz_Order1st(z, v3(c.p), v3(src), k, be, Ti, X, false, 1) - inc) <= 1e-14 * std::abs(inc), "wave: free field", "");
    // panels of sources
    P3 q{0, 0, 0}; double qs = 0; for (int t = 0; t < nt; ++t) { P3 a = m.X[m.T[t][0]], b = m.X[m.T[t][1]], e = m.X[m.T[t][2]]; double A = 0.5 * len(cross(b - a, e - a)); P3 v = c.p - (1. / 3) * (a + b + e); q = q - (A * st[t] / (len(v) * len(v) * len(v))) * v; qs += A * std::fabs(st[t]) / dot(v, v); } CK(len(p3(d::evaluateField_PotentialFlow(st, v3(c.p), Tu, X)) - q) <= 1e-12 * qs, "source panels", "");
    P3 mp = p3(d::MidPoint(r.irange(0, 0), Tu, X)); CK(len(mp - (1. / 3) * (m.X[m.T[0][0]] + m.X[m.T[0][1]] + m.X[m.T[0][2]])) <= 1e-13 * (len(mp) + c.dist), "middle of a panel", ""); }
}

static Mesh make_body(vh::Ctx &ctx, int n, bool sphere, P3 *cen = nullptr, double *rad = nullptr) {
  auto &r = ctx.rng; Mesh m = icosphere(n); double R = std::pow(10., r.uni(-1, 1)); P3 c = R * P3{r.uni(-2, 2), r.uni(-2, 2), r.uni(-2, 2)}; P3 ax = rdir(ctx); double th = r.uni(0, 3); double sx = 1, sy = 1, sz = 1, bu = 0; P3 bd = rdir(ctx); if (!sphere) { sx = r.uni(0.7, 1.4); sy = r.uni(0.7, 1.4); sz = r.uni(0.7, 1.4); bu = r.uni(-0.25, 0.25); }
  for (P3 &p : m.X) { double q = 1 + bu * dot(p, bd) * dot(p, bd); p = q * P3{sx * p.x, sy * p.y, sz * p.z}; p = std::cos(th) * p + std::sin(th) * cross(ax, p) + (1 - std::cos(th)) * dot(ax, p) * ax; p = c + R * p; }
  shuffle_mesh(ctx, m); if (cen) *cen = c; if (rad) *rad = R; return m;
}
VH_FAMILY(systems, 24, 300) { // every entry of the linear systems
  auto &r = ctx.rng; Mesh m = make_body(ctx, r.irange(1, 2), false); auto X = m.xyz(); auto Tu = m.tri<unsigned>(); auto Ti = m.tri<int>(); int nt = (int)m.T.size(), np = (int)m.X.size(); P3 U = r.uni(0.1, 3) * rdir(ctx); const double f4 = 1 / (4 * M_PI); int g = r.irange(0, 5); ctx.sig(vh::Hash().vd(X).u(g).h); Quiet qq;
  std::vector<double> A{1, 2}, f{3}; d::makeLinearSystem_PotentialFlow_Order0th(A, f, v3(U), g, X, Tu); CK(A.size() == (size_t)nt * nt && f.size() == (size_t)nt, "size of the system", "");
  std::vector<double> B{1}, h; d::makeLinearSystem_VortexSheet_Order0th(B, h, v3(U), g, X, Ti); CK(B.size() == (size_t)4 * nt * nt && h.size() == (size_t)2 * nt, "size of the system (vortex)", ""); if (ctx.failed) return;
  auto nrm = [&](int t) { return cross(m.X[m.T[t][1]] - m.X[m.T[t][0]], m.X[m.T[t][2]] - m.X[m.T[t][0]]); };
  auto ratio = [&](P3 p, int t) { double hh = 0; for (int k = 0; k < 3; ++k) hh = std::max(hh, len(m.X[m.T[t][k]] - m.X[m.T[t][(k + 1) % 3]])); P3 c = (1. / 3) * (m.X[m.T[t][0]] + m.X[m.T[t][1]] + m.X[m.T[t][2]]); double dm = len(p - c); return std::pair<double, double>(hh / std::max(dm - 0.5 * hh, 1e-9 * hh), hh / dm); };
  for (int i = 0; i < nt; ++i) { P3 p = (1. / 3) * (m.X[m.T[i][0]] + m.X[m.T[i][1]] + m.X[m.T[i][2]]); double fs = 0, fself = 0, ftol = 0; P3 ui = unit(m.X[m.T[i][1]] - m.X[m.T[i][0]]), vi = cross(unit(nrm(i)), ui);
    CK(std::fabs(h[2 * i] - dot(ui, U)) <= 1e-12 * 3 && std::fabs(h[2 * i + 1] - dot(vi, U)) <= 1e-12 * 3, "vortex system: right hand side is the tangential stream", "");
    for (int j = 0; j < nt; ++j) { double a = A[i * nt + j]; auto [ra, rb] = ratio(p, j); bool far = ra < 0.9; double Aj = 0.5 * len(nrm(j));
      P3 n = -1. * unit(nrm(j)); double gi = 0, ki = 0; P3 uj = unit(m.X[m.T[j][1]] - m.X[m.T[j][0]]), vj = cross(-1. * n, uj); double c4[4] = {0, 0, 0, 0};
      integ(m.X[m.T[j][0]], m.X[m.T[j][1]], m.X[m.T[j][2]], p, [&](P3 y, const double *, double w) { P3 v = p - y; double l = len(v), q = f4 / (l * l * l); gi += w * f4 / l; ki += w * dot(v, n) * q; P3 a1 = (-q) * cross(vj, v), a2 = q * cross(uj, v); c4[0] += w * dot(a1, ui); c4[1] += w * dot(a2, ui); c4[2] += w * dot(a1, vi); c4[3] += w * dot(a2, vi); }, i == j ? 5 : 4);
      double vn = -dot(n, U); double tg = gi * (far ? rule_tol(g, rb * 0.8) : 0.6), dm = len(p - (1. / 3) * (m.X[m.T[j][0]] + m.X[m.T[j][1]] + m.X[m.T[j][2]])), ks = i == j ? 0 : Aj * f4 / (dm * dm);
      if (i == j) { fself = gi * vn; CK(std::fabs(a - 0.5) <= 1e-12, "half on the diagonal", "%g", a); for (int k = 0; k < 4; ++k) CK(std::fabs(B[(2 * i + k / 2) * 2 * nt + 2 * i + k % 2] - (k == 0 || k == 3 ? 0.5 : 0)) <= 1e-12, "vortex system: half on the diagonal", ""); continue; }
      CK(fin(std::fabs(a - ki)) <= ks * (far ? 2 * rule_tol(g, rb * 0.8) : 1.5), "constant panels: entry of the system", "rule %d ratio %g: %g should be %g", g, rb, a, ki);
      for (int k = 0; k < 4; ++k) CK(fin(std::fabs(B[(2 * i + k / 2) * 2 * nt + 2 * j + k % 2] - c4[k])) <= ks * (far ? 2 * rule_tol(g, rb * 0.8) : 1.5), "vortex system: entry", "rule %d ratio %g part %d: %g should be %g", g, rb, k, B[(2 * i + k / 2) * 2 * nt + 2 * j + k % 2], c4[k]);
      fs += gi * vn; ftol += tg * std::fabs(vn); ctx.count(far ? "entries_far" : "entries_near"); }
    ftol += 1e-10 * std::fabs(fs); CK(std::min(std::fabs(f[i] - fs), std::fabs(f[i] - fs - fself)) <= ftol, "constant panels: right hand side", "%g should be %g (%g)", f[i], fs, ftol); }
  // order 1
  std::vector<double> sa(np); for (int i = 0; i < np; ++i) { double s = 0; for (auto &t : m.T) { bool on = t[0] == i || t[1] == i || t[2] == i; if (!on) s += solid_angle(m.X[t[0]] - m.X[i], m.X[t[1]] - m.X[i], m.X[t[2]] - m.X[i]); } sa[i] = 4 * M_PI - s; }
  d::makeLinearSystem_PotentialFlow_Order1st(A, f, v3(U), g, X, Ti, sa); CK(A.size() == (size_t)np * np && f.size() == (size_t)np, "size of the system (linear)", ""); if (ctx.failed) return;
  for (int i = 0; i < np; ++i) { std::vector<double> row(np, 0.0), rt(np, 1e-12); double fs = 0, ft = 0; P3 p = m.X[i]; for (int j = 0; j < nt; ++j) { auto [ra, rb] = ratio(p, j); bool far = ra < 0.9, on = m.T[j][0] == i || m.T[j][1] == i || m.T[j][2] == i; P3 n = -1. * unit(nrm(j)); double gi = 0, vn = -dot(n, U); double dm = len(p - (1. / 3) * (m.X[m.T[j][0]] + m.X[m.T[j][1]] + m.X[m.T[j][2]])), ks = 0.5 * len(nrm(j)) * f4 / (dm * dm);
      integ(m.X[m.T[j][0]], m.X[m.T[j][1]], m.X[m.T[j][2]], p, [&](P3 y, const double *b, double w) { P3 v = p - y; double l = len(v); gi += w * f4 / l; if (!on) for (int k = 0; k < 3; ++k) row[m.T[j][k]] += w * b[k] * dot(v, n) * f4 / (l * l * l); }, 5);
      if (!on) for (int k = 0; k < 3; ++k) rt[m.T[j][k]] += ks * (far ? 2 * rule_tol(g, rb * 0.8) : 1.5); fs += gi * vn; ft += gi * std::fabs(vn) * (far ? rule_tol(g, rb * 0.8) : 0.6); }
    row[i] += sa[i] / (4 * M_PI); for (int j = 0; j < np; ++j) CK(fin(std::fabs(A[i * np + j] - row[j])) <= rt[j], "linear panels: entry of the system", "rule %d: %g should be %g (%g)", g, A[i * np + j], row[j], rt[j]); CK(fin(std::fabs(f[i] - fs)) <= ft, "linear panels: right hand side", "%g should be %g (%g)", f[i], fs, ft); ctx.count("rows_linear"); }
}
VH_FAMILY(closed, 60, 900) { // a uniform layer on a closed surface is the winding number
  auto &r = ctx.rng; Mesh m = make_body(ctx, r.irange(2, 4), false); auto X = m.xyz(); auto Tu = m.tri<unsigned>(); auto Ti = m.tri<int>(); ctx.sig(vh::Hash().vd(X).h); double R = 0; P3 c{0, 0, 0}; for (P3 p : m.X) c = c + (1. / m.X.size()) * p; for (P3 p : m.X) R = std::max(R, len(p - c));
  std::vector<double> o0(m.T.size(), 1.0), o1(m.X.size(), 1.0);
  for (int s = 0; s < 8; ++s) { bool in = s % 2; P3 p = c + (in ? r.uni(0, 0.25) : r.uni(1.6, 4)) * R * rdir(ctx); double w = winding(m, p); int g = r.irange(2, 5); double ph = 9; V3 gr; d::evaluateField_PotentialFlow_Order0th(ph, gr, v3(p), V3(0, 0, 0), g, o0, X, Tu); CK(fin(std::fabs(ph + w)) <= 2e-3 && fin(len(p3(gr))) <= 2e-2 / R, "uniform layer is minus the winding number", "%g should be %g (gradient %g)", ph, -w, len(p3(gr)));
    V3 g1 = d::evaluateField_PotentialFlow_Order1st(ph, v3(p), V3(0, 0, 0), g, o1, X, Ti); CK(fin(std::fabs(ph + w)) <= 2e-3 && fin(len(p3(g1))) <= 2e-2 / R, "uniform linear layer is minus the winding number", "%g should be %g", ph, -w); ctx.count(in ? "inside" : "outside"); }
  // wrong lengths of the value array are refused
  o0.push_back(1); double ph = 0; V3 gr(1, 1, 1); d::evaluateField_PotentialFlow_Order0th(ph, gr, v3(c), V3(1, 0, 0), 1, o0, X, Tu); CK(len(p3(gr)) == 0, "values that do not match the mesh", ""); o1.push_back(1); CK(len(p3(d::evaluateField_PotentialFlow_Order1st(ph, v3(c), V3(1, 0, 0), 1, o1, X, Ti))) == 0, "values that do not match the mesh (linear)", "");
}
VH_FAMILY(flow, 8, 80) { // flow around a ball and agreement of the three formulations around other bodies
  auto &r = ctx.rng; bool sphere = r.chance(0.5); P3 c; double R; Mesh m = make_body(ctx, 4, sphere, &c, &R); auto X = m.xyz(); auto Tu = m.tri<unsigned>(); auto Ti = m.tri<int>(); int nt = (int)m.T.size(), np = (int)m.X.size(); P3 U = r.uni(0.3, 3) * rdir(ctx); Quiet q; int g = r.irange(2, 5); ctx.sig(vh::Hash().vd(X).u(g).h);
  std::vector<double> A, f; d::makeLinearSystem_PotentialFlow_Order0th(A, f, v3(U), g, X, Tu); std::vector<double> s0(nt, 0); double cr = 1e-9; int it = 400; bool ok = d::Solve_BiCGSTAB(cr, it, s0, A, f); CK(ok && cr <= 1e-9 && it < 400, "constant panels: the system is solved", "%g %d", cr, it);
  std::vector<double> sa(np); for (int i = 0; i < np; ++i) { double s = 0; for (auto &t : m.T) if (t[0] != i && t[1] != i && t[2] != i) s += solid_angle(m.X[t[0]] - m.X[i], m.X[t[1]] - m.X[i], m.X[t[2]] - m.X[i]); sa[i] = 4 * M_PI - s; }
  d::makeLinearSystem_PotentialFlow_Order1st(A, f, v3(U), g, X, Ti, sa); std::vector<double> s1(np, 0); cr = 1e-9; it = 400; d::Solve_BiCGSTAB(cr, it, s1, A, f); CK(cr <= 1e-9 && it < 400, "linear panels: the system is solved", "%g %d", cr, it);
  d::makeLinearSystem_VortexSheet_Order0th(A, f, v3(U), g, X, Ti); auto s2 = solve(A, f);
  double w0 = 0, w1 = 0, w2 = 0;
  for (int s = 0; s < 24; ++s) { double k = r.uni(1.6, 3.5); P3 p = c + k * R * rdir(ctx); P3 v[3]; double ph; V3 gr; d::evaluateField_PotentialFlow_Order0th(ph, gr, v3(p), v3(U), g, s0, X, Tu); v[0] = p3(gr); v[1] = p3(d::evaluateField_PotentialFlow_Order1st(ph, v3(p), v3(U), g, s1, X, Ti)); v[2] = U + p3(d::evaluateField_VortexSheet_Order0th(v3(p), s2, g, X, Ti, -1));
    double big = len(U) / (k * k * k); P3 e; if (sphere) { P3 x = p - c; double l = len(x), a = R; e = U + (a * a * a / (2 * l * l * l)) * (U - (3 * dot(U, x) / (l * l)) * x); } else e = v[1];
    w0 = std::max(w0, len(v[0] - e) / big); w1 = std::max(w1, len(v[1] - e) / big); w2 = std::max(w2, len(v[2] - e) / big); ctx.count("flow_points"); }
  ctx.count(sphere ? "balls" : "bodies");
  CK(fin(w0) <= (sphere ? 0.12 : 0.2) && fin(w1) <= 0.075 && fin(w2) <= (sphere ? 0.09 : 0.1), sphere ? "flow around a ball" : "the three formulations agree", "off %.3f %.3f %.3f of the disturbance", w0, w1, w2);
  if (getenv("C34_DBG")) fprintf(stderr, "%d g%d %.4f %.4f %.4f\n", sphere, g, w0, w1, w2);
}
VH_FAMILY(bicgstab, 200, 3000) {
  auto &r = ctx.rng; int n = r.irange(1, 30); std::vector<double> A(n * n), x(n), y(n), u(r.irange(0, 40), 7.0); for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) A[i * n + j] = r.uni(-1, 1) * 0.5; A[i * n + i] += n * 0.6 + 1; x[i] = r.uni(-1, 1); } ctx.sig(vh::Hash().vd(A).h); Quiet q;
  std::vector<double> ax(3, 9.0); d::matVec(ax, A, x); CK((int)ax.size() == n, "size of the product", ""); for (int i = 0; i < n; ++i) { double s = 0, t = 0; for (int j = 0; j < n; ++j) { s += A[i * n + j] * x[j]; t += std::fabs(A[i * n + j] * x[j]); } y[i] = s; CK(std::fabs(ax[i] - s) <= 1e-13 * t, "matrix times vector", ""); } double sq = 0; for (double v : x) sq += v * v; CK(std::fabs(d::squaredNorm(x) - sq) <= 1e-13 * sq, "squared length", "");
  bool zero = r.chance(0.1); if (zero) std::fill(y.begin(), y.end(), 0.0); double tol = std::pow(10., r.uni(-10, -3)), cr = tol; int mx = 300, it = mx; bool ok = d::Solve_BiCGSTAB(cr, it, u, A, y);
  CK(ok && (int)u.size() == n, "solver returns", ""); if (zero) { CK(cr == 0 && it == 0, "zero right hand side", ""); for (double v : u) CK(v == 0, "zero right hand side", ""); ctx.count("zero_rhs"); return; }
  double rn = 0, yn = 0; for (int i = 0; i < n; ++i) { double s = -y[i]; for (int j = 0; j < n; ++j) s += A[i * n + j] * u[j]; rn += s * s; yn += y[i] * y[i]; } double rr = std::sqrt(rn / yn); CK(it > 0 && it < mx && cr <= tol, "solver converges", "%d %g", it, cr); CK(fin(std::fabs(rr - cr)) <= 1e-12 + 1e-3 * cr, "reported residual is the true one", "%g reported %g", rr, cr); ctx.count("systems_solved");
}
static P3 vp_velo(P3 x, P3 p, P3 c, double R) { P3 v = x - p; double l = len(v), q = l / R, f = 1 - std::exp(-q * q * q); return (f / (4 * M_PI * l * l * l)) * cross(c, v); }
VH_FAMILY(particles, 300, 5000) {
  auto &r = ctx.rng; int n = r.irange(1, 8); double ls = std::pow(10., r.uni(-1, 1)); std::vector<d::CVortexParticle> P(n); vh::Hash hs;
  for (auto &p : P) { p.pos = v3(ls * P3{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)}); p.circ = v3(r.uni(-2, 2) * rdir(ctx)); p.circ0 = p.circ; p.rad = ls * r.uni(0.05, 1); p.velo = v3(rdir(ctx)); p.velo_pre = v3(rdir(ctx)); for (int k = 0; k < 9; ++k) { p.gradvelo.p_[k] = r.uni(-1, 1); p.gradvelo_pre.p_[k] = r.uni(-1, 1); } hs.d(p.pos.p[0]).d(p.rad); } ctx.sig(hs.h);
  for (int s = 0; s < 6; ++s) { P3 x = ls * P3{r.uni(-2, 2), r.uni(-2, 2), r.uni(-2, 2)}; const auto &p = r.pick(P); if (len(x - p3(p.pos)) < 0.02 * ls) continue; P3 e = vp_velo(x, p3(p.pos), p3(p.circ), p.rad); double l = len(x - p3(p.pos)), sc = len(p3(p.circ)) * std::min(1 / (l * l), l / (p.rad * p.rad * p.rad)) * 0.1 + 1e-300; P3 g = p3(d::veloVortexParticle(v3(x), p.pos, p.circ, p.rad)); CK(fin(len(g - e)) <= 1e-11 * sc + 1e-14 * sc * std::pow(p.rad / l, 3), "velocity of a vortex particle", "off %g of %g", len(g - e), sc);
    V3 ve(9, 9, 9); d::CMat3d G = d::gradveloVortexParticle(ve, v3(x), p.pos, p.circ, p.rad); CK(len(p3(ve) - g) <= 1e-12 * sc, "velocity together with its gradient", ""); double h = 1e-4 * std::min(l, p.rad); double tr = 0; for (int j = 0; j < 3; ++j) { P3 dx{j == 0 ? h : 0, j == 1 ? h : 0, j == 2 ? h : 0}; P3 fd = (1 / (2 * h)) * (vp_velo(x + dx, p3(p.pos), p3(p.circ), p.rad) - vp_velo(x - dx, p3(p.pos), p3(p.circ), p.rad)); double fv[3] = {fd.x, fd.y, fd.z}; for (int i = 0; i < 3; ++i) CK(fin(std::fabs(G.p_[3 * i + j] - fv[i])) <= 1e-5 * sc / std::min(l, p.rad), "velocity gradient of a vortex particle", "%d %d: %g should be %g", i, j, G.p_[3 * i + j], fv[i]); tr += G.p_[4 * j]; } CK(std::fabs(tr) <= 1e-10 * sc / std::min(l, p.rad), "the flow keeps its volume", ""); ctx.count("particle_fields"); }
  for (int s = 0; s < 4; ++s) { int self = s == 0 ? -1 : r.irange(0, n - 1); P3 x = self >= 0 ? p3(P[self].pos) : ls * P3{r.uni(-2, 2), r.uni(-2, 2), r.uni(-2, 2)}; P3 e{0, 0, 0}; double sc = 1e-300; for (int i = 0; i < n; ++i) if (i != self) { e = e + vp_velo(x, p3(P[i].pos), p3(P[i].circ), P[i].rad); double l = len(x - p3(P[i].pos)); sc += len(p3(P[i].circ)) / (l * l); } P3 g = p3(d::veloVortexParticles(v3(x), P, self)); V3 ve; d::CMat3d G = d::gradveloVortexParticles(ve, v3(x), P, self); CK(fin(len(g - e)) <= 1e-9 * sc && fin(len(p3(ve) - e)) <= 1e-9 * sc, "particles add up", "%g %g", len(g - e), len(p3(ve) - e)); d::CMat3d S; S.setZero(); for (int i = 0; i < n; ++i) if (i != self) { V3 t; S += d::gradveloVortexParticle(t, v3(x), P[i].pos, P[i].circ, P[i].rad); } double w = 0, q = 1e-300; for (int k = 0; k < 9; ++k) { w = std::max(w, std::fabs(S.p_[k] - G.p_[k])); q += std::fabs(S.p_[k]); } CK(fin(w) <= 1e-9 * q, "gradients add up", ""); ctx.count("sums"); }
  auto Q = P; d::setGradVeloVortexParticles(P); double dt = r.uni(0.01, 0.5);
  for (int i = 0; i < n; ++i) { CK(len(p3(P[i].velo_pre) - p3(Q[i].velo)) == 0 && len(p3(P[i].pos) - p3(Q[i].pos)) == 0 && len(p3(P[i].circ) - p3(Q[i].circ)) == 0, "last velocity kept, particles unmoved", ""); P3 e = p3(d::veloVortexParticles(Q[i].pos, Q, i)); CK(len(p3(P[i].velo) - e) <= 1e-12 * (len(e) + 1e-300) * 10, "velocity of every particle by the others", ""); V3 t; d::CMat3d G = d::gradveloVortexParticles(t, Q[i].pos, Q, i); for (int k = 0; k < 9; ++k) CK(std::fabs(G.p_[k] - P[i].gradvelo.p_[k]) <= 1e-12 * (1 + std::fabs(G.p_[k])) && P[i].gradvelo_pre.p_[k] == Q[i].gradvelo.p_[k], "velocity gradient of every particle", "");
    auto o = P[i]; P[i].stepTime_AdamsBashforth(dt); P3 ex = p3(o.pos) + dt * (1.5 * p3(o.velo) - 0.5 * p3(o.velo_pre)); CK(len(p3(P[i].pos) - ex) <= 1e-13 * (len(ex) + dt * len(p3(o.velo)) + dt), "Adams-Bashforth step", ""); ctx.count("steps"); }
}
VH_FAMILY(grid, 300, 5000) { // circulation spread over a grid and collected again
  auto &r = ctx.rng; int n = r.chance(0.03) ? 0 : r.irange(1, 40); double h = std::pow(10., r.uni(-1.5, 1)), ext = h * r.pick({0.0, 0.5, 1.0, 2.0, 4.0, 7.3}); bool lat = r.chance(0.25); std::vector<d::CVortexParticle> P(n); P3 off = h * (lat ? P3{1, -2, 3} : P3{r.uni(-9, 9), r.uni(-9, 9), r.uni(-9, 9)}); vh::Hash hs; hs.d(h);
  for (auto &p : P) { P3 x{r.uni(-1, 1) * ext, r.uni(-1, 1) * ext * r.pick({1., 0., 0.3}), r.uni(-1, 1) * ext}; if (lat) x = 0.5 * h * P3{std::round(2 * x.x / h), std::round(2 * x.y / h), std::round(2 * x.z / h)}; p.pos = v3(off + x); p.circ = v3(r.uni(0, 2) * rdir(ctx)); p.rad = h; hs.d(p.pos.p[0]); } ctx.sig(hs.h);
  d::CGrid_Vortex g; auto O = P; if (r.chance(0.5)) { auto Z = P; for (auto &p : Z) p.pos = v3(2.5 * p3(p.pos)); d::viscousityVortexParticleGrid(Z, g, h * 1.3); ctx.count("grid_reused"); }
  d::viscousityVortexParticleGrid(P, g, h); CK(g.h == h, "cell size", ""); if (n == 0) { CK(g.nx == 0 && g.ny == 0 && g.nz == 0, "no particles", ""); ctx.count("no_particles"); return; }
  size_t ng = (size_t)(g.nx + 1) * (g.ny + 1) * (g.nz + 1); CK(g.aDataVtx.size() == ng, "number of grid points", "%zu %zu", g.aDataVtx.size(), ng); if (ctx.failed) return;
  P3 c0 = p3(g.cnt) - 0.5 * h * P3{(double)g.nx, (double)g.ny, (double)g.nz}; std::vector<double> ws(n, 0.0); std::vector<P3> wp(n, P3{0, 0, 0}); P3 tot{0, 0, 0}, now{0, 0, 0}, gs{0, 0, 0}; double sc = 0; for (auto &p : O) { tot = tot + p3(p.circ); sc += len(p3(p.circ)); } for (auto &p : P) now = now + p3(p.circ);
  std::vector<P3> e(n, P3{0, 0, 0});
  for (int ix = 0; ix <= g.nx; ++ix) for (int iy = 0; iy <= g.ny; ++iy) for (int iz = 0; iz <= g.nz; ++iz) { auto &dv = g.aDataVtx[((size_t)ix * (g.ny + 1) + iy) * (g.nz + 1) + iz]; P3 x = c0 + h * P3{(double)ix, (double)iy, (double)iz}; P3 s{0, 0, 0}; double sw = 0; gs = gs + p3(dv.circ);
    for (auto &[k, w] : dv.aPairPtcleWeight) { if (!CK(k >= 0 && k < n, "particle index on the grid", "")) return; P3 q = (1 / h) * (p3(O[k].pos) - x); double t = std::max(0., 1 - std::fabs(q.x)) * std::max(0., 1 - std::fabs(q.y)) * std::max(0., 1 - std::fabs(q.z)); CK(std::fabs(w - t) <= 1e-9, "trilinear weight", "%g should be %g", w, t); ws[k] += w; wp[k] = wp[k] + w * x; s = s + w * p3(O[k].circ); sw += w; }
    CK(len(p3(dv.circ) - s) <= 1e-12 * (sc + 1e-300), "circulation on the grid", ""); if (sw >= 1e-5) for (auto &[k, w] : dv.aPairPtcleWeight) e[k] = e[k] + (w / sw) * s; ctx.count("grid_points"); }
  for (int k = 0; k < n; ++k) { CK(std::fabs(ws[k] - 1) <= 1e-9, "weights of a particle add up to one", "%g", ws[k]); CK(len(wp[k] - p3(O[k].pos)) <= 1e-9 * (h + len(p3(O[k].pos))), "weights reproduce the position", ""); CK(len(p3(P[k].pos) - p3(O[k].pos)) == 0, "positions unchanged", ""); CK(len(p3(P[k].circ) - e[k]) <= 1e-9 * (sc + 1e-300), "circulation collected from the grid", "off %g of %g", len(p3(P[k].circ) - e[k]), sc); ctx.count("spread"); }
  CK(len(gs - tot) <= 1e-9 * sc + 1e-300, "circulation is conserved on the grid", "off %g of %g", len(gs - tot), sc); CK(len(now - tot) <= 1e-4 * sc + 1e-300, "circulation is conserved", "off %g of %g", len(now - tot), sc);
}
