// C35: two-view geometry, implicit functions of strokes, thin-plate grids and static assemblies of rigid bodies (Eigen based solvers).
#include "../lib/vh.h"
#include <cmath>
#include <iostream>
#include <Eigen/Dense>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/mat3.h"
#include "delfem2/eigen/cvfundamentalmat.h"
#include "delfem2/eigen/implicit_rbf_approximation.h"
#include "delfem2/eigen/grid2.h"
#include "delfem2/eigen/eigen_rigidbody.cpp"
extern "C" void glVertex3d(GLdouble, GLdouble, GLdouble) {} // drawing is not exercised
namespace d = delfem2;
using V3 = d::CVec3d;
using M3 = d::CMat3d;
struct Quiet { std::ostringstream o; std::streambuf *b; Quiet() { b = std::cout.rdbuf(o.rdbuf()); } ~Quiet() { std::cout.rdbuf(b); } };
struct P3 { double x, y, z; double operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; } };
static P3 operator+(P3 a, P3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static P3 operator-(P3 a, P3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static P3 operator*(double s, P3 a) { return {s * a.x, s * a.y, s * a.z}; }
static double dot(P3 a, P3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static P3 cross(P3 a, P3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static double len(P3 a) { return std::sqrt(dot(a, a)); }
static P3 unit(P3 a) { return (1 / len(a)) * a; }
static P3 p3(const V3 &v) { return {v.p[0], v.p[1], v.p[2]}; }
static V3 v3(P3 a) { return V3(a.x, a.y, a.z); }
static P3 rdir(vh::Ctx &ctx) { for (;;) { P3 v{ctx.rng.gauss(), ctx.rng.gauss(), ctx.rng.gauss()}; if (len(v) > 0.1) return unit(v); } }
static P3 rot(P3 ax, double th, P3 p) { double c = std::cos(th), s = std::sin(th); return c * p + s * cross(ax, p) + ((1 - c) * dot(ax, p)) * ax; }
static P3 mul(const M3 &m, P3 p) { return {m.p_[0] * p.x + m.p_[1] * p.y + m.p_[2] * p.z, m.p_[3] * p.x + m.p_[4] * p.y + m.p_[5] * p.z, m.p_[6] * p.x + m.p_[7] * p.y + m.p_[8] * p.z}; }
static M3 rotm(P3 ax, double th) { M3 m; P3 e[3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}; for (int j = 0; j < 3; ++j) { P3 q = rot(ax, th, e[j]); for (int i = 0; i < 3; ++i) m.p_[3 * i + j] = q[i]; } return m; }
static double bad(double x) { return std::isfinite(x) ? x : 1e300; }

VH_FAMILY(fundamental, 600, 12000) { // two pinhole views of points in space
  auto &r = ctx.rng; int n = r.irange(10, 60); double f0 = std::exp(r.uni(-1, 1)), f1 = std::exp(r.uni(-1, 1)); P3 ax = rdir(ctx); double th = r.uni(0.1, 0.6), s0 = std::pow(10., r.uni(-1, 3)), s1 = std::pow(10., r.uni(-1, 3)); double o0[2] = {r.uni(-1, 1) * s0, r.uni(-1, 1) * s0}, o1[2] = {r.uni(-1, 1) * s1, r.uni(-1, 1) * s1}; P3 t = r.uni(0.5, 1.5) * rdir(ctx);
  std::vector<float> A; std::vector<std::array<double, 4>> Q; vh::Hash h;
  for (int i = 0; i < n; ++i) { P3 X{r.uni(-2, 2), r.uni(-2, 2), r.uni(4, 9)}; P3 Y = rot(ax, th, X - P3{0, 0, 6}) + P3{0, 0, 6} + t; if (Y.z < 1.5) { --i; continue; } std::array<double, 4> q{s0 * f0 * X.x / X.z + o0[0], s0 * f0 * X.y / X.z + o0[1], s1 * f1 * Y.x / Y.z + o1[0], s1 * f1 * Y.y / Y.z + o1[1]}; for (double &v : q) { A.push_back((float)v); v = (float)v; h.d(v); } Q.push_back(q); } ctx.sig(h.h);
  float F[9]; for (float &v : F) v = NAN;
  Fundamental(F, A);
  double Fd[9], fn = 0; for (int i = 0; i < 9; ++i) { Fd[i] = F[i]; CK(std::isfinite(Fd[i]), "entries are finite", "%g", Fd[i]); } if (ctx.failed) return;
  CKN(Fd[8], 1, 1e-6, "last entry is one", " ");
  // residuals as distances to the epipolar lines, relative to the spread of the points
  double d0[2] = {0, 0}, m0[2] = {0, 0}, m1[2] = {0, 0}; for (auto &q : Q) { m0[0] += q[0] / n; m0[1] += q[1] / n; m1[0] += q[2] / n; m1[1] += q[3] / n; } for (auto &q : Q) { d0[0] += (std::fabs(q[0] - m0[0]) + std::fabs(q[1] - m0[1])) / n; d0[1] += (std::fabs(q[2] - m1[0]) + std::fabs(q[3] - m1[1])) / n; } (void)fn;
  // single precision leaves of F: the constant part may be large compared to what matters
  double w = 0; int bigc = 0; double mag = std::max({std::fabs(Fd[0]) * (std::fabs(m0[0]) + d0[0]) * (std::fabs(m1[0]) + d0[1]), std::fabs(Fd[4]) * (std::fabs(m0[1]) + d0[0]) * (std::fabs(m1[1]) + d0[1]), std::fabs(Fd[1]) * (std::fabs(m0[1]) + d0[0]) * (std::fabs(m1[0]) + d0[1]), std::fabs(Fd[3]) * (std::fabs(m0[0]) + d0[0]) * (std::fabs(m1[1]) + d0[1]), std::fabs(Fd[2]) * (std::fabs(m1[0]) + d0[1]), std::fabs(Fd[5]) * (std::fabs(m1[1]) + d0[1]), std::fabs(Fd[6]) * (std::fabs(m0[0]) + d0[0]), std::fabs(Fd[7]) * (std::fabs(m0[1]) + d0[0]), 1.0});
  for (auto &q : Q) { double l1[3], l0[3]; for (int i = 0; i < 3; ++i) { l1[i] = Fd[3 * i] * q[0] + Fd[3 * i + 1] * q[1] + Fd[3 * i + 2]; l0[i] = Fd[i] * q[2] + Fd[3 + i] * q[3] + Fd[6 + i]; } double e = l1[0] * q[2] + l1[1] * q[3] + l1[2]; double g1 = std::hypot(l1[0], l1[1]), g0 = std::hypot(l0[0], l0[1]); double tol1 = 4e-3 * d0[1] + 3e-6 * mag / g1, tol0 = 4e-3 * d0[0] + 3e-6 * mag / g0; if (3e-6 * mag / g1 > 0.02 * d0[1] || 3e-6 * mag / g0 > 0.02 * d0[0]) { bigc++; continue; }
    CK(bad(std::fabs(e) / g1) <= tol1 && bad(std::fabs(e) / g0) <= tol0, "epipolar constraint of the correspondences", "distance %g, spread %g (tolerance %g)", std::fabs(e) / g1, d0[1], tol1); w = std::max(w, std::fabs(e) / g1 / d0[1]); ctx.count("correspondences"); }
  if (bigc) ctx.count("ill_scaled", bigc);
  double mx = 0; for (double v : Fd) mx = std::max(mx, std::fabs(v)); double S[9], sc0 = std::fabs(m0[0]) + std::fabs(m0[1]) + d0[0], sc1 = std::fabs(m1[0]) + std::fabs(m1[1]) + d0[1]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) S[3 * i + j] = Fd[3 * i + j] * (i < 2 ? sc1 : 1) * (j < 2 ? sc0 : 1); double det = S[0] * (S[4] * S[8] - S[5] * S[7]) - S[1] * (S[3] * S[8] - S[5] * S[6]) + S[2] * (S[3] * S[7] - S[4] * S[6]), nn = 0; for (double v : S) nn += v * v; nn = std::sqrt(nn); CK(std::fabs(det) <= 3e-6 * nn * nn * nn, "the matrix is singular", "det %g of %g", det, nn * nn * nn);
  // the rank is reduced also when the correspondences are not exact
  { std::vector<float> B; for (auto &q : Q) for (int k = 0; k < 4; ++k) B.push_back((float)((q[k] - (k < 2 ? m0[k] : m1[k - 2])) / d0[k / 2] + 0.05 * r.gauss() + (k < 2 ? 0.3 : -0.2))); float G[9]; Fundamental(G, B); double p[6] = {(double)G[0] * G[4] * G[8], -(double)G[0] * G[5] * G[7], -(double)G[1] * G[3] * G[8], (double)G[1] * G[5] * G[6], (double)G[2] * G[3] * G[7], -(double)G[2] * G[4] * G[6]}, sum = 0, abs = 0; for (double v : p) { sum += v; abs += std::fabs(v); } CK(std::fabs(bad(sum)) <= 6e-7 * abs && std::fabs(G[8] - 1) < 1e-6, "the matrix of inexact correspondences is singular", "det %g of %g", sum, abs); ctx.count("inexact_views"); }
}
VH_FAMILY(stroke, 300, 5000) {
  auto &r = ctx.rng; bool lin = r.chance(0.5); int kind = r.irange(0, 2); double c = r.uni(0.2, 0.6); std::function<double(double)> f, g; if (kind == 0) { f = [](double x) { return x * x * x; }; g = [](double x) { return 3 * x * x; }; } else if (kind == 1) { f = [](double x) { return x; }; g = [](double) { return 1.0; }; } else { f = [c](double x) { return std::sqrt(x * x + c * c); }; g = [c](double x) { return x / std::sqrt(x * x + c * c); }; }
  ImplicitRbfApproximation im(f, lin); CK(!im.IsInitailized2(), "nothing fitted yet", ""); std::vector<d::CVec2d> P; double eps = 0; ImplicitRbfApproximation im2(f, lin); int rounds = r.irange(1, 2); vh::Hash h;
  for (int k = 0; k < rounds; ++k) { int n = r.irange(2, 24); P.clear(); double x = r.uni(-1, 1), y = r.uni(-1, 1), a = r.uni(0, 6.28), st = r.uni(0.2, 0.4); for (int i = 0; i < n; ++i) { P.emplace_back(x, y); a += r.uni(-0.35, 0.35); x += st * std::cos(a); y += st * std::sin(a); } bool close = false; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if ((P[i] - P[j]).norm() < 0.5 * st) close = true; if (close) { --k; continue; } eps = r.uni(0.05, 0.25) * st; im.SetPolyline2(P, eps); for (auto &p : P) h.d(p.x).d(p.y); }
  ctx.sig(h.h); CK(im.IsInitailized2(), "fitted", ""); if (rounds > 1) ctx.count("refitted"); int n = (int)P.size(); std::vector<std::array<double, 2>> sm;
  double big = eps; for (int i = 0; i < n; ++i) { double nx = 0, ny = 0; for (int e = i - 1; e <= i; ++e) if (e >= 0 && e + 1 < n) { double ex = P[e + 1].x - P[e].x, ey = P[e + 1].y - P[e].y, l = std::hypot(ex, ey); nx += ey / l; ny -= ex / l; } double l = std::hypot(nx, ny); nx /= l; ny /= l; for (int s = 0; s < 2; ++s) { double sg = s ? -1 : 1, x = P[i].x + sg * eps * nx, y = P[i].y + sg * eps * ny; sm.push_back({x, y}); double v = im.Evaluate2(x, y); CK(bad(std::fabs(v - sg * eps)) <= 1e-5 * eps, "value on the two sides of the stroke", "kind %d linear %d: %g should be %g", kind, (int)lin, v, sg * eps); ctx.count("stroke_samples"); } }
  // gradient and value together
  for (int s = 0; s < 8; ++s) { double x = r.uni(-2, 2), y = r.uni(-2, 2), near = 1e9; for (auto &q : sm) near = std::min(near, std::hypot(q[0] - x, q[1] - y)); if (near < 0.05) continue; auto [v, gx, gy] = im.Evaluate2Grad(x, y, g); double v0 = im.Evaluate2(x, y), e = 1e-4, fx = (im.Evaluate2(x + e, y) - im.Evaluate2(x - e, y)) / (2 * e), fy = (im.Evaluate2(x, y + e) - im.Evaluate2(x, y - e)) / (2 * e); double sc = std::fabs(fx) + std::fabs(fy) + 1; CK(std::fabs(v - v0) <= 1e-9 * (1 + std::fabs(v0)), "value together with the gradient", "%g %g", v, v0); CK(bad(std::fabs(gx - fx)) <= 2e-4 * sc && bad(std::fabs(gy - fy)) <= 2e-4 * sc, "gradient of the implicit function", "%g %g should be %g %g", gx, gy, fx, fy); ctx.count("stroke_gradients"); }
  // at the samples themselves, along a straight stroke with exact coordinates
  { int m = r.irange(2, 6); bool up = r.chance(0.5); std::vector<d::CVec2d> Q; for (int i = 0; i < m; ++i) Q.emplace_back(up ? 1.0 : i * 0.5, up ? i * 0.5 : 1.0); ImplicitRbfApproximation ex(f, lin); ex.SetPolyline2(Q, 0.125);
    for (auto &p : Q) for (int s = -1; s <= 1; s += 2) { double x = p.x + (up ? s * 0.125 : 0), y = p.y + (up ? 0 : s * 0.125); auto [v, gx, gy] = ex.Evaluate2Grad(x, y, g); double v0 = ex.Evaluate2(x, y); CK(std::isfinite(gx) && std::isfinite(gy) && std::fabs(v - v0) <= 1e-9, "gradient at a point of the samples", "%g %g %g", v, gx, gy); if (kind != 1) { double e = 1e-4, fx = (ex.Evaluate2(x + e, y) - ex.Evaluate2(x - e, y)) / (2 * e), fy = (ex.Evaluate2(x, y + e) - ex.Evaluate2(x, y - e)) / (2 * e), sc = std::fabs(fx) + std::fabs(fy) + 1; CK(std::fabs(gx - fx) <= 1e-3 * sc && std::fabs(gy - fy) <= 1e-3 * sc, "gradient at a point of the samples", "%g %g should be %g %g", gx, gy, fx, fy); } ctx.count("gradients_at_samples"); } }
  // a moved stroke gives the moved function
  { double tx = r.uni(-1, 1), ty = r.uni(-1, 1); auto Q = P; for (auto &p : Q) { p.x += tx; p.y += ty; } im2.SetPolyline2(Q, eps); for (int s = 0; s < 4; ++s) { double x = P[0].x + r.uni(-0.5, 0.5), y = P[0].y + r.uni(-0.5, 0.5), a = im.Evaluate2(x, y), b = im2.Evaluate2(x + tx, y + ty); CK(bad(std::fabs(a - b)) <= 2e-5 * (std::fabs(a) + eps), "moving the stroke moves the function", "%g %g", a, b); } }
  im.Clear(); CK(!im.IsInitailized2(), "cleared", ""); (void)big;
}
VH_FAMILY(thin_plate, 200, 4000) {
  auto &r = ctx.rng; unsigned nw = r.irange(3, 14), nh = r.irange(3, 14); std::set<std::pair<int, int>> S; int n = r.irange(3, std::min(10, (int)(nw * nh) - 1)); while ((int)S.size() < n) S.insert({r.irange(0, (int)nw - 1), r.irange(0, (int)nh - 1)}); std::vector<double> XY; std::vector<float> Z, G(r.irange(0, 200), 9.f); std::vector<std::pair<int, int>> O(S.begin(), S.end()); r.shuffle(O); vh::Hash h; for (auto &q : O) { XY.push_back(q.first); XY.push_back(q.second); Z.push_back((float)r.uni(-2, 2)); h.u(q.first).u(q.second).d(Z.back()); } ctx.sig(h.h);
  // own solution; only well conditioned ones are judged
  Eigen::MatrixXd A(n, n); Eigen::VectorXd b(n); auto ker = [](double x) { return x == 0 ? 0.0 : x * x * std::log(x + 1e-8); }; for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) A(i, j) = ker(std::hypot(XY[2 * i] - XY[2 * j], XY[2 * i + 1] - XY[2 * j + 1])); b(i) = Z[i]; } Eigen::JacobiSVD<Eigen::MatrixXd> svd(A, Eigen::ComputeFullU | Eigen::ComputeFullV); double cond = svd.singularValues()(0) / svd.singularValues()(n - 1); if (!(cond < 1e6)) { ctx.count("plate_skipped"); return; } Eigen::VectorXd w = svd.solve(b);
  d::eigen::Interpolate_Grid_ThinPlateSpline(G, nw, nh, XY, Z); CK(G.size() == (size_t)nw * nh, "size of the grid", "%zu", G.size()); if (ctx.failed) return;
  for (int i = 0; i < n; ++i) { float v = G[O[i].second * nw + O[i].first]; CK(bad(std::fabs(v - Z[i])) <= 1e-5 * (1 + cond * 1e-6), "the surface passes through the points", "%g should be %g", v, Z[i]); ctx.count("plate_points"); }
  for (unsigned y = 0; y < nh; ++y) for (unsigned x = 0; x < nw; ++x) { double v = 0, sc = 1; for (int i = 0; i < n; ++i) { double k = w(i) * ker(std::hypot(x - XY[2 * i], y - XY[2 * i + 1])); v += k; sc += std::fabs(k); } CK(bad(std::fabs(G[y * nw + x] - v)) <= 2e-6 * sc, "thin plate between the points", "%g should be %g", G[y * nw + x], v); ctx.count("plate_cells"); }
}
static void random_state(vh::Ctx &ctx, CRigidBodyAssembly_Static &a, double s) { for (auto &b : a.aRigidBody) { b.u = v3(s * P3{ctx.rng.uni(-1, 1), ctx.rng.uni(-1, 1), ctx.rng.uni(-1, 1)}); b.R = rotm(rdir(ctx), s * ctx.rng.uni(-1, 1)); } }
static void random_assembly(vh::Ctx &ctx, CRigidBodyAssembly_Static &a, double m) {
  auto &r = ctx.rng; int n = r.irange(1, 6); P3 nn = unit(P3{r.uni(-0.3, 0.3), 1, r.uni(-0.3, 0.3)}); if (r.chance(0.5)) nn = rdir(ctx); a.n = v3(nn); P3 e1 = unit(cross(nn, std::fabs(nn.x) < 0.7 ? P3{1, 0, 0} : P3{0, 1, 0})), e2 = cross(nn, e1); a.gravity = v3(-r.uni(5, 15) * nn + (r.chance(0.5) ? r.uni(0, 1) * rdir(ctx) : P3{0, 0, 0}));
  a.cont_stiff = std::pow(10., r.uni(3.5, 5)); a.trans_stiff = std::pow(10., r.uni(3.5, 5)); a.rot_stiff = std::pow(10., r.uni(4, 7));
  std::vector<P3> cg; auto at = [&](double x, double y, double z) { return x * e1 + y * e2 + z * nn; };
  for (int i = 0; i < n; ++i) { P3 c = i == 0 ? at(r.uni(-0.3, 0.3), r.uni(-0.3, 0.3), r.uni(0.5, 1.5)) : cg[r.irange(0, i - 1)] + 1.5 * rdir(ctx); std::vector<double> cp; int nc = i == 0 ? r.irange(3, 5) : r.chance(0.3) ? r.irange(1, 2) : 0; double ph = r.uni(0, 6.28); for (int k = 0; k < nc; ++k) { P3 q = i == 0 ? at(std::cos(ph + k * 6.2832 / nc) * r.uni(0.7, 1.3), std::sin(ph + k * 6.2832 / nc) * r.uni(0.7, 1.3), 0) : at(r.uni(-2, 2), r.uni(-2, 2), 0); for (int j = 0; j < 3; ++j) cp.push_back(q[j]); } double cc[3] = {c.x, c.y, c.z}; a.AddRigidBody(cc, m * r.uni(0.1, 2), cp); cg.push_back(c);
    CK(a.aRigidBody.size() == (size_t)i + 1 && a.aRigidBody[i].aCP.size() == (size_t)nc && len(p3(a.aRigidBody[i].cg) - c) == 0, "body added", "");
    if (r.chance(0.4)) { int ne = r.irange(1, 2); for (int k = 0; k < ne; ++k) a.aRigidBody[i].aExForce.push_back({v3(c + r.uni(0, 1) * rdir(ctx)), v3(m * r.uni(0, 5) * rdir(ctx))}); }
    if (i > 0) { int j = r.irange(0, i - 1); P3 q = 0.5 * (c + cg[j]) + 0.2 * rdir(ctx); double qq[3] = {q.x, q.y, q.z}; if (r.chance(0.5)) a.AddJoint(qq, j, i); else a.AddJoint(qq, i, j); } }
}
static double own_energy(const CRigidBodyAssembly_Static &a, bool fric) {
  double E = 0; for (auto &b : a.aRigidBody) { P3 cg = p3(b.cg), u = p3(b.u); E += b.m * dot(u, p3(a.gravity)); for (auto &c : b.aCP) { P3 q = mul(b.R, p3(c) - cg) + cg + u; P3 e = q - p3(c); E += 0.5 * a.cont_stiff * (fric ? dot(e, e) : dot(q, p3(a.n)) * dot(q, p3(a.n))); } for (auto &f : b.aExForce) E += dot(mul(b.R, p3(f.first) - cg) + cg + u, p3(f.second)); }
  for (auto &j : a.aJoint) { auto &b0 = a.aRigidBody[j.irb0], &b1 = a.aRigidBody[j.irb1]; P3 e = mul(b0.R, p3(j.p) - p3(b0.cg)) + p3(b0.cg) + p3(b0.u) - (mul(b1.R, p3(j.p) - p3(b1.cg)) + p3(b1.cg) + p3(b1.u)); E += 0.5 * a.trans_stiff * dot(e, e); P3 av{0, 0, 0}; for (int i = 0; i < 3; ++i) av = av + 0.5 * cross(P3{b0.R.p_[i], b0.R.p_[3 + i], b0.R.p_[6 + i]}, P3{b1.R.p_[i], b1.R.p_[3 + i], b1.R.p_[6 + i]}); E += 0.5 * a.rot_stiff * dot(av, av); }
  return E;
}
VH_FAMILY(assembly_energy, 200, 4000) { // energy, gradient and second derivatives at arbitrary poses
  auto &r = ctx.rng; CRigidBodyAssembly_Static a; random_assembly(ctx, a, 1); a.rot_stiff = std::pow(10., r.uni(2, 4)); a.cont_stiff = std::pow(10., r.uni(2, 4)); a.trans_stiff = std::pow(10., r.uni(2, 4)); random_state(ctx, a, r.uni(0.05, 1)); int n = (int)a.aRigidBody.size() * 6; bool fric = r.chance(0.5); ctx.sig(vh::Hash().u(n).d(a.rot_stiff).d(a.aRigidBody[0].u.p[0]).h);
  auto eval = [&](double &E, Eigen::VectorXd &g, Eigen::MatrixXd &H) { g.resize(n); H.resize(n, n); g.setConstant(7); H.setConstant(7); E = 7; EdEddE_Total(E, g, H, a.aRigidBody, a.aJoint, a.n, a.gravity, a.cont_stiff, a.trans_stiff, a.rot_stiff, fric); };
  double E; Eigen::VectorXd g; Eigen::MatrixXd H; eval(E, g, H); double sc = a.cont_stiff + a.trans_stiff + a.rot_stiff; CK(bad(std::fabs(E - own_energy(a, fric))) <= 1e-10 * (sc * 50 + std::fabs(E)), "energy of the assembly", "%g should be %g", E, own_energy(a, fric)); auto S = a.aRigidBody; const double h = 1e-5; double gs = g.cwiseAbs().maxCoeff() + sc * 1e-3, Hs = H.cwiseAbs().maxCoeff();
  for (int k = 0; k < n; ++k) { if (n > 12 && !r.chance(12. / n)) continue; Eigen::VectorXd gp, gm; Eigen::MatrixXd T; double Ep = 0, Em = 0; for (int s = -1; s <= 1; s += 2) { a.aRigidBody = S; auto &b = a.aRigidBody[k / 6]; int c = k % 6; if (c < 3) b.u.p[c] += s * h; else { P3 ax{c == 3 ? 1. : 0, c == 4 ? 1. : 0, c == 5 ? 1. : 0}; M3 dR = rotm(ax, s * h), Rn; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double v = 0; for (int q = 0; q < 3; ++q) v += dR.p_[3 * i + q] * b.R.p_[3 * q + j]; Rn.p_[3 * i + j] = v; } b.R = Rn; } double Ex; if (s > 0) { eval(Ex, gp, T); Ep = own_energy(a, fric); } else { eval(Ex, gm, T); Em = own_energy(a, fric); } } a.aRigidBody = S;
    double fd = (Ep - Em) / (2 * h); CK(bad(std::fabs(g(k) - fd)) <= 1e-5 * gs + 1e-7 * std::fabs(E) + 1e-4, "gradient of the energy", "dof %d: %g should be %g", k, g(k), fd); for (int i = 0; i < n; ++i) { double f2 = (gp(i) - gm(i)) / (2 * h); 
      // rotations about different axes do not commute: the derivative of the moment differs from the code's second derivative by nothing, as both use left rotations
      CK(bad(std::fabs(H(i, k) - f2)) <= 2e-5 * Hs + 1e-4, "second derivatives of the energy", "%d %d: %g should be %g (friction %d)", i, k, H(i, k), f2, (int)fric); } ctx.count("directions"); }
  ctx.count(fric ? "with_friction" : "without_friction");
}
VH_FAMILY(assembly_statics, 120, 2500) { // forces balance after solving
  auto &r = ctx.rng; CRigidBodyAssembly_Static a0; random_assembly(ctx, a0, std::pow(10., r.uni(-3, -0.5))); Quiet q; CRigidBodyAssembly_Static a; if (r.chance(0.5)) { CRigidBodyAssembly_Static b(a0.aRigidBody, a0.aJoint); b.n = a0.n; b.gravity = a0.gravity; b.cont_stiff = a0.cont_stiff; b.trans_stiff = a0.trans_stiff; b.rot_stiff = a0.rot_stiff; a = b; ctx.count("copied_bodies"); } else a = a0; ctx.sig(vh::Hash().d(a.rot_stiff).d(a.cont_stiff).d(a.aRigidBody[0].m).h); a.nitr = 60;
  { auto bb = a.MinMaxXYZ(); CK(bb.size() == 6, "bounding box", ""); for (int i = 0; i < 3; ++i) { double lo = 1e9, hi = -1e9; for (auto &b : a.aRigidBody) { lo = std::min(lo, b.cg.p[i]); hi = std::max(hi, b.cg.p[i]); } for (auto &j : a.aJoint) { lo = std::min(lo, j.p.p[i]); hi = std::max(hi, j.p.p[i]); } CK(bb[2 * i] == lo && bb[2 * i + 1] == hi, "bounding box", ""); } }
  a.Solve(); P3 nn = p3(a.n); double W = 0; for (auto &b : a.aRigidBody) { W += b.m * len(p3(a.gravity)); for (auto &f : b.aExForce) W += len(p3(f.second)); }
  double big = 0; for (auto &b : a.aRigidBody) big = std::max(big, len(p3(b.u))); if (!(big < 0.1)) { ctx.count("large_motion"); return; }
  double vert = 0, load = 0;
  for (size_t i = 0; i < a.aRigidBody.size(); ++i) { auto &b = a.aRigidBody[i]; { double w = 0; P3 c[3]; for (int k = 0; k < 3; ++k) c[k] = {b.R.p_[k], b.R.p_[3 + k], b.R.p_[6 + k]}; for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) w = std::max(w, std::fabs(dot(c[k], c[l]) - (k == l))); CK(bad(w) <= 1e-9, "bodies stay rigid", "%g", w); }
    P3 f = b.m * p3(a.gravity), t{0, 0, 0}; load += dot(f, nn); CK(b.aCForce.size() == b.aCP.size(), "one force per contact", ""); if (ctx.failed) return;
    for (size_t k = 0; k < b.aCP.size(); ++k) { P3 rv = mul(b.R, p3(b.aCP[k]) - p3(b.cg)), cq = rv + p3(b.cg) + p3(b.u); P3 fk = a.cont_stiff * (cq - p3(b.aCP[k])); f = f + fk; t = t + cross(rv, fk); P3 cf = p3(b.aCForce[k]); CK(len(cf - dot(fk, nn) * nn) <= 1e-9 * W + 1e-12 * a.cont_stiff * 5, "contact force is the normal part of the reaction", "off %g of %g", len(cf - dot(fk, nn) * nn), W); vert += dot(cf, nn); ctx.count("contacts"); }
    for (auto &e : b.aExForce) { f = f + p3(e.second); t = t + cross(mul(b.R, p3(e.first) - p3(b.cg)), p3(e.second)); load += dot(p3(e.second), nn); ctx.count("external_forces"); }
    for (auto &j : a.aJoint) { int s = j.irb0 == (int)i ? 1 : j.irb1 == (int)i ? -1 : 0; if (!s) continue; P3 rv = mul(b.R, p3(j.p) - p3(b.cg)); f = f + (double)s * p3(j.linear); t = t + cross(rv, (double)s * p3(j.linear)); t = t - (double)s * p3(j.torque); }
    CK(bad(len(f)) <= 2e-3 * W + 1e-9, "forces on a body balance", "off %g of %g", len(f), W); CK(bad(len(t)) <= 2e-2 * W + 1e-9, "moments on a body balance", "off %g of %g", len(t), W); ctx.count("bodies_balanced"); }
  CK(bad(std::fabs(vert + load)) <= 2e-3 * W, "the floor carries the load", "%g load %g", vert, load); ctx.count("joints", a.aJoint.size());
  a.ClearProblem(); CK(a.aRigidBody.empty() && a.aJoint.empty(), "cleared", "");
}
