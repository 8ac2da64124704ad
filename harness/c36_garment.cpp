// C36: garment patterns - placing panels in space, meshing sewn panels, simulating cloth sewn together around a body
#include "vh.h"
#include <cfloat>
#include <functional>
#include <map>
#include <set>
#include "delfem2/garment.h"
#include "delfem2/quat.h"
namespace d = delfem2; using V2 = d::CVec2d; using V3 = d::CVec3d; using VD = std::vector<double>; using VU = std::vector<unsigned>;
static V3 P(const VD &x, size_t i) { return V3(&x[i * 3]); }
static V3 rv(vh::Rng &r, double s) { return V3(s * r.uni(-1, 1), s * r.uni(-1, 1), s * r.uni(-1, 1)); }
// rotation matrix from a random quaternion (own formula)
static void rnd_rot(vh::Rng &r, double R[9]) { double w, x, y, z, n; do { w = r.uni(-1, 1); x = r.uni(-1, 1); y = r.uni(-1, 1); z = r.uni(-1, 1); n = std::sqrt(w * w + x * x + y * y + z * z); } while (n < 0.2 || n > 1); w /= n; x /= n; y /= n; z /= n;
  double M[9] = {1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w), 2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w), 2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)}; for (int i = 0; i < 9; ++i) R[i] = M[i]; }
static d::CRigidTrans_2DTo3D rnd_place(vh::Rng &r, bool curved) { d::CRigidTrans_2DTo3D t; t.org2 = V2(r.uni(-1, 1), r.uni(-1, 1)); t.org3 = rv(r, 2); double R[9]; rnd_rot(r, R); for (int i = 0; i < 9; ++i) t.R.p_[i] = R[i]; t.radinv_x = curved ? r.pick({-1., 1.}) * r.pick({r.uni(0.1, 3.), r.uni(3., 15.), std::pow(10., r.uni(-8, -1))}) : 0; return t; }
// where a pattern point belongs: the panel is rolled along its x direction around an axis along its y direction
static V3 place(const d::CRigidTrans_2DTo3D &t, const V2 &q) { double x = q.x - t.org2.x, y = q.y - t.org2.y, k = t.radinv_x, s, c; if (std::fabs(k * x) < 1e-4) { s = x * (1 - k * k * x * x / 6); c = k * x * x / 2; } else { s = std::sin(k * x) / k; c = 2 * std::sin(k * x / 2) * std::sin(k * x / 2) / k; }
  double l[3] = {s, y, -c}; V3 o = t.org3; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) o.p[i] += t.R.p_[i * 3 + j] * l[j]; return o; }
VH_FAMILY(panel_placement, 3000, 60000) {
  auto &r = ctx.rng; bool curved = r.chance(0.7); auto t = rnd_place(r, curved); ctx.sig(vh::Hash().d(t.org2.x).d(t.org2.y).d(t.org3.x).d(t.radinv_x).d(t.R.p_[0]).h);
  { d::CRigidTrans_2DTo3D id; V3 q = id.Transform(V2(0.25, -0.5)); (void) q; }
  CK((t.Transform(t.org2) - t.org3).norm() < 1e-12, "the panel's origin is put at its place", "%g", (t.Transform(t.org2) - t.org3).norm());
  for (int it = 0; it < 6; ++it) { V2 q(r.uni(-1, 1), r.uni(-1, 1)); V3 a = t.Transform(q), e = place(t, q); CK((a - e).norm() < 1e-9, "point of a placed panel", "off by %g for curvature %g", (a - e).norm(), t.radinv_x);
    // no stretching: the map keeps lengths
    double h = 1e-4; V3 dx = (t.Transform(q + V2(h, 0)) - t.Transform(q - V2(h, 0))) / (2 * h), dy = (t.Transform(q + V2(0, h)) - t.Transform(q - V2(0, h))) / (2 * h);
    CK(std::fabs(dx.norm() - 1) < 2e-6 && std::fabs(dy.norm() - 1) < 2e-6 && std::fabs(dx.dot(dy)) < 2e-6, "a placed panel is not stretched", "lengths %g %g angle %g curvature %g", dx.norm(), dy.norm(), dx.dot(dy), t.radinv_x); ctx.count("placed_points"); }
  if (!curved) { V2 a(r.uni(-3, 3), r.uni(-3, 3)), b(r.uni(-3, 3), r.uni(-3, 3)); CK(std::fabs((t.Transform(a) - t.Transform(b)).norm() - (a - b).norm()) < 1e-12, "flat panels keep distances", "%d", 0); ctx.count("flat"); }
  else ctx.count(t.radinv_x < 0 ? "rolled_inwards" : "rolled_outwards"); }

struct Pattern { d::CCad2D cad; VU seam; std::vector<d::CRigidTrans_2DTo3D> rt; d::CMesher_Cad2D mesher; double el; std::vector<d::CDynTri> tri; std::vector<V2> v2; VD xyz; VU line; std::vector<std::vector<V2>> poly; };
// two to four quadrilateral or polygonal panels lying side by side in the pattern, with seams between some of their edges
static void make_pattern(vh::Rng &r, Pattern &p, bool curved_edge, bool rolled) { int nf = r.irange(2, 4); std::vector<int> ne; int first = 0; std::vector<int> off;
  for (int f = 0; f < nf; ++f) { int n = r.irange(3, 6); VD xy; double ph = r.uni(0, 1), rad = r.uni(0.35, 0.5); std::vector<V2> pl; for (int i = 0; i < n; ++i) { double a = 2 * M_PI * (i + ph + 0.25 * r.uni(-1, 1)) / n; V2 q(f * 1.6 + rad * std::cos(a), rad * std::sin(a)); pl.push_back(q); xy.push_back(q.x); xy.push_back(q.y); } p.cad.AddPolygon(xy); p.poly.push_back(pl); off.push_back(first); ne.push_back(n); first += n; d::CRigidTrans_2DTo3D t = rnd_place(r, rolled && r.chance(0.5)); t.org2 = V2(f * 1.6, 0); t.org3 = rv(r, 0.3); if (std::fabs(t.radinv_x) > 3) t.radinv_x = 3; p.rt.push_back(t); }
  if (curved_edge) for (unsigned e = 0; e < p.cad.aEdge.size(); ++e) { if (!r.chance(0.3)) continue; auto &g = p.cad.aEdge[e]; V2 dd = g.p1 - g.p0, nn(-dd.y, dd.x); if (r.chance(0.5)) g.SetQuadraticBezierCurve(g.p0 + dd * 0.5 - nn * r.uni(0, 0.2)); else g.SetCubicBezierCurve(g.p0 + dd * 0.33 - nn * r.uni(0, 0.15), g.p0 + dd * 0.67 - nn * r.uni(0, 0.15)); }
  std::set<int> used; int ns = r.irange(1, nf + 1); for (int k = 0; k < ns; ++k) { int f = r.irange(0, nf - 1), g = r.irange(0, nf - 1); if (f == g) continue; int a = off[f] + r.irange(0, ne[f] - 1), b = off[g] + r.irange(0, ne[g] - 1); if (used.count(a) || used.count(b)) continue; used.insert(a); used.insert(b); p.seam.push_back(a); p.seam.push_back(b); }
  p.el = r.pick({0.08, 0.12, 0.2}); if (r.chance(0.3)) { p.line = {}; } d::MeshingPattern(p.tri, p.v2, p.xyz, p.line, p.mesher, p.rt, p.cad, p.seam, p.el); }
VH_FAMILY_CPU(pattern, 250, 4000, 40) {
  auto &r = ctx.rng; Pattern p; make_pattern(r, p, r.chance(0.5), r.chance(0.6)); ctx.sig(vh::Hash().vd(p.xyz).vu(p.line).h); size_t np = p.v2.size();
  if (!CK(p.xyz.size() == np * 3, "one place per point of the pattern", "%zu for %zu", p.xyz.size(), np)) return;
  // every triangle belongs to one panel, counterclockwise; every point is where its panel puts it
  int nf = p.rt.size(); std::vector<int> face(np, -1); std::vector<double> area(nf, 0);
  for (auto &t : p.tri) { V2 c(0, 0); for (int k = 0; k < 3; ++k) { if (!CK(t.v[k] < np, "triangle of the pattern", "%u of %zu", t.v[k], np)) return; c += p.v2[t.v[k]] / 3.; } int f = (int)std::floor((c.x + 0.8) / 1.6); if (!CK(f >= 0 && f < nf, "triangle lies in a panel", "%d", f)) return; V2 a = p.v2[t.v[0]], b = p.v2[t.v[1]], e = p.v2[t.v[2]]; double ar = 0.5 * ((b.x - a.x) * (e.y - a.y) - (b.y - a.y) * (e.x - a.x)); CK(ar > 0, "triangle orientation", "%g", ar); area[f] += ar;
    for (int k = 0; k < 3; ++k) { CK(face[t.v[k]] == -1 || face[t.v[k]] == f, "panels share no point", "%u", t.v[k]); face[t.v[k]] = f; } }
  for (size_t i = 0; i < np; ++i) { if (!CK(face[i] >= 0, "every point belongs to a panel", "%zu", i)) return; V3 e = place(p.rt[face[i]], p.v2[i]); if (!CK((P(p.xyz, i) - e).norm() < 1e-9, "panel points are put in place", "point %zu off by %g", i, (P(p.xyz, i) - e).norm())) return; ctx.count("pattern_points"); }
  // seams: pairs of points with the same relative position on edges running against each other, each point of the edge once
  size_t at = 0; for (size_t s = 0; s < p.seam.size() / 2; ++s) { const auto &e0 = p.cad.aEdge[p.seam[s * 2]], &e1 = p.cad.aEdge[p.seam[s * 2 + 1]]; double l0 = e0.ArcLength(), l1 = e1.ArcLength(); unsigned nd = (unsigned)(0.5 * (l0 + l1) / p.el + 1);
    auto pos = [](const d::CCad2D_EdgeGeo &g, double t) { double u = 1 - t; if (g.type_edge == d::CCad2D_EdgeGeo::LINE) return g.p0 * u + g.p1 * t; if (g.type_edge == d::CCad2D_EdgeGeo::BEZIER_QUADRATIC) { V2 c = g.p0 + V2(g.param[0], g.param[1]); return g.p0 * (u * u) + c * (2 * u * t) + g.p1 * (t * t); } V2 c = g.p0 + V2(g.param[0], g.param[1]), e = g.p1 + V2(g.param[2], g.param[3]); return g.p0 * (u * u * u) + c * (3 * u * u * t) + e * (3 * u * t * t) + g.p1 * (t * t * t); };
    if (!CK(at + (nd + 1) * 2 <= p.line.size(), "pairs of a seam", "seam %zu: %zu indices left, %u divisions", s, p.line.size() - at, nd)) return;
    for (unsigned i = 0; i <= nd; ++i, at += 2) { unsigned a = p.line[at], b = p.line[at + 1]; if (!CK(a < np && b < np && a != b, "seam pair", "%u %u", a, b)) return; double t = (double)i / nd; CK((p.v2[a] - pos(e0, t)).norm() < 1e-9 && (p.v2[b] - pos(e1, 1 - t)).norm() < 1e-9, "sewn points match along the seam", "seam %zu pair %u: %g %g", s, i, (p.v2[a] - pos(e0, t)).norm(), (p.v2[b] - pos(e1, 1 - t)).norm()); ctx.count("seam_pairs"); }
    ctx.count("seams"); }
  CK(at == p.line.size(), "no other seam pairs", "%zu of %zu", at, p.line.size());
  // the panel is covered
  for (int f = 0; f < nf; ++f) { bool straight = true; unsigned o = 0; for (int g = 0; g < f; ++g) o += p.poly[g].size(); double A = 0; auto &pl = p.poly[f]; for (size_t i = 0; i < pl.size(); ++i) { straight &= p.cad.aEdge[o + i].type_edge == d::CCad2D_EdgeGeo::LINE; V2 a = pl[i], b = pl[(i + 1) % pl.size()]; A += 0.5 * (a.x * b.y - a.y * b.x); } if (straight) { CK(std::fabs(area[f] - A) < 1e-9, "panel is covered", "%g of %g", area[f], A); ctx.count("covered_panels"); } } }

struct NoBody { int calls = 0; std::function<void(double *, unsigned)> f; void Project(double *x, unsigned n) { ++calls; if (f) f(x, n); } };
static double strain(const Pattern &p, const VD &X) { double m = 0; for (auto &t : p.tri) for (int k = 0; k < 3; ++k) { unsigned a = t.v[k], b = t.v[(k + 1) % 3]; double l = (p.v2[a] - p.v2[b]).norm(); double s = (P(X, a) - P(X, b)).norm() / l - 1; m += s * s; } return std::sqrt(m / (3 * p.tri.size())); }
VH_FAMILY_CPU(cloth_step, 200, 3000, 60) {
  auto &r = ctx.rng; Pattern p; make_pattern(r, p, false, false); size_t np = p.v2.size(); VD X = p.xyz, U(np * 3, 0), Xt; std::vector<int> bc(np, 0); double dt = r.pick({0.01, 1. / 60}), bend = r.pick({0., 0.01, 0.5, 1.}), g[3] = {r.uni(-3, 3), -9.8 * r.irange(0, 1), r.uni(-3, 3)}; int mode = r.irange(0, 3); ctx.sig(vh::Hash().vd(X).d(dt).d(bend).u(mode).h); NoBody body;
  if (mode == 0) { // an undeformed free panel falls without deforming
    V3 v = rv(r, 1); for (size_t i = 0; i < np; ++i) for (int k = 0; k < 3; ++k) U[i * 3 + k] = v.p[k]; int n = r.irange(1, 6); VU none; for (int s = 0; s < n; ++s) { d::StepTime_PbdClothSim(X, Xt, U, bc, p.tri, p.v2, none, body, dt, g, bend); v += V3(g) * dt; for (size_t i = 0; i < np; ++i) p.xyz[i * 3] += dt * v.x, p.xyz[i * 3 + 1] += dt * v.y, p.xyz[i * 3 + 2] += dt * v.z; }
    double w = 0, wu = 0; for (size_t i = 0; i < np; ++i) { w = std::max(w, (P(X, i) - P(p.xyz, i)).norm()); wu = std::max(wu, (P(U, i) - v).norm()); } CK(w < 1e-9 && wu < 1e-6, "undeformed cloth falls freely", "%g %g after %d steps", w, wu, n); CK(body.calls == n, "the body is looked at every step", "%d of %d", body.calls, n); ctx.count("free_falls"); return; }
  // sewn, deformed cloth
  double amp = mode == 3 ? 0 : r.uni(0, 0.15); for (auto &x : X) x += amp * p.el * r.uni(-1, 1); for (auto &u : U) u = r.uni(-0.2, 0.2); bool fix = mode == 2; if (fix) { int nfix = r.irange(1, 5); for (int k = 0; k < nfix; ++k) bc[r.irange(0, (int)np - 1)] = 1; for (size_t i = 0; i < np; ++i) if (bc[i]) U[i * 3] = U[i * 3 + 1] = U[i * 3 + 2] = 0; }
  VU ln = p.line; int n = r.irange(1, 12); auto gap = [&]() { double m = 0; for (size_t i = 0; i < ln.size() / 2; ++i) m = std::max(m, (P(X, ln[i * 2]) - P(X, ln[i * 2 + 1])).norm()); return m; };
  for (int s = 0; s < n; ++s) { VD X0 = X, U0 = U; VD seen; body.f = [&](double *x, unsigned m) { seen.assign(x, x + m * 3); }; d::StepTime_PbdClothSim(X, Xt, U, bc, p.tri, p.v2, ln, body, dt, g, bend); for (double x : X) if (!CK(std::isfinite(x), "cloth stays finite", "%g", x)) return;
    V3 m0(0, 0, 0), m1(0, 0, 0); size_t nfree = 0; for (size_t i = 0; i < np; ++i) { if (bc[i]) { CK(P(X, i) == P(X0, i), "fixed points stay", "%zu", i); ctx.count("fixed_points"); continue; } ++nfree; m0 += P(X0, i) + dt * P(U0, i) + dt * dt * V3(g); m1 += P(X, i);
      CK((P(U, i) - (P(X, i) - P(X0, i)) / dt).norm() < 1e-7 * (1 + P(U, i).norm()), "velocity is the displacement by the time step", "%zu", i); CK(P(X, i) == V3(&seen[i * 3]), "the projected position is the new position", "%zu", i); }
    if (!fix) { CK((m1 - m0).norm() < 1e-9 * np, "sewing, stretching and bending keep the momentum of free cloth", "%g", (m1 - m0).norm()); ctx.count("momentum_steps"); }
    ctx.count("steps"); }
  if (p.seam.size() != 2 || fix) return; // one seam between two panels: nothing hinders it from closing
  // without gravity and velocity the seams close and the cloth recovers its lengths
  double g0[3] = {0, 0, 0}; body.f = nullptr; double gp0 = gap(); int lim = 60 + (int)(gp0 / 0.01 * 6); for (int s = 0; s < lim; ++s) { for (auto &u : U) u = 0; d::StepTime_PbdClothSim(X, Xt, U, bc, p.tri, p.v2, ln, body, dt, g0, 0.); }
  double gp1 = gap(); ctx.count("relaxed"); double dl = std::fabs(p.cad.aEdge[p.seam[0]].ArcLength() - p.cad.aEdge[p.seam[1]].ArcLength()); CK(gp1 < 0.03 + 2 * dl + 0.35 * gp0, "seams close", "%g from %g in %d steps, lengths differ by %g", gp1, gp0, lim, dl); CK(strain(p, X) < 0.5, "cloth keeps its lengths", "%g", strain(p, X)); }

// convex body: a sphere of quadrilateral facets (each split in two), mapped by an affine map
static void body_mesh(vh::Rng &r, VD &X, VU &T, double R) { int nl = r.irange(8, 14), nm = r.irange(6, 10); double s[3] = {R * r.uni(0.8, 1.2), R * r.uni(0.8, 1.2), R * r.uni(0.8, 1.2)}, M[9]; rnd_rot(r, M); V3 c = rv(r, 0.2); X.clear(); T.clear(); auto add = [&](double x, double y, double z) { double q[3] = {x * s[0], y * s[1], z * s[2]}; for (int i = 0; i < 3; ++i) X.push_back(c.p[i] + M[i * 3] * q[0] + M[i * 3 + 1] * q[1] + M[i * 3 + 2] * q[2]); };
  add(0, 0, 1); for (int i = 1; i < nm; ++i) for (int j = 0; j < nl; ++j) { double a = M_PI * i / nm, b = 2 * M_PI * j / nl; add(std::sin(a) * std::cos(b), std::sin(a) * std::sin(b), std::cos(a)); } add(0, 0, -1); unsigned N = X.size() / 3 - 1;
  auto id = [&](int i, int j) { return 1u + (i - 1) * nl + (j % nl); }; for (int j = 0; j < nl; ++j) { T.insert(T.end(), {0u, id(1, j), id(1, j + 1)}); T.insert(T.end(), {N, id(nm - 1, j + 1), id(nm - 1, j)}); for (int i = 1; i < nm - 1; ++i) { T.insert(T.end(), {id(i, j), id(i + 1, j), id(i + 1, j + 1)}); T.insert(T.end(), {id(i, j), id(i + 1, j + 1), id(i, j + 1)}); } } }
// signed distance to the outer side of a convex body's planes: negative inside; exact depth inside, lower bound outside
static double outside(const VD &X, const VU &T, const V3 &q) { double m = -1e30; for (size_t t = 0; t < T.size() / 3; ++t) { V3 a = P(X, T[t * 3]), n = (P(X, T[t * 3 + 1]) - a).cross(P(X, T[t * 3 + 2]) - a); double l = n.norm(); if (l < 1e-12) continue; m = std::max(m, (q - a).dot(n) / l); } return m; }
static double pt_tri(const V3 &q, const V3 &a, const V3 &b, const V3 &c) { auto seg = [&](const V3 &u, const V3 &w) { V3 e = w - u; double t = std::min(1., std::max(0., (q - u).dot(e) / e.dot(e))); return (u + t * e - q).norm(); }; double m = std::min({seg(a, b), seg(b, c), seg(c, a)}); V3 n = (b - a).cross(c - a); double nn = n.dot(n); if (nn > 1e-24) { double w0 = (b - q).cross(c - q).dot(n) / nn, w1 = (c - q).cross(a - q).dot(n) / nn, w2 = 1 - w0 - w1; if (w0 >= 0 && w1 >= 0 && w2 >= 0) m = std::min(m, std::fabs((q - a).dot(n)) / std::sqrt(nn)); } return m; }
static double dist(const VD &X, const VU &T, const V3 &q) { double m = 1e30; for (size_t t = 0; t < T.size() / 3; ++t) m = std::min(m, pt_tri(q, P(X, T[t * 3]), P(X, T[t * 3 + 1]), P(X, T[t * 3 + 2]))); return m; }
// what Project has to do: points further out than the clearance stay; points inside or closer come out to the clearance, if they lie within the margin of the surface or in the bounding sphere of their nearest triangle
static bool judge(vh::Ctx &ctx, const VD &X, const VU &T, double margin, const VD &a, const VD &b, const char *what) { d::CBVH_MeshTri3D<d::CBV3d_Sphere, double> ref; ref.Init(X.data(), X.size() / 3, T.data(), T.size() / 3, margin); std::vector<const d::CBV3d_Sphere *> leaf(T.size() / 3, nullptr); for (size_t i = 0; i < ref.aNodeBVH.size(); ++i) if (ref.aNodeBVH[i].ichild[1] == UINT_MAX) leaf[ref.aNodeBVH[i].ichild[0]] = &ref.aBB_BVH[i];
  for (size_t i = 0; i < a.size() / 3; ++i) { V3 q = P(a, i); double o = outside(X, T, q); if (o > 0.05) { if (!CK(q == P(b, i), "points off the body are left alone", "%s: point %zu at distance %g", what, i, o)) return false; ctx.count("left_alone"); continue; }
    std::vector<double> dt(T.size() / 3); double dd = 1e30; for (size_t t = 0; t < dt.size(); ++t) dd = std::min(dd, dt[t] = pt_tri(q, P(X, T[t * 3]), P(X, T[t * 3 + 1]), P(X, T[t * 3 + 2]))); double d1 = dist(X, T, P(b, i)), o1 = outside(X, T, P(b, i)); if (o > 0 && dd > 0.001 + 1e-9) { if (!CK((q - P(b, i)).norm() < 1e-9, "points with clearance are left alone", "%s: point %zu at %g", what, i, dd)) return false; ctx.count("left_alone"); continue; }
    bool in = dd < 0.99 * margin; for (size_t t = 0; t < dt.size(); ++t) if (dt[t] < dd + 1e-9 && leaf[t]) in |= (q - V3(leaf[t]->c[0], leaf[t]->c[1], leaf[t]->c[2])).norm() < leaf[t]->r - 1e-6;
    if (!in) { ctx.count("out_of_reach"); continue; }
    if (!CK(o1 > 0 && d1 > 0.0004 && d1 < 0.0011, "points inside the body are put on its outside with clearance", "%s: point %zu depth %g comes to %g (side %g)", what, i, -o, d1, o1)) return false; CK((q - P(b, i)).norm() < dd + 0.001 + 1e-7, "points come out the shortest way", "%s: point %zu moved %g for depth %g", what, i, (q - P(b, i)).norm(), dd); ctx.count("pushed_out"); if (o < -0.01) ctx.count("pushed_from_inside"); }
  return true; }
VH_FAMILY_CPU(cloth_on_body, 150, 2000, 60) {
  auto &r = ctx.rng; d::CProjectorMesh pj; body_mesh(r, pj.aXYZ_Body, pj.aTri_Body, r.uni(0.3, 0.6)); ctx.sig(vh::Hash().vd(pj.aXYZ_Body).h); pj.Init(); const VD &X = pj.aXYZ_Body; const VU &T = pj.aTri_Body; V3 c(0, 0, 0); for (size_t i = 0; i < X.size() / 3; ++i) c += P(X, i) / (double)(X.size() / 3);
  if (r.chance(0.5)) { // a cloud of points brought around in small and large moves
    int n = r.irange(5, 30); VD a; for (int i = 0; i < n; ++i) { V3 u = rv(r, 1); u.normalize(); V3 q = c + u * r.uni(0.25, 0.9); a.insert(a.end(), q.p, q.p + 3); } for (int s = 0; s < 8; ++s) { double st = r.pick({0.002, 0.02, 0.08, 0.4}); for (auto &x : a) x += st * r.uni(-1, 1); VD b = a; pj.Project(b.data(), n); if (!judge(ctx, X, T, 0.01, a, b, "cloud")) return; a = b; } ctx.count("clouds"); return; }
  // a panel dropped on the body
  d::CCad2D cad; double h = r.uni(0.25, 0.4); cad.AddPolygon({-h, -h, h, -h, h, h, -h, h}); d::CMesher_Cad2D me; std::vector<d::CDynTri> tri; std::vector<V2> v2; VD x, xt; VU ln; d::CRigidTrans_2DTo3D rt; rt.R.SetRotMatrix_BryantAngle(-M_PI * 0.5, 0, 0); double top = -1e30; for (size_t i = 0; i < X.size() / 3; ++i) top = std::max(top, X[i * 3 + 1]); rt.org3 = c; rt.org3.p[1] = top + r.uni(0.002, 0.03); rt.org3 += V3(r.uni(-0.1, 0.1), 0, r.uni(-0.1, 0.1)); d::MeshingPattern(tri, v2, x, ln, me, {rt}, cad, {}, r.uni(0.07, 0.12)); VD u(x.size(), 0); std::vector<int> bc(x.size() / 3, 0); double g[3] = {0, -9.8, 0}; VD before;
  struct Spy { d::CProjectorMesh &p; VD &a; void Project(double *y, unsigned m) { a.assign(y, y + m * 3); p.Project(y, m); } } spy{pj, before}; int n = r.irange(10, 30); for (int s = 0; s < n; ++s) { d::StepTime_PbdClothSim(x, xt, u, bc, tri, v2, ln, spy, 0.01, g, 0.01); if (!judge(ctx, X, T, 0.01, before, x, "drop")) return; } ctx.count("drops"); }
VH_FAMILY_CPU(moving_body, 200, 3000, 60) {
  auto &r = ctx.rng; d::CProjector_RigMesh pj; body_mesh(r, pj.aXYZ0_Body, pj.aTri_Body, r.uni(0.3, 0.6)); size_t nv = pj.aXYZ0_Body.size() / 3; ctx.sig(vh::Hash().vd(pj.aXYZ0_Body).h); int nb = r.irange(1, 3); pj.aBone.resize(nb); V3 j0 = rv(r, 0.3); for (int b = 0; b < nb; ++b) { pj.aBone[b].ibone_parent = b - 1; V3 o = b == 0 ? j0 : V3(0.1, 0, 0); for (int k = 0; k < 3; ++k) pj.aBone[b].transRelative[k] = o.p[k]; V3 jp = j0 + V3(0.1 * b, 0, 0); pj.aBone[b].invBindMat[3] = -jp.x; pj.aBone[b].invBindMat[7] = -jp.y; pj.aBone[b].invBindMat[11] = -jp.z; }
  for (size_t i = 0; i < nv; ++i) { pj.aSkinningSparseWeight.push_back(1); pj.aSkinningSparseIdBone.push_back(nb - 1); } // the body follows the last bone
  pj.UpdatePose(true); double w = 0; for (size_t i = 0; i < nv * 3; ++i) w = std::max(w, std::fabs(pj.aXYZ1_Body[i] - pj.aXYZ0_Body[i])); CK(w < 1e-12, "the body rests in its bind pose", "%g", w);
  V3 c(0, 0, 0); for (size_t i = 0; i < nv; ++i) c += P(pj.aXYZ1_Body, i) / (double)nv; int n = r.irange(5, 30); VD a; for (int i = 0; i < n; ++i) { V3 u = rv(r, 1); u.normalize(); V3 q = c + u * r.uni(0.3, 0.9); a.insert(a.end(), q.p, q.p + 3); }
  double q0[4] = {0, 0, 0, 1}; for (int s = 0; s < 10; ++s) { bool jump = r.chance(0.2); double rt = r.pick({0., 0.02, 0.1, 0.5}), tr = r.pick({0., 0.01, 0.03, 0.1}); if (jump) tr = 0.3; bool posed = r.chance(0.85);
    if (posed) { int b = r.irange(0, nb - 1); V3 ax = rv(r, 1); ax.normalize(); double h = rt * r.uni(-0.5, 0.5), dq[4] = {ax.x * std::sin(h), ax.y * std::sin(h), ax.z * std::sin(h), std::cos(h)}, *q = pj.aBone[b].quatRelativeRot, o[4] = {dq[3] * q[0] + dq[0] * q[3] + dq[1] * q[2] - dq[2] * q[1], dq[3] * q[1] - dq[0] * q[2] + dq[1] * q[3] + dq[2] * q[0], dq[3] * q[2] + dq[0] * q[1] - dq[1] * q[0] + dq[2] * q[3], dq[3] * q[3] - dq[0] * q[0] - dq[1] * q[1] - dq[2] * q[2]}; for (int k = 0; k < 4; ++k) q[k] = o[k]; V3 m = rv(r, tr); for (int k = 0; k < 3; ++k) pj.aBone[0].transRelative[k] += m.p[k]; VD old = pj.aXYZ1_Body; pj.UpdatePose(r.chance(0.3)); double e = 0, e0 = 0; for (int k = 0; k < 30; ++k) { int i = r.irange(0, (int)nv - 1), l = r.irange(0, (int)nv - 1); e = std::max(e, std::fabs((P(pj.aXYZ1_Body, i) - P(pj.aXYZ1_Body, l)).norm() - (P(pj.aXYZ0_Body, i) - P(pj.aXYZ0_Body, l)).norm())); } (void) e0; CK(e < 1e-9, "a body on one bone moves rigidly", "%g", e); ctx.count("poses"); }
    double st = r.pick({0., 0., 0.01, 0.05}); for (auto &x : a) x += st * r.uni(-1, 1); VD b = a; pj.Project(b.data(), n); if (!judge(ctx, pj.aXYZ1_Body, pj.aTri_Body, 0.001, a, b, posed ? "posed" : "still")) return; a = b; } (void) q0; }

