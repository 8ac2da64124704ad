// C09: convex hulls and convex-convex collision tests against brute-force oracles
#include "vh.h"
#include <map>
#include <set>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/geo_convhull2.h"
#include "delfem2/geo_convhull3.h"
#include "delfem2/geo_gjksat2.h"
// the 2D and the 3D header define two helpers of the same name
#define FindFurthest FindFurthest3
#define Range_ProjectionPointsOnAxis Range_ProjectionPointsOnAxis3
#include "delfem2/geo_gjksat3.h"
namespace d = delfem2;
using LD = long double;
template <class T> using P2 = d::CVec2<T>; template <class T> using P3 = d::CVec3<T>;
enum Kind : int { BOX, BALL, SPHERE, CLUSTER, FLAT, LATTICE };

template <class T> static std::vector<P2<T>> points2(vh::Rng &r, int n, int kind, double size, double cx, double cy) {
  std::vector<P2<T>> v; double a0 = r.uni(0, 6.28), asp = kind == FLAT ? 0.05 : 1;
  for (int i = 0; i < n; ++i) { double x, y;
    if (kind == SPHERE) { double a = r.uni(0, 6.2831853); x = std::cos(a); y = std::sin(a); }
    else if (kind == LATTICE) { x = r.irange(-3, 3); y = r.irange(-3, 3); }
    else if (kind == CLUSTER) { double e = r.chance(0.5) ? 1e-2 : 1; x = e * r.uni(-1, 1) + (e < 1 ? 0.5 : 0); y = e * r.uni(-1, 1); }
    else { x = r.uni(-1, 1); y = asp * r.uni(-1, 1); }
    if (kind != LATTICE) { double X = std::cos(a0) * x - std::sin(a0) * y, Y = std::sin(a0) * x + std::cos(a0) * y; x = X; y = Y; }
    v.push_back(P2<T>((T)(cx + size * x), (T)(cy + size * y))); }
  return v; }
template <class T> static std::vector<P3<T>> points3(vh::Rng &r, int n, int kind, double size, const double c[3]) {
  std::vector<P3<T>> v; double asp = kind == FLAT ? 0.1 : 1;
  for (int i = 0; i < n; ++i) { double p[3]; double l;
    do { l = 0; for (double &q : p) { q = r.uni(-1, 1); l += q * q; } l = std::sqrt(l); } while (kind != BOX && kind != FLAT && kind != CLUSTER && (l > 1 || l < 1e-2));
    if (kind == SPHERE) for (double &q : p) q /= l;
    if (kind == CLUSTER && r.chance(0.5)) for (double &q : p) q = q * 0.05 + 0.4;
    p[2] *= asp; v.push_back(P3<T>((T)(c[0] + size * p[0]), (T)(c[1] + size * p[1]), (T)(c[2] + size * p[2]))); }
  return v; }
template <class V> static std::vector<double> flat(const std::vector<V> &v, int dim) { std::vector<double> o; for (auto &p : v) for (int k = 0; k < dim; ++k) o.push_back(p.p[k]); return o; }

// ---------------------------------------------------------------- hull 2D
template <class T> static void hull2(vh::Ctx &ctx) {
  auto &r = ctx.rng; int kind = r.pick({BOX, BALL, SPHERE, CLUSTER, FLAT, LATTICE}), n = r.chance(0.1) ? r.irange(200, 800) : r.irange(3, 40); double size = r.pick({1., 1., 30., 0.01});
  if (kind == LATTICE) size = 1;
  auto pt = points2<T>(r, n, kind, size, kind == LATTICE ? 0 : size * r.uni(-2, 2), kind == LATTICE ? 0 : size * r.uni(-2, 2)); ctx.sig(vh::Hash().vd(flat(pt, 2)).h);
  LD area = 0, tol = std::is_same_v<T, float> ? 1e-5L * size * size : 1e-13L * size * size; if (kind == LATTICE) tol = 0;
  { bool all = true; for (int i = 0; i < n && all; ++i) for (int j = 0; j < n && all; ++j) for (int k = 0; k < std::min(n, 40); ++k) { LD c = ((LD)pt[j].p[0] - pt[i].p[0]) * ((LD)pt[k].p[1] - pt[i].p[1]) - ((LD)pt[j].p[1] - pt[i].p[1]) * ((LD)pt[k].p[0] - pt[i].p[0]); if (std::fabs(c) > 1e-3L * size * size) { all = false; break; } } if (all) return; }
  std::vector<unsigned> h; d::ConvexHull2(h, pt);
  auto cr = [&](unsigned a, unsigned b, unsigned c) { return ((LD)pt[b].p[0] - pt[a].p[0]) * ((LD)pt[c].p[1] - pt[a].p[1]) - ((LD)pt[b].p[1] - pt[a].p[1]) * ((LD)pt[c].p[0] - pt[a].p[0]); };
  if (!CK(h.size() >= 4 && h.front() == h.back(), "hull is a closed polygon", "size %zu", h.size())) return;
  unsigned m = h.size() - 1; std::set<unsigned> used; double worst = 0;
  for (unsigned i = 0; i < m; ++i) { CK(h[i] < (unsigned)n && used.insert(h[i]).second, "hull visits input points once", "index %u of %d (hull %s)", h[i], n, vh::str(h).c_str()); if (ctx.failed) return; }
  for (unsigned i = 0; i < m; ++i) { unsigned a = h[i], b = h[(i + 1) % m], c = h[(i + 2) % m]; CK(cr(a, b, c) > -tol && (kind != LATTICE || cr(a, b, c) > 0), "hull turns left at every vertex", "cross %Lg at vertex %u", cr(a, b, c), i);
    for (int k = 0; k < n; ++k) { LD e = std::hypot((double)(pt[b].p[0] - pt[a].p[0]), (double)(pt[b].p[1] - pt[a].p[1])), dd = -cr(a, b, k); worst = std::max<double>(worst, dd / (e + 1e-300) / size); CK(dd <= tol * 4, "all points are inside of the hull", "point %d outside edge %u-%u by %Lg (size %g, kind %d)", k, a, b, dd, size, kind); if (ctx.failed) return; }
    area += ((LD)pt[a].p[0] * pt[b].p[1] - (LD)pt[a].p[1] * pt[b].p[0]) / 2; }
  // independent area by Andrew's monotone chain
  std::vector<unsigned> id(n); for (int i = 0; i < n; ++i) id[i] = i; std::sort(id.begin(), id.end(), [&](unsigned a, unsigned b) { return std::make_pair(pt[a].p[0], pt[a].p[1]) < std::make_pair(pt[b].p[0], pt[b].p[1]); });
  std::vector<unsigned> H; for (int pass = 0; pass < 2; ++pass) { size_t base = H.size(); for (unsigned k : id) { while (H.size() >= base + 2 && cr(H[H.size() - 2], H.back(), k) <= 0) H.pop_back(); H.push_back(k); } H.pop_back(); std::reverse(id.begin(), id.end()); }
  LD ar = 0; for (size_t i = 0; i < H.size(); ++i) { auto &a = pt[H[i]], &b = pt[H[(i + 1) % H.size()]]; ar += ((LD)a.p[0] * b.p[1] - (LD)a.p[1] * b.p[0]) / 2; }
  CK(std::fabs(area - ar) <= tol * 50 + 1e-12L * size * size, "hull area", "%Lg expected %Lg", area, ar); if (kind == LATTICE) CK(m == H.size(), "number of hull vertices", "%u expected %zu", m, H.size());
  ctx.count(kind == LATTICE ? "hull2_lattice" : "hull2_general"); ctx.count("hull2_vertices", m); }
VH_FAMILY(hull2_double, 4000, 60000) { hull2<double>(ctx); }
VH_FAMILY(hull2_float, 2000, 30000) { hull2<float>(ctx); }

// ---------------------------------------------------------------- hull 3D
template <class V> static std::vector<unsigned> hull3_checked(vh::Ctx &ctx, const std::vector<V> &pt, double size, LD eps, bool full) {
  std::vector<unsigned> f; d::ConvexHull3(f, pt); size_t nf = f.size() / 3; int n = pt.size(); if (!CK(nf >= 4 && f.size() % 3 == 0, "hull has faces", "%zu", f.size())) return f;
  std::set<std::pair<unsigned, unsigned>> he; std::set<unsigned> vs;
  for (size_t i = 0; i < nf; ++i) for (int e = 0; e < 3; ++e) { unsigned a = f[i * 3 + e], b = f[i * 3 + (e + 1) % 3]; vs.insert(a); if (!CK(a < (unsigned)n && a != b && he.insert({a, b}).second, "each directed edge is used once", "edge %u-%u", a, b)) return f; }
  for (auto &e : he) if (!CK(he.count({e.second, e.first}), "hull is closed", "edge %u-%u has no opposite", e.first, e.second)) return f;
  CK(vs.size() + nf == he.size() / 2 + 2, "hull is a topological sphere", "V %zu F %zu E %zu", vs.size(), nf, he.size() / 2); CK(nf == 2 * vs.size() - 4, "number of hull faces", "%zu for %zu vertices", nf, vs.size());
  if (full) for (size_t i = 0; i < nf; ++i) { LD v[3], w[3]; auto &a = pt[f[i * 3]], &b = pt[f[i * 3 + 1]], &c = pt[f[i * 3 + 2]]; for (int k = 0; k < 3; ++k) { v[k] = (LD)b.p[k] - a.p[k]; w[k] = (LD)c.p[k] - a.p[k]; } LD nn[3] = {v[1] * w[2] - v[2] * w[1], v[2] * w[0] - v[0] * w[2], v[0] * w[1] - v[1] * w[0]}, l = std::sqrt(nn[0] * nn[0] + nn[1] * nn[1] + nn[2] * nn[2]);
      for (int k = 0; k < n; ++k) { LD h = 0; for (int m = 0; m < 3; ++m) h += nn[m] * ((LD)pt[k].p[m] - a.p[m]); if (!CK(h <= eps * (l * size + size * size * size * 1e-3L), "all points are inside of the hull", "point %d is %Lg above face %zu (area*2 %Lg)", k, h, i, l)) return f; } }
  ctx.count("hull3_faces", nf); ctx.count("hull3_inner_points", n - vs.size()); return f; }
VH_FAMILY(hull3, 2500, 40000) {
  auto &r = ctx.rng; int kind = r.pick({BOX, BALL, SPHERE, CLUSTER, FLAT}), n = r.chance(0.05) ? r.irange(150, 400) : r.irange(4, 40); double size = r.pick({1., 1., 30., 0.01}), c[3]; for (double &x : c) x = size * r.uni(-2, 2);
  auto pt = points3<double>(r, n, kind, size, c); ctx.sig(vh::Hash().vd(flat(pt, 3)).h);
  if (r.chance(0.3)) std::sort(pt.begin(), pt.end(), [](const auto &a, const auto &b) { return a.p[0] < b.p[0]; }); // every new point is outside
  hull3_checked(ctx, pt, size, 1e-12L, true); }
VH_FAMILY(hull3_float, 800, 10000) {
  auto &r = ctx.rng; int n = r.irange(4, 20); double c[3] = {r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)}; auto pt = points3<float>(r, n, r.pick({BOX, BALL, SPHERE}), 1, c); ctx.sig(vh::Hash().vd(flat(pt, 3)).h);
  // general position at float precision
  for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) for (int k = j + 1; k < n; ++k) for (int l = k + 1; l < n; ++l) { auto a = pt[j] - pt[i], b = pt[k] - pt[i], e = pt[l] - pt[i]; if (std::fabs(a.cross(b).dot(e)) < 2e-5) return; }
  hull3_checked(ctx, pt, 1, 1e-5L, true); ctx.count("hull3_float"); }

// ---------------------------------------------------------------- convex-convex
// signed separation: > 0 apart, < 0 minus the penetration depth (exact for overlap)
template <class V> static LD sep_axis(const std::vector<V> &A, const std::vector<V> &B, const LD *n, int dim) { LD l = 0; for (int k = 0; k < dim; ++k) l += n[k] * n[k]; l = std::sqrt(l); if (l < 1e-9L) return -1e30L; LD a0 = 1e30L, a1 = -1e30L, b0 = 1e30L, b1 = -1e30L;
  for (auto &p : A) { LD s = 0; for (int k = 0; k < dim; ++k) s += n[k] * p.p[k]; a0 = std::min(a0, s); a1 = std::max(a1, s); } for (auto &p : B) { LD s = 0; for (int k = 0; k < dim; ++k) s += n[k] * p.p[k]; b0 = std::min(b0, s); b1 = std::max(b1, s); }
  return std::max(a0 - b1, b0 - a1) / l; }
template <class V> static LD signed_sep2(const std::vector<V> &A, const std::vector<V> &B) { LD best = -1e30L; for (auto *s : {&A, &B}) for (size_t i = 0; i < s->size(); ++i) for (size_t j = i + 1; j < s->size(); ++j) { LD n[2] = {(LD)(*s)[j].p[1] - (*s)[i].p[1], (LD)(*s)[i].p[0] - (*s)[j].p[0]}; best = std::max(best, sep_axis(A, B, n, 2)); } return best; }
template <class V> static LD signed_sep3(const std::vector<V> &A, const std::vector<V> &B, LD *axis = nullptr) { LD best = -1e30L; LD n[3]; auto up = [&] { LD s = sep_axis(A, B, n, 3); if (s > best) { best = s; if (axis) for (int k = 0; k < 3; ++k) axis[k] = n[k]; } }; auto X = [](const V &a, const V &b, const V &c, const V &e, LD *n) { LD u[3], w[3]; for (int k = 0; k < 3; ++k) { u[k] = (LD)b.p[k] - a.p[k]; w[k] = (LD)e.p[k] - c.p[k]; } n[0] = u[1] * w[2] - u[2] * w[1]; n[1] = u[2] * w[0] - u[0] * w[2]; n[2] = u[0] * w[1] - u[1] * w[0]; LD s = std::sqrt((u[0] * u[0] + u[1] * u[1] + u[2] * u[2]) * (w[0] * w[0] + w[1] * w[1] + w[2] * w[2])); for (int k = 0; k < 3; ++k) n[k] /= s + 1e-300L; };
  for (auto *s : {&A, &B}) for (size_t i = 0; i < s->size(); ++i) for (size_t j = i + 1; j < s->size(); ++j) for (size_t k = j + 1; k < s->size(); ++k) { X((*s)[i], (*s)[j], (*s)[i], (*s)[k], n); up(); }
  for (size_t i = 0; i < A.size(); ++i) for (size_t j = i + 1; j < A.size(); ++j) for (size_t k = 0; k < B.size(); ++k) for (size_t l = k + 1; l < B.size(); ++l) { X(A[i], A[j], B[k], B[l], n); up(); } return best; }

template <class T> static void convex2(vh::Ctx &ctx) {
  auto &r = ctx.rng; double size = r.pick({1., 1., 1., 20., 0.02}), dist = r.uni(0, 2.2) * size, an = r.uni(0, 6.28);
  auto A = points2<T>(r, r.irange(3, 12), r.pick({BOX, BALL, SPHERE, CLUSTER, FLAT}), size, 0, 0); auto B = points2<T>(r, r.irange(3, 12), r.pick({BOX, BALL, SPHERE, FLAT}), size * r.pick({1., 1., 0.3}), dist * std::cos(an), dist * std::sin(an)); ctx.sig(vh::Hash().vd(flat(A, 2)).vd(flat(B, 2)).h);
  LD s = signed_sep2(A, B); bool flt = std::is_same_v<T, float>; LD margin = (flt ? 1e-3L : 1e-6L) * size; if (std::fabs(s) < margin) return; bool over = s < 0;
  CK(d::IsIntersect_Points2_Points2_Sat(A, B) == over, "separating axis test", "separation %Lg", s); bool g = d::IsIntersect_Points2_Points2_Gjk(A, B); CK(g == over, "GJK test", "separation %Lg (size %g) %d", s, size, (int)g); CK(d::IsIntersect_Points2_Points2_Gjk(B, A) == over, "GJK test is symmetric", "separation %Lg", s);
  P2<T> n(0, 0); T tol = (T)((flt ? 1e-4 : 1e-7) * size); bool e = d::Penetration_Points2_Points2_Epa(n, A, B, tol); if (!CK(e == over, "penetration is reported exactly for overlap", "separation %Lg", s)) return;
  if (over) { ctx.count("pen2"); CK(std::fabs((LD)n.norm() + s) <= 3 * tol + 1e-9L * size, "penetration depth", "%g expected %Lg", (double)n.norm(), -s); auto C = B; for (auto &p : C) p += n; LD s1 = signed_sep2(A, C); CK(std::fabs(s1) <= 4 * tol + 1e-9L * size, "the penetration vector just separates", "separation %Lg before %Lg after", s, s1); } else ctx.count("apart2"); }
VH_FAMILY_CPU(convex2_double, 6000, 100000, 20) { convex2<double>(ctx); }
VH_FAMILY_CPU(convex2_float, 3000, 40000, 20) { convex2<float>(ctx); }

VH_FAMILY_CPU(convex3, 1200, 20000, 20) {
  auto &r = ctx.rng; double size = r.pick({1., 1., 1., 20., 0.05}), dist = r.uni(0, 2.2) * size, c0[3] = {0, 0, 0}, c1[3], l = 0; for (double &x : c1) { x = r.uni(-1, 1); l += x * x; } for (double &x : c1) x *= dist / std::sqrt(l + 1e-9);
  auto A = points3<double>(r, r.irange(4, 8), r.pick({BOX, BALL, SPHERE, FLAT}), size, c0), B = points3<double>(r, r.irange(4, 8), r.pick({BOX, BALL, SPHERE}), size * r.pick({1., 1., 0.3}), c1); ctx.sig(vh::Hash().vd(flat(A, 3)).vd(flat(B, 3)).h);
  if (r.chance(0.6)) { LD ax[3] = {1, 0, 0}, s0 = signed_sep3(A, B, ax), l = std::sqrt(ax[0] * ax[0] + ax[1] * ax[1] + ax[2] * ax[2]), sg = 0, mv = size * r.pick({0.002, 0.01, 0.05}) * (r.chance(0.7) ? 1 : -1) - s0; for (auto &p : B) for (int k = 0; k < 3; ++k) sg += ax[k] * p.p[k] / B.size(); for (auto &p : A) for (int k = 0; k < 3; ++k) sg -= ax[k] * p.p[k] / A.size(); for (auto &p : B) for (int k = 0; k < 3; ++k) p.p[k] += (double)((sg > 0 ? 1 : -1) * mv * ax[k] / l); ctx.count("nearly_touching"); }
  auto fa = hull3_checked(ctx, A, size, 1e-11L, false), fb = hull3_checked(ctx, B, size, 1e-11L, false); if (ctx.failed) return;
  LD s = signed_sep3(A, B), margin = 1e-4L * size; if (std::fabs(s) < margin) return; bool over = s < 0;
  CK(d::IsIntersect_Points3_Points3_Sat(A, fa, B, fb) == over, "separating axis test", "separation %Lg (size %g)", s, size); bool g = d::IsIntersect_Points3_Points3_Gjk(A, B); CK(g == over, "GJK test", "separation %Lg (size %g) reported %d", s, size, (int)g); CK(d::IsIntersect_Points3_Points3_Gjk(B, A) == over, "GJK test is symmetric", "separation %Lg (size %g)", s, size);
  P3<double> n(0, 0, 0); double tol = 1e-6 * size; bool e = d::Penetration_Points3_Points3_Epa(n, A, B, tol); if (!CK(e == over, "penetration is reported exactly for overlap", "separation %Lg (size %g)", s, size)) return;
  if (over) { ctx.count("pen3"); CK(std::fabs((LD)n.norm() + s) <= 3 * tol, "penetration depth", "%g expected %Lg", n.norm(), -s); auto C = B; for (auto &p : C) p += n; LD s1 = signed_sep3(A, C); CK(std::fabs(s1) <= 4 * tol, "the penetration vector just separates", "separation %Lg before %Lg after", s, s1); } else ctx.count("apart3"); }
// larger sets: only consistency of the reported answers (the separating axis test of the hulls is the oracle)
VH_FAMILY_CPU(convex3_large, 120, 1500, 20) {
  auto &r = ctx.rng; double c0[3] = {0, 0, 0}, c1[3], l = 0, dist = r.uni(0.2, 2.2); for (double &x : c1) { x = r.uni(-1, 1); l += x * x; } for (double &x : c1) x *= dist / std::sqrt(l + 1e-9);
  auto A = points3<double>(r, r.irange(20, 45), r.pick({BOX, BALL, SPHERE}), 1, c0), B = points3<double>(r, r.irange(20, 45), r.pick({BOX, BALL, SPHERE}), 1, c1); ctx.sig(vh::Hash().vd(flat(A, 3)).vd(flat(B, 3)).h);
  auto fa = hull3_checked(ctx, A, 1, 1e-11L, true), fb = hull3_checked(ctx, B, 1, 1e-11L, true); if (ctx.failed) return;
  LD s = -1e30L; auto ax = [&](const LD *n) { s = std::max(s, sep_axis(A, B, n, 3)); }; std::set<std::pair<unsigned, unsigned>> ea, eb;
  auto faces = [&](const std::vector<P3<double>> &P, const std::vector<unsigned> &f, auto &es) { for (size_t i = 0; i < f.size(); i += 3) { auto n = (P[f[i + 1]] - P[f[i]]).cross(P[f[i + 2]] - P[f[i]]); LD q[3] = {n.p[0], n.p[1], n.p[2]}; ax(q); for (int e = 0; e < 3; ++e) es.insert(std::minmax(f[i + e], f[i + (e + 1) % 3])); } };
  faces(A, fa, ea); faces(B, fb, eb); for (auto &x : ea) for (auto &y : eb) { auto n = (A[x.second] - A[x.first]).cross(B[y.second] - B[y.first]); if (n.norm() < 1e-6) continue; LD q[3] = {n.p[0], n.p[1], n.p[2]}; ax(q); }
  if (std::fabs(s) < 1e-3L) return; bool over = s < 0; CK(d::IsIntersect_Points3_Points3_Sat(A, fa, B, fb) == over, "separating axis test of large sets", "separation %Lg", s); CK(d::IsIntersect_Points3_Points3_Gjk(A, B) == over, "GJK test of large sets", "separation %Lg", s);
  P3<double> n(0, 0, 0); bool e = d::Penetration_Points3_Points3_Epa(n, A, B, 1e-6); if (CK(e == over, "penetration of large sets is reported exactly for overlap", "separation %Lg", s) && over) { CK(std::fabs((LD)n.norm() + s) < 1e-5L, "penetration depth of large sets", "%g expected %Lg", n.norm(), -s); ctx.count("pen3_large"); } }
