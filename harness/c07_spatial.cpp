// C07: k-d trees and grids return exactly what a full scan returns.
#include "../lib/vh.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <limits>
#include <set>
#include <unordered_map>
#include "delfem2/vec3.h"
#include "delfem2/srch_kdtree.h"
#include "delfem2/srch_kdtree_tri.h"
#include "delfem2/srchgrid.h"
#include "delfem2/grid3hash.h"
namespace d = delfem2;
typedef std::vector<double> VD; typedef std::vector<unsigned> VU;

template<class V> static void points(vh::Ctx &ctx, std::vector<V> &P, int n) {
  auto &r = ctx.rng; typedef typename V::Scalar S; int kind = r.irange(0, 7); double sc = r.pick(std::vector<double>{1, 1, 30, 0.02}); P.clear();
  for (int i = 0; i < n; ++i) {
    double a = r.uni(-1, 1), b = r.uni(-1, 1), c = r.uni(-1, 1), x = a, y = b, z = c;
    if (kind == 1) z = 0.25; if (kind == 2) { y = a; z = -a; } if (kind == 3) { x = r.irange(-1, 1); y = r.irange(-1, 1); z = r.irange(-1, 1); }
    if (kind == 4) { x = y = z = 0.5; } if (kind == 5) { x = 0.1; y = 0.2; } if (kind == 6) { double f = r.chance(0.9) ? 1e-4 : 1; x = 0.7 + f * a; y = 0.7 + f * b; z = 0.7 + f * c; }
    if (kind == 7) { double L = std::sqrt(a * a + b * b + c * c) + 1e-9; x = a / L; y = b / L; z = c / L; }
    P.push_back(V(S(sc * x), S(sc * y), S(sc * z)));
  }
  ctx.count(vh::fmt("points.kind%d", kind));
}
template<class V> static double dist(const V &a, const V &b) { double s = 0; for (int k = 0; k < 3; ++k) s += (double(a.p[k]) - b.p[k]) * (double(a.p[k]) - b.p[k]); return std::sqrt(s); }

// ---- k-d tree of points
template<class V> static void walk(const d::KDTNodePoint<V> *n, int depth, std::vector<V> &out, bool &ok, std::array<double, 6> box) {
  for (int k = 0; k < 3; ++k) if (n->separator.p[k] < box[k] || n->separator.p[k] > box[3 + k]) ok = false;
  out.push_back(n->separator); int a = depth % 3;
  if (n->rightChild) { if (n->rightChild->parent != n) ok = false; auto b = box; b[a] = std::max(b[a], double(n->separator.p[a])); walk(n->rightChild, depth + 1, out, ok, b); }
  if (n->leftChild) { if (n->leftChild->parent != n) ok = false; auto b = box; b[3 + a] = std::min(b[3 + a], double(n->separator.p[a])); walk(n->leftChild, depth + 1, out, ok, b); }
}
template<class V> static void freetree(d::KDTNodePoint<V> *n) { if (!n) return; freetree(n->rightChild); freetree(n->leftChild); delete n; }
template<class V> static void kdpoint(vh::Ctx &ctx, double tol, const char *tag, bool large = false) {
  auto &r = ctx.rng; int n = large ? (r.chance(0.5) ? r.irange(9000, 16000) : r.irange(500, 9000)) : r.chance(0.3) ? r.irange(1, 6) : r.irange(1, 200); std::vector<V> P; points(ctx, P, n); typedef typename V::Scalar S;
  auto *root = d::ConstructKDT<V>(P); std::vector<V> out; bool ok = true; walk(root, 0, out, ok, {-1e30, -1e30, -1e30, 1e30, 1e30, 1e30});
  CK(ok, "k-d tree: split invariant or parent link broken", "%s n=%d", tag, n);
  auto key = [](const V &v) { return std::array<S, 3>{v.p[0], v.p[1], v.p[2]}; }; std::vector<std::array<S, 3>> A, B; for (auto &v: P) A.push_back(key(v)); for (auto &v: out) B.push_back(key(v)); std::sort(A.begin(), A.end()); std::sort(B.begin(), B.end());
  CK(A == B, "k-d tree does not hold every point once", "%s n=%d held=%zu", tag, n, out.size());
  double sc = 0; for (auto &v: P) for (int k = 0; k < 3; ++k) sc = std::max(sc, std::fabs(double(v.p[k])));
  for (int q = 0; q < (large ? 40 : 12); ++q) {
    V Q; int how = r.irange(0, 3); if (large && how == 3) how = 2; if (large) ctx.count("kd.large tree");
    if (how == 0) Q = P[r.irange(0, n - 1)]; else if (how == 1) { V a = P[r.irange(0, n - 1)], b = P[r.irange(0, n - 1)]; Q = V(a.p[0], b.p[1], b.p[2]); } else { double f = how == 2 ? 1.2 : 50; Q = V(S(f * sc * r.uni(-1, 1)), S(f * sc * r.uni(-1, 1)), S(f * sc * r.uni(-1, 1))); }
    double best = 1e30; for (auto &v: P) best = std::min(best, dist(v, Q));
    V g = d::SearchNearstPoint<V>(root, Q); double dg = dist(g, Q), t = tol * (1 + sc + best);
    CK(std::binary_search(A.begin(), A.end(), key(g)), "k-d tree returned a point that was not inserted", "%s", tag);
    CK(dg <= best + t, "k-d tree nearest point differs from full scan", "%s n=%d got %g expected %g", tag, n, dg, best);
    double cd = std::numeric_limits<double>::max(); V g2 = d::SearchNearstPoint<V>(root, Q, 0, cd); CK(std::fabs(cd - best) <= t && dist(g2, Q) <= best + t, "k-d tree reported distance", "%s %g expected %g", tag, cd, best);
    ctx.count(how == 0 ? "kd.on point" : how == 3 ? "kd.far" : "kd.near");
  }
  freetree(root); VD s; for (auto &v: P) for (int k = 0; k < 3; ++k) s.push_back(v.p[k]); ctx.sig(vh::Hash().vd(s));
}
VH_FAMILY(kdtree_points, 4000, 60000) { if (ctx.rng.chance(0.7)) kdpoint<d::CVec3d>(ctx, 1e-12, "double"); else kdpoint<d::CVec3f>(ctx, 1e-5, "float"); }
VH_FAMILY(kdtree_points_large, 16, 320) { if (ctx.rng.chance(0.7)) kdpoint<d::CVec3d>(ctx, 1e-12, "double", true); else kdpoint<d::CVec3f>(ctx, 1e-5, "float", true); }

// ---- k-d tree of triangles
static double pt_tri(const d::CVec3d &p, const d::CVec3d &a, const d::CVec3d &b, const d::CVec3d &c) {
  auto ab = b - a, ac = c - a, ap = p - a; double d1 = ab.dot(ap), d2 = ac.dot(ap); if (d1 <= 0 && d2 <= 0) return ap.norm();
  auto bp = p - b; double d3 = ab.dot(bp), d4 = ac.dot(bp); if (d3 >= 0 && d4 <= d3) return bp.norm();
  double vc = d1 * d4 - d3 * d2; if (vc <= 0 && d1 >= 0 && d3 <= 0) return (ap - (d1 / (d1 - d3)) * ab).norm();
  auto cp = p - c; double d5 = ab.dot(cp), d6 = ac.dot(cp); if (d6 >= 0 && d5 <= d6) return cp.norm();
  double vb = d5 * d2 - d1 * d6; if (vb <= 0 && d2 >= 0 && d6 <= 0) return (ap - (d2 / (d2 - d6)) * ac).norm();
  double va = d3 * d6 - d5 * d4; if (va <= 0 && (d4 - d3) >= 0 && (d5 - d6) >= 0) { double w = (d4 - d3) / ((d4 - d3) + (d5 - d6)); return (p - b - w * (c - b)).norm(); }
  double q = 1 / (va + vb + vc); return (ap - (vb * q) * ab - (vc * q) * ac).norm();
}
static void kdtri(vh::Ctx &ctx, bool large) {
  auto &r = ctx.rng; std::vector<d::CVec3d> P; VU T; int kind = large ? r.irange(0, 1) : r.irange(0, 4), nt = large ? r.irange(1000, 8000) : r.chance(0.3) ? r.irange(1, 4) : r.irange(1, 120);
  if (kind <= 2) { // soup: equal, mixed and very different sizes
    for (int i = 0; i < nt; ++i) { double s = large ? 0.03 * (kind ? r.u01() : 1) : kind == 0 ? 0.2 : kind == 1 ? std::pow(10., r.uni(-2, 0.5)) : (i == 0 ? 3. : 0.01); d::CVec3d c(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)); for (int k = 0; k < 3; ++k) { P.push_back(c + d::CVec3d(s * r.uni(-1, 1), s * r.uni(-1, 1), s * r.uni(-1, 1))); T.push_back(P.size() - 1); } }
  } else if (kind == 3) { // grid surface, flat or bumpy, axis aligned
    int nx = r.irange(1, 8), ny = r.irange(1, 8), ax = r.irange(0, 2); double amp = r.chance(0.5) ? 0 : 0.1;
    for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) { double p[3]; p[ax] = amp * r.uni(-1, 1); p[(ax + 1) % 3] = 2. * i / nx - 1; p[(ax + 2) % 3] = 2. * j / ny - 1; P.push_back(d::CVec3d(p[0], p[1], p[2])); }
    for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) { unsigned a = j * (nx + 1) + i; for (unsigned v: {a, a + 1, a + nx + 2, a, a + nx + 2, a + nx + 1}) T.push_back(v); }
  } else { // sphere
    int nl = r.irange(3, 10), no = r.irange(4, 12); for (int i = 0; i <= nl; ++i) for (int j = 0; j < no; ++j) { double t = M_PI * (i + 0.3) / (nl + 0.6), f = 2 * M_PI * j / no; P.push_back(d::CVec3d(sin(t) * cos(f), sin(t) * sin(f), cos(t))); }
    for (int i = 0; i < nl; ++i) for (int j = 0; j < no; ++j) { unsigned a = i * no + j, b = i * no + (j + 1) % no, c = a + no, e = b + no; for (unsigned v: {a, c, e, a, e, b}) T.push_back(v); }
  }
  double sc = r.pick(std::vector<double>{1, 1, 100, 0.01}); for (auto &p: P) p = sc * p; nt = T.size() / 3; ctx.count(vh::fmt("tri.kind%d", kind));
  d::KDTTriangle<d::CVec3d> kd(P, T);
  for (int q = 0; q < (large ? 60 : 12); ++q) {
    double f = r.pick(std::vector<double>{1, 1, 3, 20}); d::CVec3d Q(f * sc * r.uni(-1, 1), f * sc * r.uni(-1, 1), f * sc * r.uni(-1, 1)); if (r.chance(0.2)) Q = P[r.irange(0, P.size() - 1)]; else if (r.chance(0.3)) { int t = r.irange(0, nt - 1); Q = (1. / 3) * (P[T[t * 3]] + P[T[t * 3 + 1]] + P[T[t * 3 + 2]]) + 0.05 * sc * d::CVec3d(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)); }
    double best = 1e30; for (int t = 0; t < nt; ++t) best = std::min(best, pt_tri(Q, P[T[t * 3]], P[T[t * 3 + 1]], P[T[t * 3 + 2]]));
    auto C = kd.SearchNearest(Q); double g = 1e30; bool valid = !C.empty(); for (unsigned t: C) { if (t >= (unsigned) nt) { valid = false; break; } g = std::min(g, pt_tri(Q, P[T[t * 3]], P[T[t * 3 + 1]], P[T[t * 3 + 2]])); }
    if (!CK(valid, "triangle k-d tree returned no or invalid candidates", "%zu", C.size())) return;
    CK(g <= best + 1e-9 * (sc + best), "triangle k-d tree candidates miss the nearest triangle", "kind %d nt %d got %g expected %g (scale %g)", kind, nt, g, best, sc);
    std::set<unsigned> S(C.begin(), C.end()); CK(S.size() == C.size(), "triangle k-d tree lists a candidate twice", "%zu of %zu", S.size(), C.size());
    if ((int) C.size() < nt) ctx.count("tri.pruned"); ctx.count("tri.query");
  }
  VD s; for (auto &p: P) for (int k = 0; k < 3; ++k) s.push_back(p.p[k]); ctx.sig(vh::Hash().vd(s));
}

VH_FAMILY(kdtree_triangles, 3000, 45000) { kdtri(ctx, false); }
VH_FAMILY(kdtree_triangles_large, 12, 160) { kdtri(ctx, true); ctx.count("tri.large tree"); }

// ---- uniform grid
VH_FAMILY(search_grid, 4000, 60000) {
  auto &r = ctx.rng; int n = r.chance(0.1) ? r.irange(0, 2) : r.irange(1, 150); std::vector<d::CVec3d> P; points(ctx, P, n);
  double mn[3], mx[3]; int box = r.irange(0, 3);
  for (int k = 0; k < 3; ++k) { mn[k] = 1e30; mx[k] = -1e30; for (auto &p: P) { mn[k] = std::min(mn[k], p.p[k]); mx[k] = std::max(mx[k], p.p[k]); } if (n == 0) { mn[k] = 0; mx[k] = 1; } }
  double ext = std::max({mx[0] - mn[0], mx[1] - mn[1], mx[2] - mn[2], 1e-3}); if (ext < 1e-2) ext = 1;
  for (int k = 0; k < 3; ++k) { if (box == 1) { mn[k] -= 0.1 * ext; mx[k] += 0.1 * ext; } if (box == 2) { double c = (mn[k] + mx[k]) / 2, w = (mx[k] - mn[k]) / 2; mn[k] = c - 0.5 * w; mx[k] = c + 0.5 * w; } } // box==2: objects outside the box
  double h = ext * r.pick(std::vector<double>{0.1, 0.25, 0.5, 1.0, 3.0}) * r.uni(0.9, 1.1);
  d::SearchGrid g; if (r.chance(0.3)) { double a[3] = {0, 0, 0}, b[3] = {1, 1, 1}; g.Initialize(a, b, 0.3, 7); for (int i = 0; i < 7; ++i) { g.aGrid2Obj[i].igrid = 0; g.aGrid2Obj[i].iobj = i; } g.PostProcess(true); }
  g.Initialize(mn, mx, h, n); for (int k = 0; k < 3; ++k) if (mx[k] - mn[k] <= 0) ctx.count("grid.flat");
  for (int step = 0; step < 3; ++step) {
    if (step) for (auto &p: P) if (r.chance(0.7)) { double amp = r.chance(0.2) ? 2 * ext : 0.1 * ext; p += d::CVec3d(amp * r.uni(-1, 1), amp * r.uni(-1, 1), amp * r.uni(-1, 1)); }
    if (step == 0) for (int i = 0; i < n; ++i) g.aGrid2Obj[i].iobj = i;
    for (auto &go: g.aGrid2Obj) go.igrid = g.GetGridIndex(P[go.iobj].p);
    unsigned ng = g.nx * g.ny * g.nz; for (auto &go: g.aGrid2Obj) if (!CK(go.igrid < ng, "grid index outside the grid", "%u of %u", go.igrid, ng)) return;
    g.PostProcess(step == 0 || r.chance(0.3));
    if (!CK(g.aGrid2Obj_ind.size() == ng + 1 && g.aGrid2Obj_ind[0] == 0 && g.aGrid2Obj_ind[ng] == (unsigned) n, "grid offsets do not cover all objects", "n=%d end=%u", n, g.aGrid2Obj_ind.back())) return;
    std::set<unsigned> all; for (unsigned c = 0; c < ng; ++c) { CK(g.aGrid2Obj_ind[c] <= g.aGrid2Obj_ind[c + 1], "grid offsets decrease", "cell %u", c); for (unsigned i = g.aGrid2Obj_ind[c]; i < g.aGrid2Obj_ind[c + 1]; ++i) { CK(g.aGrid2Obj[i].igrid == c && g.GetGridIndex(P[g.aGrid2Obj[i].iobj].p) == c, "object in the wrong cell", "cell %u", c); all.insert(g.aGrid2Obj[i].iobj); } }
    CK((int) all.size() == n, "grid lost or duplicated an object", "%zu of %d (step %d)", all.size(), n, step);
    for (int q = 0; q < 8; ++q) {
      d::CVec3d Q; if (n && r.chance(0.4)) Q = P[r.irange(0, n - 1)]; else for (int k = 0; k < 3; ++k) Q.p[k] = r.uni(mn[k] - 2 * h - 0.3 * ext, mx[k] + 2 * h + 0.3 * ext);
      VU o(5, 99u); g.GetOneRingNeighbor(o, Q.p); std::set<unsigned> S(o.begin(), o.end()); CK(S.size() == o.size(), "neighbourhood lists an object twice", "");
      auto cell = [&](const d::CVec3d &p, int *c) { int nn[3] = {(int) g.nx, (int) g.ny, (int) g.nz}; for (int k = 0; k < 3; ++k) c[k] = std::min(std::max((int) std::floor((p.p[k] - mn[k]) / h), 0), nn[k] - 1); }; int a[3], b[3]; cell(Q, a);
      for (int i = 0; i < n; ++i) { cell(P[i], b); bool adj = std::abs(a[0] - b[0]) <= 1 && std::abs(a[1] - b[1]) <= 1 && std::abs(a[2] - b[2]) <= 1;
        CK(adj == (S.count(i) == 1), "neighbourhood query differs from full scan", "object %d expected %d step %d", i, adj, step);
        if (dist(P[i], Q) < h * (1 - 1e-9)) { CK(S.count(i) == 1, "neighbourhood query misses an object within the cell size", "object %d at %g h %g", i, dist(P[i], Q), h); ctx.count("grid.within h"); } }
      ctx.count("grid.query");
    }
  }
  VD s; for (auto &p: P) for (int k = 0; k < 3; ++k) s.push_back(p.p[k]); ctx.sig(vh::Hash().vd(s).d(h));
}
// ---- hashed grid coordinates and the interpolation weights over the hashed grid
VH_FAMILY(hash_grid, 4000, 60000) {
  auto &r = ctx.rng; double h = r.uni(0.05, 0.5), hi = 1 / h; int n = r.irange(1, 60); std::unordered_map<d::GridCoordinate3, VU> M; std::vector<d::CVec3d> P; points(ctx, P, n); double sc = r.uni(0.3, 3); std::vector<std::array<int, 3>> C;
  for (int i = 0; i < n; ++i) { int c[3]; for (int k = 0; k < 3; ++k) c[k] = (int) std::floor(sc * P[i].p[k] * hi); C.push_back({c[0], c[1], c[2]}); M[d::GridCoordinate3(c[0], c[1], c[2])].push_back(i); }
  std::set<std::array<int, 3>> D(C.begin(), C.end()); CK(M.size() == D.size(), "hashed grid merges or splits cells", "%zu expected %zu", M.size(), D.size());
  for (int i = 0; i < n; ++i) { auto it = M.find(d::GridCoordinate3(C[i][0], C[i][1], C[i][2])); bool ok = it != M.end(); size_t e = 0; for (auto &c: C) e += c == C[i]; CK(ok && it->second.size() == e && std::count(it->second.begin(), it->second.end(), (unsigned) i) == 1, "hashed grid cell content differs from full scan", "object %d", i); }
  std::array<int, 3> x{r.irange(-3, 3), r.irange(-3, 3), r.irange(-3, 3)}; CK(!(d::GridCoordinate3(x[0], x[1], x[2]) == d::GridCoordinate3(x[0] + 1, x[1], x[2])) && !(d::GridCoordinate3(x[0], x[1], x[2]) == d::GridCoordinate3(x[0], x[1] - 1, x[2])) && !(d::GridCoordinate3(x[0], x[1], x[2]) == d::GridCoordinate3(x[0], x[1], x[2] + 1)), "different cells compare equal", "");
  // cubic weights: partition of unity, linear reproduction, gradient = derivative of the weight
  double p[3] = {r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)}; if (r.chance(0.2)) p[r.irange(0, 2)] = h * r.irange(-3, 3); double W = 0, X[3] = {0, 0, 0}, G[3] = {0, 0, 0}, GX = 0; int c[3]; for (int k = 0; k < 3; ++k) c[k] = (int) std::floor(p[k] * hi);
  for (int i = -2; i <= 3; ++i) for (int j = -2; j <= 3; ++j) for (int k = -2; k <= 3; ++k) { double o[3] = {p[0] - h * (c[0] + i), p[1] - h * (c[1] + j), p[2] - h * (c[2] + k)}; double w = d::WGrid3Cubic(hi, o[0], o[1], o[2]); CK(w >= -1e-12, "negative grid weight", "%g", w); W += w; X[0] += w * h * (c[0] + i); X[1] += w * h * (c[1] + j); X[2] += w * h * (c[2] + k);
    double g[3]; for (int a = 0; a < 3; ++a) { g[a] = d::dWGrid3Cubic(hi, o[a], o[(a + 1) % 3], o[(a + 2) % 3]); G[a] += g[a]; } GX += g[0] * h * (c[0] + i);
    int a = r.irange(0, 2); double e = 1e-5 * h, o1[3] = {o[0], o[1], o[2]}, o2[3] = {o[0], o[1], o[2]}; o1[a] += e; o2[a] -= e; double fd = (d::WGrid3Cubic(hi, o1[0], o1[1], o1[2]) - d::WGrid3Cubic(hi, o2[0], o2[1], o2[2])) / (2 * e); CK(std::fabs(fd - g[a]) < 1e-3 * hi * 0.1, "grid weight gradient is not the derivative", "%g expected %g", g[a], fd); }
  CKN(W, 1., 1e-10, "grid weights do not sum to one", ""); for (int a = 0; a < 3; ++a) { CKN(X[a], p[a], 1e-9, "grid weights do not reproduce the position", ""); CK(std::fabs(G[a]) < 1e-9 * hi, "grid weight gradients do not cancel", "%g", G[a]); } CKN(GX, 1., 1e-8, "gradient of the interpolated position", ""); ctx.count("weights.stencils");
  ctx.sig(vh::Hash().d(p[0]).d(p[1]).d(p[2]).d(h).u(n));
}
