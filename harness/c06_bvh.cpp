// C06: bounding-volume hierarchies never lose a query result.
// Oracle: tree-shape monitor, enclosure monitor, and a full scan over all the elements for every query.
#include "../lib/vh.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
#include "delfem2/srch_bvh.h"
#include "delfem2/srch_bv3_aabb.h"
#include "delfem2/srch_bv3_sphere.h"
#include "delfem2/srch_bv2_aabb.h"
#include "delfem2/srch_bruteforce.h"
#include "delfem2/srch_trimesh3_class.h"
#include "delfem2/srch_selfintersection_bvh.h"
#include "delfem2/msh_topology_uniform.h"
namespace d = delfem2;
typedef std::vector<double> VD; typedef std::vector<unsigned> VU;
typedef d::CVec3d V3;

// ---------------- workloads
static void gen_points(vh::Ctx &ctx, VD &xyz, int n) {
  auto &r = ctx.rng; xyz.resize(n * 3);
  int kind = r.irange(0, 7);
  double sc = r.pick(std::vector<double>{1, 1, 10, 0.01});
  for (int i = 0; i < n; ++i) {
    double a = r.uni(-1, 1), b = r.uni(-1, 1), c = r.uni(-1, 1);
    double *p = &xyz[i * 3];
    switch (kind) {
      case 0: p[0] = a; p[1] = b; p[2] = c; break;
      case 1: p[0] = a; p[1] = b; p[2] = 0; break;             // coplanar
      case 2: p[0] = a; p[1] = a; p[2] = a; break;             // collinear
      case 3: p[0] = 0.3; p[1] = 0.3; p[2] = -0.2; break;      // coincident
      case 4: p[0] = r.irange(-2, 2); p[1] = r.irange(-2, 2); p[2] = r.irange(-2, 2); break; // duplicates
      case 5: p[0] = std::pow(10., r.uni(-6, 0)); p[1] = std::pow(10., r.uni(-6, 0)); p[2] = std::pow(10., r.uni(-6, 0)); break;
      case 6: if (r.chance(0.8)) { p[0] = 0.9 + 1e-7 * a; p[1] = 0.9 + 1e-7 * b; p[2] = 0.9 + 1e-7 * c; } else { p[0] = a; p[1] = b; p[2] = c; } break; // cluster (code collisions)
      default: p[0] = a; p[1] = 0.5; p[2] = -0.5; break;       // axis line
    }
    for (int k = 0; k < 3; ++k) p[k] *= sc;
  }
  ctx.count(vh::fmt("points.kind%d", kind));
}
static void soup(vh::Ctx &ctx, VD &xyz, VU &tri, int nt, double size) {
  auto &r = ctx.rng; xyz.clear(); tri.clear();
  for (int i = 0; i < nt; ++i) {
    double c[3] = {r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)};
    for (int k = 0; k < 3; ++k) { for (int m = 0; m < 3; ++m) xyz.push_back(c[m] + size * r.uni(-1, 1)); tri.push_back(i * 3 + k); }
  }
}
static void grid(vh::Ctx &ctx, VD &xyz, VU &tri, int nx, int ny, double amp) {
  auto &r = ctx.rng; xyz.clear(); tri.clear();
  for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) { xyz.push_back(i / double(nx)); xyz.push_back(j / double(ny)); xyz.push_back(amp * r.uni(-1, 1)); }
  for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
    unsigned a = j * (nx + 1) + i, b = a + 1, c = a + nx + 2, e = a + nx + 1;
    for (unsigned v: {a, b, c, a, c, e}) tri.push_back(v);
  }
}
// closed surfaces (outward), jittered radially
static void closed(vh::Ctx &ctx, VD &xyz, VU &tri) {
  auto &r = ctx.rng; xyz.clear(); tri.clear();
  if (r.chance(0.5)) { // sphere-like
    int nl = r.irange(3, 9), no = r.irange(4, 12); double R = r.uni(0.5, 1.5), jit = r.chance(0.5) ? 0.1 : 0.0;
    double ax = r.uni(0.6, 1.4), ay = r.uni(0.6, 1.4);
    auto put = [&](double x, double y, double z) { double q = R * (1 + jit * r.uni(-1, 1)); xyz.push_back(x * q * ax); xyz.push_back(y * q * ay); xyz.push_back(z * q); };
    put(0, 0, 1);
    for (int i = 1; i < nl; ++i) for (int j = 0; j < no; ++j) { double t = M_PI * i / nl, f = 2 * M_PI * j / no; put(sin(t) * cos(f), sin(t) * sin(f), cos(t)); }
    put(0, 0, -1); unsigned last = xyz.size() / 3 - 1;
    auto id = [&](int i, int j) { return 1u + (i - 1) * no + (j % no); };
    for (int j = 0; j < no; ++j) { for (unsigned v: {0u, id(1, j), id(1, j + 1)}) tri.push_back(v); for (unsigned v: {last, id(nl - 1, j + 1), id(nl - 1, j)}) tri.push_back(v); }
    for (int i = 1; i + 1 < nl; ++i) for (int j = 0; j < no; ++j) for (unsigned v: {id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j), id(i + 1, j + 1), id(i, j + 1)}) tri.push_back(v);
    ctx.count("mesh.sphere");
  } else { // torus
    int na = r.irange(4, 10), nb = r.irange(4, 10); double R = 1, q = r.uni(0.2, 0.5), jit = 0.05;
    for (int i = 0; i < na; ++i) for (int j = 0; j < nb; ++j) {
      double u = 2 * M_PI * i / na, v = 2 * M_PI * j / nb, qq = q * (1 + jit * r.uni(-1, 1));
      xyz.push_back((R + qq * cos(v)) * cos(u)); xyz.push_back((R + qq * cos(v)) * sin(u)); xyz.push_back(qq * sin(v)); }
    auto id = [&](int i, int j) { return unsigned((i % na) * nb + (j % nb)); };
    for (int i = 0; i < na; ++i) for (int j = 0; j < nb; ++j) for (unsigned v: {id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j), id(i + 1, j + 1), id(i, j + 1)}) tri.push_back(v);
    ctx.count("mesh.torus");
  }
}
static void any_mesh(vh::Ctx &ctx, VD &xyz, VU &tri) {
  auto &r = ctx.rng;
  switch (r.irange(0, 4)) {
    case 0: soup(ctx, xyz, tri, r.irange(1, 60), r.uni(0.05, 0.6)); ctx.count("mesh.soup"); break;
    case 1: grid(ctx, xyz, tri, r.irange(1, 8), r.irange(1, 8), r.chance(0.4) ? 0.0 : 0.3); ctx.count("mesh.grid"); break;
    case 2: { soup(ctx, xyz, tri, 1, 0.5); int m = r.irange(1, 12); VU t0 = tri; for (int i = 0; i < m; ++i) tri.insert(tri.end(), t0.begin(), t0.end()); ctx.count("mesh.coincident"); break; }
    default: closed(ctx, xyz, tri);
  }
}

// ---------------- monitors
static bool tree_ok(vh::Ctx &ctx, const std::vector<d::CNodeBVH2> &bvh, size_t nobj, const char *what) {
  if (!ctx.check(bvh.size() == 2 * nobj - 1, vh::fmt("%s: node count", what).c_str(), vh::fmt("%zu objects %zu nodes", nobj, bvh.size()))) return false;
  ctx.check(bvh[0].iparent == UINT_MAX, vh::fmt("%s: root parent", what).c_str(), vh::fmt("%u", bvh[0].iparent));
  std::vector<int> seenN(bvh.size(), 0), seenO(nobj, 0); std::vector<unsigned> st{0};
  while (!st.empty()) {
    unsigned i = st.back(); st.pop_back();
    if (!ctx.check(i < bvh.size() && !seenN[i], vh::fmt("%s: tree structure", what).c_str(), vh::fmt("node %u invalid or reached twice", i))) return false;
    seenN[i] = 1;
    if (bvh[i].ichild[1] == UINT_MAX) {
      unsigned o = bvh[i].ichild[0];
      if (!ctx.check(o < nobj && !seenO[o], vh::fmt("%s: element in exactly one leaf", what).c_str(), vh::fmt("element %u", o))) return false;
      seenO[o] = 1; continue;
    }
    for (int k = 0; k < 2; ++k) {
      unsigned c = bvh[i].ichild[k];
      if (!ctx.check(c < bvh.size() && bvh[c].iparent == i, vh::fmt("%s: parent link", what).c_str(), vh::fmt("node %u child %u", i, c))) return false;
      st.push_back(c);
    }
  }
  for (size_t o = 0; o < nobj; ++o) if (!ctx.check(seenO[o] == 1, vh::fmt("%s: element missing", what).c_str(), vh::fmt("element %zu", o))) return false;
  return true;
}
template<class R> static double outside(const d::CBV3_AABB<R> &b, const double *p) {
  if (!b.IsActive()) return 1e30; double m = -1e30;
  for (int k = 0; k < 3; ++k) m = std::max({m, double(b.bbmin[k]) - p[k], p[k] - double(b.bbmax[k])});
  return m;
}
template<class R> static double outside(const d::CBV3_Sphere<R> &b, const double *p) {
  if (b.r < 0) return 1e30;
  return std::sqrt((p[0] - b.c[0]) * (p[0] - b.c[0]) + (p[1] - b.c[1]) * (p[1] - b.c[1]) + (p[2] - b.c[2]) * (p[2] - b.c[2])) - b.r;
}
template<class BV> static bool enclose(vh::Ctx &ctx, const std::vector<d::CNodeBVH2> &bvh, const std::vector<BV> &bb,
    const std::vector<VD> &objpts, double margin, double tol, const char *what) {
  bool ok = true;
  for (unsigned i = 0; i < bvh.size() && ok; ++i) {
    if (bvh[i].ichild[1] != UINT_MAX) continue;
    unsigned o = bvh[i].ichild[0];
    for (unsigned a = i; a != UINT_MAX && ok; a = bvh[a].iparent)
      for (size_t k = 0; k < objpts[o].size() / 3; ++k) {
        double out = outside(bb[a], &objpts[o][k * 3]);
        if (!CK(out <= -margin + tol, what, "object %u leaf %u node %u outside by %g (margin %g)", o, i, a, out, margin)) { ok = false; break; }
      }
  }
  return ok;
}
static std::vector<VD> tripts(const VD &xyz, const VU &tri) {
  std::vector<VD> o(tri.size() / 3);
  for (size_t t = 0; t < o.size(); ++t) for (int k = 0; k < 3; ++k) for (int m = 0; m < 3; ++m) o[t].push_back(xyz[tri[t * 3 + k] * 3 + m]);
  return o;
}
// point-triangle distance, own implementation (Ericson)
static double pt_tri(const V3 &p, const V3 &a, const V3 &b, const V3 &c, V3 &q) {
  V3 ab = b - a, ac = c - a, ap = p - a; double d1 = ab.dot(ap), d2 = ac.dot(ap);
  if (d1 <= 0 && d2 <= 0) { q = a; return (p - q).norm(); }
  V3 bp = p - b; double d3 = ab.dot(bp), d4 = ac.dot(bp); if (d3 >= 0 && d4 <= d3) { q = b; return (p - q).norm(); }
  double vc = d1 * d4 - d3 * d2; if (vc <= 0 && d1 >= 0 && d3 <= 0) { q = a + (d1 / (d1 - d3)) * ab; return (p - q).norm(); }
  V3 cp = p - c; double d5 = ab.dot(cp), d6 = ac.dot(cp); if (d6 >= 0 && d5 <= d6) { q = c; return (p - q).norm(); }
  double vb = d5 * d2 - d1 * d6; if (vb <= 0 && d2 >= 0 && d6 <= 0) { q = a + (d2 / (d2 - d6)) * ac; return (p - q).norm(); }
  double va = d3 * d6 - d5 * d4; if (va <= 0 && (d4 - d3) >= 0 && (d5 - d6) >= 0) { double w = (d4 - d3) / ((d4 - d3) + (d5 - d6)); q = b + w * (c - b); return (p - q).norm(); }
  double den = 1 / (va + vb + vc); q = a + (vb * den) * ab + (vc * den) * ac; return (p - q).norm();
}
static V3 P(const VD &xyz, unsigned i) { return V3(xyz[i * 3], xyz[i * 3 + 1], xyz[i * 3 + 2]); }
static double scan_dist(const V3 &p, const VD &xyz, const VU &tri) {
  double b = 1e30; V3 q; for (size_t t = 0; t < tri.size() / 3; ++t) b = std::min(b, pt_tri(p, P(xyz, tri[t * 3]), P(xyz, tri[t * 3 + 1]), P(xyz, tri[t * 3 + 2]), q)); return b;
}
static double winding(const V3 &p, const VD &xyz, const VU &tri) {
  double s = 0;
  for (size_t t = 0; t < tri.size() / 3; ++t) {
    V3 a = P(xyz, tri[t * 3]) - p, b = P(xyz, tri[t * 3 + 1]) - p, c = P(xyz, tri[t * 3 + 2]) - p;
    double la = a.norm(), lb = b.norm(), lc = c.norm();
    s += 2 * atan2(a.dot(b.cross(c)), la * lb * lc + a.dot(b) * lc + b.dot(c) * la + c.dot(a) * lb);
  }
  return s / (4 * M_PI);
}
template<class BV, class R> static std::vector<d::CNodeBVH2> topo_tri(vh::Ctx &ctx, const VD &xyz, const VU &tri) {
  std::vector<d::CNodeBVH2> bvh; if (ctx.rng.chance(0.4)) bvh.resize(ctx.rng.irange(0, 30));
  VD cen; for (auto &o: tripts(xyz, tri)) for (int m = 0; m < 3; ++m) cen.push_back((o[m] + o[3 + m] + o[6 + m]) / 3);
  if (ctx.rng.chance(0.5)) {
    VU els; d::ElSuEl_MeshElem(els, tri.data(), tri.size() / 3, d::MESHELEM_TRI, xyz.size() / 3);
    d::BVHTopology_TopDown_MeshElem(bvh, 3, els, cen); tree_ok(ctx, bvh, tri.size() / 3, "top-down BVH"); ctx.count("topo.topdown");
  } else {
    VU id, mc; double mn[3] = {1e30, 1e30, 1e30}, mx[3] = {-1e30, -1e30, -1e30};
    for (size_t i = 0; i < cen.size(); ++i) { mn[i % 3] = std::min(mn[i % 3], cen[i] - 1e-3); mx[i % 3] = std::max(mx[i % 3], cen[i] + 1e-3); }
    d::SortedMortenCode_Points3(id, mc, cen, mn, mx); d::BVHTopology_Morton(bvh, id, mc); tree_ok(ctx, bvh, tri.size() / 3, "Morton BVH"); ctx.count("topo.morton");
  }
  return bvh;
}

// ---------------- families
VH_FAMILY(topology, 6000, 90000) {
  auto &r = ctx.rng; int n = r.chance(0.3) ? r.irange(1, 4) : r.irange(1, 120);
  VD xyz; gen_points(ctx, xyz, n);
  std::vector<d::CNodeBVH2> bvh; if (r.chance(0.4)) bvh.resize(r.irange(0, 100));
  { // Morton
    VU id, mc; double mn[3], mx[3];
    for (int k = 0; k < 3; ++k) { mn[k] = 1e30; mx[k] = -1e30; for (int i = 0; i < n; ++i) { mn[k] = std::min(mn[k], xyz[i * 3 + k]); mx[k] = std::max(mx[k], xyz[i * 3 + k]); } if (r.chance(0.5)) { mn[k] -= 1e-3; mx[k] += 1e-3; } }
    if (r.chance(0.5)) d::SortedMortenCode_Points3(id, mc, xyz, mn, mx);
    else { std::vector<float> f(xyz.begin(), xyz.end()); float a[3], b[3]; for (int k = 0; k < 3; ++k) { a[k] = mn[k]; b[k] = mx[k]; } d::SortedMortenCode_Points3(id, mc, f, a, b); ctx.count("morton.float"); }
    VU s = id; std::sort(s.begin(), s.end()); bool perm = (int) s.size() == n; for (int i = 0; i < n && perm; ++i) perm = s[i] == (unsigned) i;
    CK(perm, "sorted Morton objects are not a permutation", "n=%d", n);
    CK(std::is_sorted(mc.begin(), mc.end()), "Morton codes not sorted", "n=%d", n);
    int nd = std::set<unsigned>(mc.begin(), mc.end()).size(); if (nd < n) ctx.count("morton.duplicate codes");
    d::BVHTopology_Morton(bvh, id, mc); tree_ok(ctx, bvh, n, "Morton BVH");
  }
  { // artificial codes: long runs, extremes
    int m = r.irange(1, 80); VU mc(m), id(m); int bits = r.irange(0, 30);
    for (int i = 0; i < m; ++i) { mc[i] = r.chance(0.1) ? r.pick(VU{0, 1, 0x3fffffff, 0x40000000, 0x80000000u, 0xffffffffu}) : unsigned(r.next()) & ((1u << bits) - 1); id[i] = i; }
    std::sort(mc.begin(), mc.end()); r.shuffle(id); d::BVHTopology_Morton(bvh, id, mc); tree_ok(ctx, bvh, m, "Morton BVH from codes");
    // leaves keep the code order along the traversal
    VU pos(m); for (int i = 0; i < m; ++i) pos[id[i]] = i; unsigned expect = 0; bool okord = true; std::vector<unsigned> st{0};
    while (!st.empty() && okord) { unsigned i = st.back(); st.pop_back(); if (bvh[i].ichild[1] == UINT_MAX) { okord = pos[bvh[i].ichild[0]] == expect; ++expect; } else { st.push_back(bvh[i].ichild[1]); st.push_back(bvh[i].ichild[0]); } }
    CK(okord, "Morton BVH leaves are not in code order", "m=%d", m);
    d::Check_MortonCode_RangeSplit(mc);
  }
  { // top-down with arbitrary adjacency
    int nf = r.pick(std::vector<int>{3, 4, 6}); VU els(n * nf, UINT_MAX);
    double dens = r.pick(std::vector<double>{0, 0.3, 1.0});
    for (int i = 1; i < n; ++i) if (r.chance(dens)) { int j = r.irange(0, i - 1); int a = r.irange(0, nf - 1), b = r.irange(0, nf - 1); if (els[i * nf + a] == UINT_MAX && els[j * nf + b] == UINT_MAX) { els[i * nf + a] = j; els[j * nf + b] = i; } }
    d::BVHTopology_TopDown_MeshElem(bvh, nf, els, xyz); tree_ok(ctx, bvh, n, "top-down BVH");
  }
  ctx.count(n == 1 ? "topology.single" : "topology.many"); ctx.sig(vh::Hash().vd(xyz));
  { // leading zeros and codes
    uint32_t x = r.chance(0.1) ? 0 : uint32_t(r.next()) >> r.irange(0, 31); unsigned e = x == 0 ? 32 : __builtin_clz(x);
    CK(d::nbits_leading_zero(x) == e, "nbits_leading_zero", "x=%u got %u", x, d::nbits_leading_zero(x));
    double c[3]; unsigned q[3]; for (int k = 0; k < 3; ++k) { c[k] = r.uni(-0.2, 1.2); double s = std::floor(c[k] * 1024); q[k] = unsigned(std::min(std::max(s, 0.), 1023.)); }
    unsigned z = 0; for (int b = 0; b < 10; ++b) for (int k = 0; k < 3; ++k) z |= ((q[k] >> b) & 1u) << (b * 3 + (2 - k));
    CK(d::MortonCode(c[0], c[1], c[2]) == z, "MortonCode", "%g %g %g", c[0], c[1], c[2]);
  }
}

template<class BV, class R> static void point_bvh(vh::Ctx &ctx, double tol, const char *tag) {
  auto &r = ctx.rng; int n = r.chance(0.2) ? r.irange(1, 3) : r.irange(1, 100);
  VD xyz0; gen_points(ctx, xyz0, n); std::vector<R> xyz(xyz0.begin(), xyz0.end());
  double sc = 0; for (R v: xyz) sc = std::max(sc, std::fabs(double(v))); tol *= (1 + sc);
  VU id, mc; R mn[3], mx[3]; for (int k = 0; k < 3; ++k) { mn[k] = 1e30; mx[k] = -1e30; for (int i = 0; i < n; ++i) { mn[k] = std::min(mn[k], xyz[i * 3 + k]); mx[k] = std::max(mx[k], xyz[i * 3 + k]); } mn[k] -= R(0.001); mx[k] += R(0.001); }
  d::SortedMortenCode_Points3(id, mc, xyz, mn, mx);
  std::vector<d::CNodeBVH2> bvh; d::BVHTopology_Morton(bvh, id, mc);
  if (!tree_ok(ctx, bvh, n, "point BVH")) return;
  std::vector<BV> bb;
  for (int step = 0; step < 3; ++step) {
    if (step) { double amp = r.pick(std::vector<double>{0.01, 1, 100}) * sc + 1e-3; if (amp > 50) amp = 50; for (auto &v: xyz) v = R(r.chance(0.2) ? v : (r.chance(0.5) ? v + amp * r.uni(-1, 1) : amp * r.uni(-1, 1))); tol = std::max(tol, (1 + 60.) * (sizeof(R) == 4 ? 1e-5 : 1e-12)); ctx.count("refit.point"); }
    d::CLeafVolumeMaker_Point<BV, R> lvm(xyz.data(), n);
    d::BVH_BuildBVHGeometry(bb, 0, bvh, lvm);
    std::vector<VD> op(n); for (int i = 0; i < n; ++i) op[i] = VD{xyz[i * 3], xyz[i * 3 + 1], xyz[i * 3 + 2]};
    if (!enclose(ctx, bvh, bb, op, 0, tol, "volume does not enclose its points")) return;
    for (unsigned i = 0; i < bvh.size(); ++i) if (bvh[i].ichild[1] == UINT_MAX) { // a leaf of a point is that point
      double out = outside(bb[i], op[bvh[i].ichild[0]].data());
      CK(std::fabs(out) <= tol, "leaf volume of a point is larger than the point", "step %d leaf %u %g", step, i, out); }
    if constexpr (std::is_same<BV, d::CBV3_Sphere<R>>::value) {
      for (int q = 0; q < 6; ++q) {
        R p[3]; if (r.chance(0.2)) { int k = r.irange(0, n - 1); for (int m = 0; m < 3; ++m) p[m] = xyz[k * 3 + m]; } else for (int m = 0; m < 3; ++m) p[m] = R((sc + 0.1) * r.uni(-2, 2));
        double best = 1e30; for (int i = 0; i < n; ++i) { double s = 0; for (int m = 0; m < 3; ++m) s += (double(p[m]) - xyz[i * 3 + m]) * (double(p[m]) - xyz[i * 3 + m]); best = std::min(best, std::sqrt(s)); }
        unsigned ip = UINT_MAX; R cur = -1; d::BVH_IndPoint_NearestPoint(ip, cur, p, 0u, bvh, bb);
        if (!CK(ip < (unsigned) n, "nearest point: none found", "%s n=%d", tag, n)) return;
        double s = 0; for (int m = 0; m < 3; ++m) s += (double(p[m]) - xyz[ip * 3 + m]) * (double(p[m]) - xyz[ip * 3 + m]);
        CK(std::sqrt(s) <= best + tol && std::fabs(cur - best) <= tol, "nearest point differs from full scan", "%s step %d got %g (dist %g) expected %g", tag, step, std::sqrt(s), double(cur), best);
        ctx.count("query.nearest point");
      }
    }
  }
  ctx.sig(vh::Hash().vd(xyz0).u(sizeof(R)));
}
VH_FAMILY(point_queries, 3000, 45000) {
  switch (ctx.rng.irange(0, 3)) {
    case 0: point_bvh<d::CBV3_Sphere<double>, double>(ctx, 1e-12, "sphere<double>"); break;
    case 1: point_bvh<d::CBV3_Sphere<float>, float>(ctx, 2e-5, "sphere<float>"); break;
    case 2: point_bvh<d::CBV3_AABB<double>, double>(ctx, 1e-12, "aabb<double>"); break;
    default: point_bvh<d::CBV3_AABB<float>, float>(ctx, 2e-6, "aabb<float>");
  }
}

// predicates on element volumes against a scan of the leaf volumes and of the elements themselves
template<class BV> static void elem_queries(vh::Ctx &ctx) {
  auto &r = ctx.rng; const bool sph = std::is_same<BV, d::CBV3_Sphere<double>>::value;
  VD xyz; VU tri; any_mesh(ctx, xyz, tri); unsigned nt = tri.size() / 3;
  auto bvh = topo_tri<BV, double>(ctx, xyz, tri); if (ctx.failed) return;
  std::vector<BV> bb; double margin = r.pick(std::vector<double>{0, 1e-10, 0.05, 0.3});
  VD uvw;
  for (int step = 0; step < 2; ++step) {
    if (step) { double amp = r.pick(std::vector<double>{0.05, 1.0}); for (auto &v: xyz) v += amp * r.uni(-1, 1); ctx.count("refit.mesh"); }
    auto op = tripts(xyz, tri);
    if (r.chance(0.3)) { // swept triangles
      double dt = r.uni(0, 1); uvw.assign(xyz.size(), 0); for (auto &v: uvw) v = r.uni(-1, 1);
      d::CLeafVolumeMaker_DynamicTriangle<BV, double> lvm(dt, xyz, uvw, tri, margin); d::BVH_BuildBVHGeometry(bb, 0, bvh, lvm);
      VD e = xyz; for (size_t i = 0; i < e.size(); ++i) e[i] += dt * uvw[i]; auto o2 = tripts(e, tri); for (unsigned t = 0; t < nt; ++t) op[t].insert(op[t].end(), o2[t].begin(), o2[t].end());
      ctx.count("leaf.swept");
    } else { d::CLeafVolumeMaker_Mesh<BV, double> lvm(margin, xyz.data(), xyz.size() / 3, tri.data(), nt, 3); d::BVH_BuildBVHGeometry(bb, 0, bvh, lvm); ctx.count("leaf.mesh"); }
    if (!enclose(ctx, bvh, bb, op, margin, 1e-9, "volume does not enclose its elements")) return;
    std::vector<unsigned> leaf(nt); for (unsigned i = 0; i < bvh.size(); ++i) if (bvh[i].ichild[1] == UINT_MAX) leaf[bvh[i].ichild[0]] = i;
    auto compare = [&](const VU &got, auto inleaf, auto mustbe, const char *what) { // got vs leaf scan; 'amb' leaves are exempt
      std::set<unsigned> S(got.begin(), got.end());
      CK(S.size() == got.size(), "query returned an element twice", "%s", what);
      for (unsigned t = 0; t < nt; ++t) { int e = inleaf(bb[leaf[t]]); // 1 yes 0 no -1 boundary
        if (e >= 0) CK((e == 1) == (S.count(t) == 1), "query result differs from the scan over all leaves", "%s: element %u of %u expected %d (step %d)", what, t, nt, e, step);
        if (mustbe(t)) CK(S.count(t) == 1, "query lost an element that is hit", "%s: element %u of %u (step %d)", what, t, nt, step); }
      ctx.count(std::string("query.") + what);
    };
    auto never = [](unsigned) { return false; };
    for (int q = 0; q < 5; ++q) {
      double p[3]; if (r.chance(0.5)) { unsigned t = r.irange(0, nt - 1); double a = r.u01(), b = r.u01() * (1 - a); for (int m = 0; m < 3; ++m) p[m] = a * op[t][m] + b * op[t][3 + m] + (1 - a - b) * op[t][6 + m]; } else for (int m = 0; m < 3; ++m) p[m] = r.uni(-1.5, 1.5);
      auto sgn = [](double v) { return std::fabs(v) < 1e-9 ? -1 : (v < 0 ? 1 : 0); };
      V3 pv(p[0], p[1], p[2]);
      { VU g; d::BVH_GetIndElem_Predicate(g, d::CIsBV_IncludePoint<BV>(p), 0u, bvh, bb);
        compare(g, [&](const BV &b) { return sgn(outside(b, p)); }, never, "point"); }
      if constexpr (std::is_same<BV, d::CBV3_Sphere<double>>::value) {
        double dir[3] = {r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)}; if (r.chance(0.2)) { int k = r.irange(0, 2); for (int m = 0; m < 3; ++m) dir[m] = m == k ? (r.chance(0.5) ? 1 : -1) : 0; }
        double len = std::sqrt(dir[0] * dir[0] + dir[1] * dir[1] + dir[2] * dir[2]); if (len < 0.05) continue;
        V3 u(dir[0] / len, dir[1] / len, dir[2] / len);
        auto crosses = [&](unsigned t, bool ray) { // crosses the interior of triangle t?
          V3 a(op[t][0], op[t][1], op[t][2]), b(op[t][3], op[t][4], op[t][5]), c(op[t][6], op[t][7], op[t][8]);
          V3 nn = (b - a).cross(c - a); double den = nn.dot(u); if (std::fabs(den) < 1e-6) return false; double s = nn.dot(a - pv) / den; if (ray && s < 1e-9) return false;
          V3 x = pv + s * u; double A = nn.squaredNorm(); double w0 = nn.dot((b - x).cross(c - x)) / A, w1 = nn.dot((c - x).cross(a - x)) / A; return w0 > 1e-6 && w1 > 1e-6 && 1 - w0 - w1 > 1e-6; };
        { VU g; d::BVH_GetIndElem_Predicate(g, d::CIsBV_IntersectLine<BV, double>(p, dir), 0u, bvh, bb);
          compare(g, [&](const BV &b) { V3 c(b.c[0], b.c[1], b.c[2]); V3 w = c - pv; return sgn((w - w.dot(u) * u).norm() - b.r); }, [&](unsigned t) { return crosses(t, false); }, "line"); }
        { VU g; d::BVH_GetIndElem_Predicate(g, d::CIsBV_IntersectRay<BV>(p, dir), 0u, bvh, bb);
          compare(g, [&](const BV &b) { V3 c(b.c[0], b.c[1], b.c[2]); V3 w = c - pv; double s = std::max(0., w.dot(u)); return sgn((w - s * u).norm() - b.r); }, [&](unsigned t) { return crosses(t, true); }, "ray"); }
        { double lo = r.uni(0, 1), hi = lo + r.uni(0, 0.5); VU g; d::BVH_GetIndElem_Predicate(g, d::CIsBV_InsideRange<BV>(p, lo, hi), 0u, bvh, bb);
          compare(g, [&](const BV &b) { V3 c(b.c[0], b.c[1], b.c[2]); double L = (c - pv).norm(), m0 = std::max(0., L - b.r), m1 = L + b.r; if (std::fabs(m1 - lo) < 1e-9 || std::fabs(m0 - hi) < 1e-9) return -1; return (m1 < lo || m0 > hi) ? 0 : 1; },
            [&](unsigned t) { if (op[t].size() > 9) return false; V3 x; double dd = pt_tri(pv, V3(op[t][0], op[t][1], op[t][2]), V3(op[t][3], op[t][4], op[t][5]), V3(op[t][6], op[t][7], op[t][8]), x); return dd > lo + 1e-9 && dd < hi - 1e-9; }, "range"); }
        { double mn = 1, mx = -1; d::BVH_Range_DistToNearestPoint(mn, mx, p, 0u, bvh, bb); double e0 = 1e30, e1 = 1e30;
          for (unsigned t = 0; t < nt; ++t) { const BV &b = bb[leaf[t]]; double L = (V3(b.c[0], b.c[1], b.c[2]) - pv).norm(); e0 = std::min(e0, std::max(0., L - b.r)); e1 = std::min(e1, L + b.r); }
          CK(std::fabs(mn - e0) < 1e-9 && std::fabs(mx - e1) < 1e-9, "range of the nearest distance differs from the scan", "got [%g %g] expected [%g %g]", mn, mx, e0, e1); ctx.count("query.nearest range"); }
      }
    }
  }
  (void) sph; ctx.sig(vh::Hash().vd(xyz).vu(tri));
}
VH_FAMILY(element_queries, 2500, 40000) { if (ctx.rng.chance(0.65)) elem_queries<d::CBV3_Sphere<double>>(ctx); else elem_queries<d::CBV3_AABB<double>>(ctx); }

typedef d::CBV3_Sphere<double> BS;
static V3 onmesh(const d::PointOnSurfaceMesh<double> &pes, const VD &xyz, const VU &tri) {
  unsigned t = pes.itri; double r2 = 1 - pes.r0 - pes.r1; return pes.r0 * P(xyz, tri[t * 3]) + pes.r1 * P(xyz, tri[t * 3 + 1]) + r2 * P(xyz, tri[t * 3 + 2]);
}
static void vnormal(VD &nrm, const VD &xyz, const VU &tri) {
  nrm.assign(xyz.size(), 0);
  for (size_t t = 0; t < tri.size() / 3; ++t) { V3 a = P(xyz, tri[t * 3]); V3 n = (P(xyz, tri[t * 3 + 1]) - a).cross(P(xyz, tri[t * 3 + 2]) - a); for (int k = 0; k < 3; ++k) for (int m = 0; m < 3; ++m) nrm[tri[t * 3 + k] * 3 + m] += n.p[m]; }
  for (size_t i = 0; i < nrm.size() / 3; ++i) { double L = std::sqrt(nrm[i * 3] * nrm[i * 3] + nrm[i * 3 + 1] * nrm[i * 3 + 1] + nrm[i * 3 + 2] * nrm[i * 3 + 2]); if (L > 0) for (int m = 0; m < 3; ++m) nrm[i * 3 + m] /= L; }
}
VH_FAMILY(mesh_nearest, 2500, 40000) {
  auto &r = ctx.rng; VD xyz; VU tri; any_mesh(ctx, xyz, tri); unsigned nt = tri.size() / 3;
  d::CBVH_MeshTri3D<BS, double> bvh; double margin = r.pick(std::vector<double>{0, 0.01, 0.2, 1.0});
  bvh.Init(xyz.data(), xyz.size() / 3, tri.data(), nt, margin);
  if (!tree_ok(ctx, bvh.aNodeBVH, nt, "CBVH_MeshTri3D")) return;
  for (int step = 0; step < 2; ++step) {
    if (step) { for (auto &v: xyz) v += 0.3 * r.uni(-1, 1); bvh.UpdateGeometry(xyz.data(), xyz.size() / 3, tri.data(), nt, margin); ctx.count("refit.CBVH_MeshTri3D"); }
    if (!enclose(ctx, bvh.aNodeBVH, bvh.aBB_BVH, tripts(xyz, tri), margin, 1e-9, "CBVH_MeshTri3D volume")) return;
    double small = 1e30; for (unsigned t = 0; t < nt; ++t) { V3 a = P(xyz, tri[t * 3]), b = P(xyz, tri[t * 3 + 1]), c = P(xyz, tri[t * 3 + 2]); double A = (b - a).cross(c - a).norm(), L = std::max({(b - a).squaredNorm(), (c - a).squaredNorm(), (c - b).squaredNorm()}); small = std::min(small, A / L); }
    if (small < 1e-2) { ctx.count("skip.sliver"); continue; }
    for (int q = 0; q < 6; ++q) {
      V3 p = r.chance(0.15) ? P(xyz, r.irange(0, xyz.size() / 3 - 1)) : V3(r.uni(-2, 2), r.uni(-2, 2), r.uni(-2, 2));
      double e = scan_dist(p, xyz, tri);
      auto pes = bvh.NearestPoint_Global(p, xyz, tri);
      if (!CK(pes.itri < nt, "global nearest point: none", "")) return;
      CK(pes.r0 > -1e-8 && pes.r1 > -1e-8 && pes.r0 + pes.r1 < 1 + 1e-8, "global nearest point not on its triangle", "%g %g", pes.r0, pes.r1);
      CKN((onmesh(pes, xyz, tri) - p).norm(), e, 1e-8, "global nearest point differs from full scan", "triangle %u of %u step %d", pes.itri, nt, step);
      auto pb = d::Nearest_Point_MeshTri3D(p, xyz, tri); CKN((onmesh(pb, xyz, tri) - p).norm(), e, 1e-8, "brute-force nearest point", "");
      ctx.count("query.nearest on mesh");
      // nearest within the leaf volumes
      double rad = r.pick(std::vector<double>{0, 0.1, 0.5, 10}); d::PointOnSurfaceMesh<double> pi; double g = bvh.Nearest_Point_IncludedInBVH(pi, p, rad, xyz.data(), xyz.size() / 3, tri.data(), nt);
      double et = -1, ebv = rad; bool amb = false; V3 x;
      for (unsigned i = 0; i < bvh.aNodeBVH.size(); ++i) if (bvh.aNodeBVH[i].ichild[1] == UINT_MAX) {
        const BS &b = bvh.aBB_BVH[i]; double m0 = (V3(b.c[0], b.c[1], b.c[2]) - p).norm() - b.r; if (std::fabs(m0) < 1e-9 || std::fabs(m0 - rad) < 1e-9) amb = true; m0 = std::max(0., m0);
        if (m0 > rad) continue; ebv = std::min(ebv, m0);
        if (m0 == 0) { unsigned t = bvh.aNodeBVH[i].ichild[0]; double dd = pt_tri(p, P(xyz, tri[t * 3]), P(xyz, tri[t * 3 + 1]), P(xyz, tri[t * 3 + 2]), x); if (et < 0 || dd < et) et = dd; } }
      if (!amb) { if (et >= 0) { CKN(g, et, 1e-8, "nearest included triangle differs from scan", "rad %g margin %g", rad, margin); CK(pi.itri < nt, "included triangle not reported", ""); if (pi.itri < nt) CKN((onmesh(pi, xyz, tri) - p).norm(), et, 1e-8, "included nearest point", ""); ctx.count("query.included"); }
        else { CK(pi.itri == UINT_MAX, "triangle reported although no leaf includes the point", ""); CKN(g, ebv, 1e-9, "distance to the nearest leaf differs from scan", "rad %g", rad); ctx.count("query.not included"); } }
    }
  }
  ctx.sig(vh::Hash().vd(xyz).vu(tri));
}
VH_FAMILY(signed_distance, 1500, 24000) {
  auto &r = ctx.rng; VD xyz, nrm; VU tri; closed(ctx, xyz, tri); unsigned nt = tri.size() / 3; vnormal(nrm, xyz, tri);
  d::CBVH_MeshTri3D<BS, double> bvh; double margin = r.pick(std::vector<double>{0, 0.03, 0.5}); bvh.Init(xyz.data(), xyz.size() / 3, tri.data(), nt, margin);
  for (int q = 0; q < 8; ++q) {
    V3 p(r.uni(-1.6, 1.6), r.uni(-1.6, 1.6), r.uni(-1.6, 1.6)); double e = scan_dist(p, xyz, tri); if (e < 1e-5) continue;
    bool in = winding(p, xyz, tri) > 0.5; V3 n; double s = bvh.SignedDistanceFunction(n, p, xyz, tri, nrm);
    CKN(std::fabs(s), e, 1e-8, "signed distance magnitude", "");
    CK((s > 0) == in, "signed distance sign (inside positive)", "s=%g inside=%d p=(%g %g %g)", s, in, p.x, p.y, p.z);
    CKN(n.norm(), 1., 1e-9, "signed distance normal", ""); // gradient of -distance towards the surface / away
    if ((s > 0) == in) { V3 q1 = p + (in ? 1. : -1.) * e * n; CK(scan_dist(q1, xyz, tri) < 1e-7, "signed distance normal does not point along the nearest surface point", "off by %g", scan_dist(q1, xyz, tri)); }
    ctx.count(in ? "sdf.inside" : "sdf.outside");
  }
  { // projection of points that penetrate: they end on the offset surface; others do not move
    double cc = r.uni(0, 0.05); VD pt, p0; for (int i = 0; i < 6; ++i) { unsigned t = r.irange(0, nt - 1); double a = r.uni(0.2, 0.4), b = r.uni(0.2, 0.4); V3 q = a * P(xyz, tri[t * 3]) + b * P(xyz, tri[t * 3 + 1]) + (1 - a - b) * P(xyz, tri[t * 3 + 2]); V3 u = (P(xyz, tri[t * 3 + 1]) - P(xyz, tri[t * 3])).cross(P(xyz, tri[t * 3 + 2]) - P(xyz, tri[t * 3])).normalized(); q = q + r.uni(-0.02, 0.08) * u; pt.push_back(q.x); pt.push_back(q.y); pt.push_back(q.z); }
    p0 = pt; d::CBVH_MeshTri3D<BS, double> b2; b2.Init(xyz.data(), xyz.size() / 3, tri.data(), nt, 0.3);
    VD pc = pt; std::vector<d::CInfoNearest<double>> cache;
    d::Project_PointsIncludedInBVH_Outside(pt, cc, b2, xyz, tri, nrm);
    auto verify = [&](const VD &pp, const char *what) {
      for (size_t i = 0; i < p0.size() / 3; ++i) { V3 a = P(p0, i), b = P(pp, i); V3 qn; double best = 1e30, second = 1e30; V3 x;
        for (unsigned t = 0; t < nt; ++t) { double dd = pt_tri(a, P(xyz, tri[t * 3]), P(xyz, tri[t * 3 + 1]), P(xyz, tri[t * 3 + 2]), x); if (dd < best) { second = best; best = dd; qn = x; } else second = std::min(second, dd); }
        if (best < 1e-5) continue; bool in = winding(a, xyz, tri) > 0.5; double sd = in ? best : -best;
        // vertex normals decide the side; only judge where they are unambiguous
        if (second - best < 1e-6) { ctx.count("skip.edge nearest"); continue; }
        V3 out = (in ? (qn - a) : (a - qn)).normalized(); V3 ex = sd + cc < 0 ? a : a + (sd + cc) * out;
        CK((b - ex).norm() < 1e-7, what, "point %zu sd %g cc %g moved %g expected %g", i, sd, cc, (b - a).norm(), (ex - a).norm()); ctx.count(sd + cc < 0 ? "project.stays" : "project.moves"); } };
    verify(pt, "projection out of the mesh");
    d::Project_PointsIncludedInBVH_Outside_Cache(pc.data(), cache, (unsigned) pc.size() / 3, cc, b2, xyz.data(), (unsigned) xyz.size() / 3, tri.data(), nt, nrm.data(), 0.5);
    verify(pc, "cached projection out of the mesh");
    // second pass with the cache filled equals a pass without cache
    VD pd = pc; for (auto &v: pd) v += 0.03 * r.uni(-1, 1); VD pe = pd; d::Project_PointsIncludedInBVH_Outside_Cache(pd.data(), cache, (unsigned) pd.size() / 3, cc, b2, xyz.data(), (unsigned) xyz.size() / 3, tri.data(), nt, nrm.data(), 0.5);
    p0 = pe; verify(pd, "projection with filled cache");
  }
  ctx.sig(vh::Hash().vd(xyz).vu(tri));
}
VH_FAMILY(ray_cast, 2000, 30000) {
  auto &r = ctx.rng; VD xyz; VU tri; any_mesh(ctx, xyz, tri); unsigned nt = tri.size() / 3;
  std::vector<d::CNodeBVH2> bvh; std::vector<BS> bb;
  if (r.chance(0.5)) d::ConstructBVHTriangleMeshMortonCode(bvh, bb, xyz, tri); else d::BuildBVH_MeshTri3D_Morton(bvh, bb, xyz, tri);
  if (!tree_ok(ctx, bvh, nt, "Morton mesh BVH")) return;
  if (!enclose(ctx, bvh, bb, tripts(xyz, tri), 0, 1e-9, "Morton mesh BVH volume")) return;
  for (int q = 0; q < 10; ++q) {
    V3 p(r.uni(-2, 2), r.uni(-2, 2), r.uni(-2, 2)); unsigned t0 = r.irange(0, nt - 1); double a = r.uni(0.1, 0.4), b = r.uni(0.1, 0.4);
    V3 tgt = a * P(xyz, tri[t0 * 3]) + b * P(xyz, tri[t0 * 3 + 1]) + (1 - a - b) * P(xyz, tri[t0 * 3 + 2]); V3 u = tgt - p; if (r.chance(0.3)) u = V3(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)); if (u.norm() < 1e-2) continue; if (r.chance(0.5)) u = u.normalized();
    double best = 1e30; bool amb = false; int nhit = 0;
    for (unsigned t = 0; t < nt; ++t) {
      V3 A = P(xyz, tri[t * 3]), B = P(xyz, tri[t * 3 + 1]), C = P(xyz, tri[t * 3 + 2]); V3 nn = (B - A).cross(C - A); double nl = nn.norm(); if (nl < 1e-9) { amb = true; continue; }
      double den = nn.dot(u); if (std::fabs(den) < 1e-7 * nl * u.norm()) { amb = true; continue; } double s = nn.dot(A - p) / den; V3 x = p + s * u;
      double w0 = nn.dot((B - x).cross(C - x)) / (nl * nl), w1 = nn.dot((C - x).cross(A - x)) / (nl * nl), w = std::min({w0, w1, 1 - w0 - w1});
      if (w < -1e-7) continue; if (std::fabs(s) < 1e-7) amb = true; if (s < 0) continue; if (w < 1e-7) { amb = true; continue; } best = std::min(best, s); ++nhit; }
    if (amb) { ctx.count("ray.ambiguous"); continue; }
    d::PointOnSurfaceMesh<double> pes; bool hit = d::Intersection_Ray3_Tri3_Bvh(pes, p, u, xyz, tri, bvh, bb);
    CK(hit == (nhit > 0), "ray cast hit differs from full scan", "hit %d expected %d of %u triangles", hit, nhit, nt);
    if (hit && nhit) { V3 x = onmesh(pes, xyz, tri); CK((x - (p + best * u)).norm() < 1e-6, "ray cast does not return the first hit", "off by %g", (x - (p + best * u)).norm()); ctx.count("ray.hit"); if (nhit > 1) ctx.count("ray.several hits"); } else ctx.count("ray.miss");
    std::map<double, d::PointOnSurfaceMesh<double>> m1, m2; d::IntersectionRay_MeshTri3(m1, p, u.normalized(), tri, xyz, 1e-10);
    if ((int) m1.size() != nhit) { // hits at the same depth share an entry
      CK(nhit > 0 && !m1.empty() && (int) m1.size() < nhit, "brute-force ray hits", "%zu expected %d", m1.size(), nhit); }
    if (nhit && !m1.empty()) CKN(m1.begin()->first, best * u.norm(), 1e-6, "brute-force first hit depth", "");
  }
  ctx.sig(vh::Hash().vd(xyz).vu(tri));
}
// ---------------- self contact and triangle pairs
static double lineline(const V3 &p0, const V3 &p1, const V3 &q0, const V3 &q1, double &a, double &b, double &det) {
  V3 u = p1 - p0, v = q1 - q0, w = p0 - q0; double A = u.dot(u), B = u.dot(v), C = v.dot(v), D = u.dot(w), E = v.dot(w); det = (A * C - B * B) / (A * C); a = (B * E - C * D) / (A * C - B * B); b = (A * E - B * D) / (A * C - B * B); return (w + a * u - b * v).norm();
}
template<class BV> static void proximity(vh::Ctx &ctx) {
  auto &r = ctx.rng; VD xyz; VU tri; any_mesh(ctx, xyz, tri); if (r.chance(0.5)) { // fold: two layers near each other
    VD x2; VU t2; grid(ctx, xyz, tri, r.irange(1, 5), r.irange(1, 5), 0.05); grid(ctx, x2, t2, r.irange(1, 5), r.irange(1, 5), 0.05); unsigned n = xyz.size() / 3; for (size_t i = 0; i < x2.size(); ++i) xyz.push_back(x2[i] + (i % 3 == 2 ? r.uni(0, 0.1) : 0.13)); for (unsigned v: t2) tri.push_back(v + n); ctx.count("mesh.two layers"); }
  unsigned nt = tri.size() / 3, np = xyz.size() / 3; double delta = r.pick(std::vector<double>{0.01, 0.05, 0.2});
  auto bvh = topo_tri<BV, double>(ctx, xyz, tri); if (ctx.failed) return;
  std::vector<BV> bb; d::CLeafVolumeMaker_Mesh<BV, double> lvm(delta * 1.001, xyz.data(), np, tri.data(), nt, 3); d::BVH_BuildBVHGeometry(bb, 0, bvh, lvm);
  std::set<d::CContactElement> S; d::GetContactElement_Proximity(S, delta, xyz, tri, 0, bvh, bb);
  typedef std::array<int, 5> K; std::set<K> G, A, E; // got, ambiguous, expected
  auto fv = [&](int a, int b, int c, int v) { int s[3] = {a, b, c}; std::sort(s, s + 3); return K{0, s[0], s[1], s[2], v}; };
  auto ee = [&](int a, int b, int c, int e) { if (a > b) std::swap(a, b); if (c > e) std::swap(c, e); if (std::make_pair(a, b) > std::make_pair(c, e)) { std::swap(a, c); std::swap(b, e); } return K{1, a, b, c, e}; };
  for (auto &c: S) G.insert(c.is_fv ? fv(c.ino0, c.ino1, c.ino2, c.ino3) : ee(c.ino0, c.ino1, c.ino2, c.ino3));
  std::set<unsigned> used(tri.begin(), tri.end()); double tol = 1e-7;
  for (unsigned t = 0; t < nt; ++t) for (unsigned v: used) {
    unsigned a = tri[t * 3], b = tri[t * 3 + 1], c = tri[t * 3 + 2]; if (v == a || v == b || v == c) continue;
    V3 A0 = P(xyz, a), B0 = P(xyz, b), C0 = P(xyz, c), X = P(xyz, v); V3 nn = (B0 - A0).cross(C0 - A0); double nl = nn.norm(); if (nl < 1e-9) { A.insert(fv(a, b, c, v)); continue; }
    double h = std::fabs(nn.dot(X - A0)) / nl; double w0 = nn.dot((B0 - X).cross(C0 - X)) / (nl * nl), w1 = nn.dot((C0 - X).cross(A0 - X)) / (nl * nl), w = std::min({w0, w1, 1 - w0 - w1});
    if (std::fabs(h - delta) < tol || std::fabs(w) < tol) A.insert(fv(a, b, c, v)); else if (h < delta && w > 0) E.insert(fv(a, b, c, v)); }
  std::set<std::pair<unsigned, unsigned>> edges; for (unsigned t = 0; t < nt; ++t) for (int k = 0; k < 3; ++k) { unsigned a = tri[t * 3 + k], b = tri[t * 3 + (k + 1) % 3]; edges.insert({std::min(a, b), std::max(a, b)}); }
  for (auto &e: edges) for (auto &f: edges) if (e < f && e.first != f.first && e.first != f.second && e.second != f.first && e.second != f.second) {
    double a, b, det; double L = lineline(P(xyz, e.first), P(xyz, e.second), P(xyz, f.first), P(xyz, f.second), a, b, det); K k = ee(e.first, e.second, f.first, f.second);
    if (det < 1e-6 || std::fabs(L - delta) < tol || std::min(std::fabs(a), std::fabs(1 - a)) < tol || std::min(std::fabs(b), std::fabs(1 - b)) < tol) A.insert(k); else if (L < delta && a > 0 && a < 1 && b > 0 && b < 1) E.insert(k); }
  for (auto &k: E) CK(G.count(k), "self-proximity query lost a contact", "%s (%d %d %d %d) of %u triangles", k[0] ? "edge-edge" : "face-vertex", k[1], k[2], k[3], k[4], nt);
  for (auto &k: G) CK(E.count(k) || A.count(k), "self-proximity query reports a pair that is no contact", "%s (%d %d %d %d)", k[0] ? "edge-edge" : "face-vertex", k[1], k[2], k[3], k[4]);
  CK(G.size() == S.size(), "self-proximity query reports a contact twice", "");
  for (auto &k: E) ctx.count(k[0] ? "contact.ee" : "contact.fv");
  // intersecting triangle pairs
  std::vector<d::CIntersectTriPair<double>> tp; d::GetIntersectTriPairs(tp, xyz, tri, 0, bvh, bb);
  std::set<std::pair<int, int>> T; for (auto &x: tp) { auto k = std::make_pair(std::min(x.itri, x.jtri), std::max(x.itri, x.jtri)); CK(T.insert(k).second, "triangle pair reported twice", "%d %d", k.first, k.second);
    for (int m = 0; m < 2; ++m) { V3 q; double da = pt_tri(x.P[m], P(xyz, tri[x.itri * 3]), P(xyz, tri[x.itri * 3 + 1]), P(xyz, tri[x.itri * 3 + 2]), q), db = pt_tri(x.P[m], P(xyz, tri[x.jtri * 3]), P(xyz, tri[x.jtri * 3 + 1]), P(xyz, tri[x.jtri * 3 + 2]), q); CK(da < 1e-6 && db < 1e-6, "intersection segment not on both triangles", "%g %g", da, db); } }
  for (unsigned i = 0; i < nt; ++i) for (unsigned j = i + 1; j < nt; ++j) {
    bool share = false; for (int k = 0; k < 3; ++k) for (int m = 0; m < 3; ++m) share |= tri[i * 3 + k] == tri[j * 3 + m]; if (share) { CK(!T.count({i, j}), "adjacent triangles reported as intersecting", ""); continue; }
    int res = 0; bool amb = false; // an edge of one crosses the interior of the other
    for (int s = 0; s < 2; ++s) { unsigned a = s ? j : i, b = s ? i : j; V3 A0 = P(xyz, tri[b * 3]), B0 = P(xyz, tri[b * 3 + 1]), C0 = P(xyz, tri[b * 3 + 2]); V3 nn = (B0 - A0).cross(C0 - A0); double nl = nn.norm(); if (nl < 1e-6) { amb = true; continue; } nn = (1 / nl) * nn;
      for (int k = 0; k < 3; ++k) { V3 e0 = P(xyz, tri[a * 3 + k]), e1 = P(xyz, tri[a * 3 + (k + 1) % 3]); double h0 = nn.dot(e0 - A0), h1 = nn.dot(e1 - A0); if (std::fabs(h0) < 1e-7 || std::fabs(h1) < 1e-7) { amb = true; continue; } if (h0 * h1 > 0) continue; V3 x = e0 + (h0 / (h0 - h1)) * (e1 - e0); double w0 = nn.dot((B0 - x).cross(C0 - x)) / nl, w1 = nn.dot((C0 - x).cross(A0 - x)) / nl, w = std::min({w0, w1, 1 - w0 - w1}); if (std::fabs(w) < 1e-7) amb = true; if (w > 0) ++res; } }
    if (amb) continue;
    CK((res > 0) == (T.count({i, j}) > 0), "intersecting triangle pairs differ from full scan", "pair %u %u crossings %d reported %zu", i, j, res, T.count({i, j})); if (res) ctx.count("tripair.hit"); }
  ctx.sig(vh::Hash().vd(xyz).vu(tri).d(delta));
}
VH_FAMILY(self_contact, 900, 14000) { if (ctx.rng.chance(0.5)) proximity<d::CBV3_AABB<double>>(ctx); else proximity<d::CBV3_Sphere<double>>(ctx); }

// ---------------- the volumes themselves
VH_FAMILY(volumes, 8000, 120000) {
  auto &r = ctx.rng;
  auto rc = [&] { return r.chance(0.3) ? double(r.irange(-2, 2)) : r.uni(-2, 2); };
  { // AABB
    d::CBV3_AABB<double> a, b; VD pa, pb; CK(!a.IsActive(), "new box is active", "");
    int na = r.irange(0, 4), nb = r.irange(0, 4); double ea = r.chance(0.5) ? 0 : r.uni(0, 0.5), eb = r.chance(0.5) ? 0 : r.uni(0, 0.5);
    auto build = [&](d::CBV3_AABB<double> &x, VD &px, int n, double e) { for (int i = 0; i < n; ++i) { double p[3] = {rc(), rc(), rc()}; if (e == 0 && r.chance(0.5)) x += p; else x.AddPoint(p, e); for (int m = 0; m < 3; ++m) px.push_back(p[m]); } double q[3] = {100, 100, 100}; x.AddPoint(q, -1.); };
    build(a, pa, na, ea); build(b, pb, nb, eb);
    auto exact = [&](const d::CBV3_AABB<double> &x, const VD &px, double e, const char *w) { CK(x.IsActive() == !px.empty(), "active box", "%s", w); if (px.empty()) return; for (int m = 0; m < 3; ++m) { double lo = 1e30, hi = -1e30; for (size_t i = m; i < px.size(); i += 3) { lo = std::min(lo, px[i] - e); hi = std::max(hi, px[i] + e); } CK(x.bbmin[m] == lo && x.bbmax[m] == hi, "box is not the tight bound of its points", "%s axis %d", w, m); } };
    exact(a, pa, ea, "add"); exact(b, pb, eb, "add");
    auto u = a; u += b; if (na && nb) { for (int m = 0; m < 3; ++m) CK(u.bbmin[m] == std::min(a.bbmin[m], b.bbmin[m]) && u.bbmax[m] == std::max(a.bbmax[m], b.bbmax[m]), "box union", "axis %d", m); CK(u.IsInclude_AABB3(a) && u.IsInclude_AABB3(b), "union includes parts", ""); }
    else CK(u.IsActive() == (na + nb > 0) && (na + nb == 0 || (na ? u.bbmin[0] == a.bbmin[0] && u.bbmax[2] == a.bbmax[2] : u.bbmin[0] == b.bbmin[0] && u.bbmax[2] == b.bbmax[2])), "union with empty box", "");
    bool ov = na && nb, inc = na && nb; for (int m = 0; m < 3 && na && nb; ++m) { ov = ov && a.bbmin[m] <= b.bbmax[m] && b.bbmin[m] <= a.bbmax[m]; inc = inc && a.bbmin[m] <= b.bbmin[m] && b.bbmax[m] <= a.bbmax[m]; }
    CK(a.IsIntersect(b) == ov && b.IsIntersect(a) == ov, "box overlap", "expected %d", ov); if (na && nb) CK(a.IsInclude_AABB3(b) == inc, "box inclusion", "expected %d", inc);
    double p[3] = {rc(), rc(), rc()}; bool in = na > 0; double dd = 0; for (int m = 0; m < 3 && na; ++m) { in = in && a.bbmin[m] <= p[m] && p[m] <= a.bbmax[m]; double g = std::max({0., a.bbmin[m] - p[m], p[m] - a.bbmax[m]}); dd += g * g; }
    CK(a.isInclude_Point(p[0], p[1], p[2]) == in, "point in box", "expected %d", in);
    if (na) { CKN(a.MinimumDistance(p[0], p[1], p[2]), std::sqrt(dd), 1e-12, "distance to box", ""); double w[3], L = 0; for (int m = 0; m < 3; ++m) { w[m] = a.bbmax[m] - a.bbmin[m]; L += w[m] * w[m]; } CKN(a.DiagonalLength(), std::sqrt(L), 1e-12, "box diagonal", "");
      double mx = std::max({w[0], w[1], w[2]}); bool tie = (w[0] == mx) + (w[1] == mx) + (w[2] == mx) > 1; if (!tie) CK(a.MaxLength() == mx, "box maximum length", "%g expected %g", a.MaxLength(), mx);
      double c[6]; auto a2 = a; a2.GetCenterWidth(c[0], c[1], c[2], c[3], c[4], c[5]); d::CBV3_AABB<double> a3; a3.SetCenterWidth(c[0], c[1], c[2], c[3], c[4], c[5]); auto cc = a2.Center(); auto v6 = a2.AABBVec3(); auto vox = a2.Point3D_Vox(); d::CBV3_AABB<double> a4(v6), a5; a5.Add_AABBVec3(v6);
      for (int m = 0; m < 3; ++m) { CKN(a3.bbmin[m], a.bbmin[m], 1e-12, "center/width round trip", ""); CKN(a3.bbmax[m], a.bbmax[m], 1e-12, "center/width round trip", ""); CKN(cc[m], c[m], 1e-12, "box center", ""); CK(a4.bbmin[m] == a.bbmin[m] && a5.bbmax[m] == a.bbmax[m] && a4.bbmax[m] == a.bbmax[m], "6-vector round trip", ""); }
      d::CBV3_AABB<double> a6; for (int i = 0; i < 8; ++i) { CK(outside(a, &vox[i * 3]) == 0 || outside(a, &vox[i * 3]) <= 0, "corner outside", ""); a6.AddPoint(&vox[i * 3], 0.); } for (int m = 0; m < 3; ++m) CK(a6.bbmin[m] == a.bbmin[m] && a6.bbmax[m] == a.bbmax[m], "corners do not span the box", ""); }
  }
  { // sphere: union encloses, overlap exact
    BS a, b; auto mk = [&](BS &s) { double p[3] = {rc(), rc(), rc()}; s.AddPoint(p, r.chance(0.3) ? 0 : r.uni(0, 1.5)); }; mk(a); mk(b); if (r.chance(0.2)) { b = a; b.r = r.uni(0, 1); } BS u = a; u += b;
    auto incl = [&](const BS &x, const BS &y) { double L = 0; for (int m = 0; m < 3; ++m) L += (x.c[m] - y.c[m]) * (x.c[m] - y.c[m]); return std::sqrt(L) + y.r - x.r; };
    CK(incl(u, a) < 1e-9 && incl(u, b) < 1e-9, "sphere union does not enclose its parts", "%g %g", incl(u, a), incl(u, b)); CK(u.IsInclude(a, 1e-9) && u.IsInclude(b, 1e-9), "IsInclude of union", "");
    double L = 0; for (int m = 0; m < 3; ++m) L += (a.c[m] - b.c[m]) * (a.c[m] - b.c[m]); L = std::sqrt(L); double need = std::max({a.r, b.r, 0.5 * (L + a.r + b.r)}); CK(u.r <= need * (1 + 2e-5) + 1e-9, "sphere union larger than the minimal enclosing sphere", "%g expected %g", u.r, need);
    if (std::fabs(L - a.r - b.r) > 1e-9) CK(a.IsIntersect(b) == (L < a.r + b.r) && b.IsIntersect(a) == (L < a.r + b.r), "sphere overlap", "L %g r %g %g", L, a.r, b.r);
    if (std::fabs(L + b.r - a.r) > 1e-9) CK(a.IsInclude(b, 0) == (L + b.r < a.r), "sphere inclusion", "");
    double p[4][3]; for (auto &x: p) for (double &v: x) v = rc(); double cc = r.uni(0, 0.3); BS s4; s4.SetPoints4(p[0], p[1], p[2], p[3], cc); for (auto &x: p) CK(outside(s4, x) <= -cc + 1e-12, "SetPoints4 does not enclose", "");
    double mn = -1, mx = -1; double q[3] = {rc(), rc(), rc()}; a.Range_DistToPoint(mn, mx, q[0], q[1], q[2]); double o = outside(a, q); CKN(mn, std::max(0., o), 1e-12, "sphere distance range", ""); CKN(mx, o + 2 * a.r, 1e-12, "sphere distance range", "");
  }
  { // 2D box
    d::CBoundingBox2<double> a, b; int na = r.irange(0, 4), nb = r.irange(0, 4); double A[4] = {1e30, -1e30, 1e30, -1e30}, B[4] = {1e30, -1e30, 1e30, -1e30};
    auto add = [&](d::CBoundingBox2<double> &x, double *X) { double u = rc(), v = rc(); x.Add(u, v); X[0] = std::min(X[0], u); X[1] = std::max(X[1], u); X[2] = std::min(X[2], v); X[3] = std::max(X[3], v); };
    for (int i = 0; i < na; ++i) add(a, A); for (int i = 0; i < nb; ++i) add(b, B);
    auto eq = [&](const d::CBoundingBox2<double> &x, const double *X) { return x.x_min == X[0] && x.x_max == X[1] && x.y_min == X[2] && x.y_max == X[3]; };
    CK(a.isActive() == (na > 0) && (!na || eq(a, A)), "2D box of points", ""); auto u = a; u += b; if (na + nb) { double U[4] = {std::min(A[0], B[0]), std::max(A[1], B[1]), std::min(A[2], B[2]), std::max(A[3], B[3])}; CK(eq(u, U), "2D box union", "%d %d", na, nb); auto v = u.MinMaxXYZ(); CK(v.size() == 6 && v[0] == U[0] && v[1] == U[1] && v[2] == U[2] && v[3] == U[3], "2D box min max", ""); CKN(u.LengthDiagonal(), std::hypot(U[1] - U[0], U[3] - U[2]), 1e-12, "2D box diagonal", ""); }
    if (na && nb) { double c = r.chance(0.5) ? 0 : r.uni(0, 1); bool ov = A[0] <= B[1] + c && B[0] <= A[1] + c && A[2] <= B[3] + c && B[2] <= A[3] + c; double g = std::min({std::fabs(A[0] - B[1] - c), std::fabs(B[0] - A[1] - c), std::fabs(A[2] - B[3] - c), std::fabs(B[2] - A[3] - c)}); if (g > 1e-12 || c == 0) CK(a.IsIntersect(b, c) == ov, "2D box overlap", "expected %d", ov); }
    if (na) { d::CVec2<double> p(rc(), rc()); double rad = r.uni(0, 1); double dx = std::max({0., A[0] - p.p[0], p.p[0] - A[1]}), dy = std::max({0., A[2] - p.p[1], p.p[1] - A[3]}); if (std::hypot(dx, dy) < rad - 1e-12) CK(a.IsIntersectSphere(p, rad), "2D box misses a circle", ""); if (std::max(dx, dy) > rad + 1e-12) CK(!a.IsIntersectSphere(p, rad), "2D box hits a far circle", ""); }
  }
  ctx.sig(r.next());
}
