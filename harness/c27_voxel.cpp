// C27: voxel grids, cube grids, iso-surface stuffing and adaptive distance fields against brute-force solids.
#include "../lib/vh.h"
#include <cmath>
#include <climits>
#include <iostream>
#include <map>
#include <set>
#include <array>
#include <queue>
#include "delfem2/gridvoxel.h"
#include "delfem2/gridcube.h"
#include "delfem2/isrf_iss.h"
#include "delfem2/isrf_adf.h"
#include "delfem2/isrf_sdf.h"
namespace dfm2 = delfem2;
using dfm2::CVec3d;
typedef std::array<int, 3> I3;

// ---- cube grid
VH_FAMILY(cube_history, 400, 6000) {
  std::vector<dfm2::CCubeGrid> cubes;
  std::map<I3, bool> ref;
  int span = ctx.rng.irange(1, 4), off[3];
  for (int &o: off) { o = ctx.rng.irange(-50, 50); }
  int nop = ctx.rng.irange(1, 60);
  for (int iop = 0; iop < nop && !ctx.failed; ++iop) {
    I3 p{off[0] + ctx.rng.irange(-span, span), off[1] + ctx.rng.irange(-span, span), off[2] + ctx.rng.irange(-span, span)};
    if (ctx.rng.chance(0.65)) { dfm2::Add_CubeGrid(cubes, p[0], p[1], p[2]); ref[p] = true; ctx.count("cube_added"); }
    else {
      dfm2::Del_CubeGrid(cubes, p[0], p[1], p[2]);
      if (ref.count(p)) { ref[p] = false; ctx.count("cube_removed"); }
    }
    std::map<I3, bool> got;
    for (auto &c: cubes) {
      I3 q{c.ivx, c.ivy, c.ivz};
      if (!CK(!got.count(q), "one entry per cell", "cell %d %d %d twice", q[0], q[1], q[2])) { return; }
      got[q] = c.is_active;
    }
    if (!CK(got == ref, "cells held", "%zu stored, %zu expected", got.size(), ref.size())) { return; }
    int bb[6];
    dfm2::AABB_CubeGrid(bb, cubes);
    if (cubes.empty()) { CK(bb[0] > bb[1] && bb[2] > bb[3] && bb[4] > bb[5], "bounding box of no cell", "%d %d", bb[0], bb[1]); continue; }
    int rb[6] = {INT_MAX, INT_MIN, INT_MAX, INT_MIN, INT_MAX, INT_MIN};
    for (auto &q: ref) for (int k = 0; k < 3; ++k) { rb[2 * k] = std::min(rb[2 * k], q.first[k]); rb[2 * k + 1] = std::max(rb[2 * k + 1], q.first[k] + 1); }
    for (int k = 0; k < 6; ++k) { CK(bb[k] == rb[k], "bounding box of the cells", "entry %d is %d, cells span %d", k, bb[k], rb[k]); }
    ctx.count("boxes");
    unsigned ic = (unsigned) ctx.rng.irange(0, (int) cubes.size() - 1);
    int f = ctx.rng.irange(0, 5), x, y, z;
    dfm2::Adj_CubeGrid(x, y, z, ic, f, cubes);
    int want[3] = {cubes[ic].ivx, cubes[ic].ivy, cubes[ic].ivz};
    want[f / 2] += f % 2 ? 1 : -1;
    CK(x == want[0] && y == want[1] && z == want[2], "neighbour cell across a face", "face %d", f);
    // picking from outside
    double elen = std::exp(ctx.rng.uni(-3, 2)), org[3], src[3], dir[3];
    for (int k = 0; k < 3; ++k) { org[k] = ctx.rng.uni(-5, 5) * elen; }
    double ext = 0;
    for (int k = 0; k < 3; ++k) { ext = std::max(ext, (double) (rb[2 * k + 1] - rb[2 * k])); }
    double nd = 0;
    for (double &d: dir) { d = ctx.rng.gauss(); }
    if (ctx.rng.chance(0.2)) { int k = ctx.rng.irange(0, 2); for (int l = 0; l < 3; ++l) { if (l != k) { dir[l] = 0; } } ctx.count("pick_axis_aligned"); }
    for (double d: dir) { nd += d * d; }
    double sc = std::exp(ctx.rng.uni(-1, 1)) / std::sqrt(nd);
    for (double &d: dir) { d *= sc; }
    for (int k = 0; k < 3; ++k) {
      double c = org[k] + elen * ctx.rng.uni(rb[2 * k], rb[2 * k + 1]);
      src[k] = c - dir[k] / (sc) * elen * ext * 3.0 ;
    }
    // reference: slab test in exact order
    double best = 1e300, second = 1e300; int bi = -1, bf = -1; bool near_edge = false;
    for (size_t i = 0; i < cubes.size(); ++i) {
      if (!cubes[i].is_active) { continue; }
      int g[3] = {cubes[i].ivx, cubes[i].ivy, cubes[i].ivz};
      double lo = -1e300, hi = 1e300; int fl = -1; double lo2 = -1e300; bool out = false;
      for (int k = 0; k < 3; ++k) {
        double a = (org[k] + elen * g[k] - src[k]), b = a + elen;
        if (dir[k] == 0) {
          if (std::fabs(a) < 1e-7 * elen || std::fabs(b) < 1e-7 * elen) { near_edge = true; }
          if (a > 0 || b < 0) { out = true; }
          continue;
        }
        double t0 = a / dir[k], t1 = b / dir[k]; int f0 = 2 * k;
        if (t0 > t1) { std::swap(t0, t1); f0 = 2 * k + 1; }
        if (t0 > lo) { lo2 = lo; lo = t0; fl = f0; } else { lo2 = std::max(lo2, t0); }
        hi = std::min(hi, t1);
      }
      double tol = 1e-6 * elen / std::sqrt(dir[0] * dir[0] + dir[1] * dir[1] + dir[2] * dir[2]);
      if (out) { continue; }
      if (std::fabs(hi - lo) < tol || (lo < hi && lo - lo2 < tol)) { near_edge = true; }
      if (lo >= hi) { continue; }
      if (lo < best) { second = best; best = lo; bi = (int) i; bf = fl; } else { second = std::min(second, lo); }
    }
    if (near_edge) { ctx.count("pick_skipped"); continue; }
    (void) second;
    unsigned ip = 12345; int ifc = -7;
    dfm2::Pick_CubeGrid(ip, ifc, src, dir, elen, org, cubes);
    if (bi < 0) { CK(ip == UINT_MAX, "nothing picked when the ray misses", "picked %u", ip); ctx.count("pick_miss"); }
    else { CK(ip == (unsigned) bi && ifc == bf, "cell and face first met by the ray", "picked %u/%d expected %d/%d", ip, ifc, bi, bf); ctx.count("pick_hit"); }
  }
  ctx.sig(vh::Hash().u(ctx.rng.next()).h);
}

// ---- voxel meshes
static int ref_adj(const int n[3], int iv, int f) {
  int p[3] = {iv / (n[1] * n[2]), (iv / n[2]) % n[1], iv % n[2]};
  p[f / 2] += f % 2 ? 1 : -1;
  if (p[f / 2] < 0 || p[f / 2] >= n[f / 2]) { return -1; }
  return (p[0] * n[1] + p[1]) * n[2] + p[2];
}
static double tetvol(const double *a, const double *b, const double *c, const double *d) {
  double u[3], v[3], w[3];
  for (int k = 0; k < 3; ++k) { u[k] = b[k] - a[k]; v[k] = c[k] - a[k]; w[k] = d[k] - a[k]; }
  return (u[0] * (v[1] * w[2] - v[2] * w[1]) + u[1] * (v[2] * w[0] - v[0] * w[2]) + u[2] * (v[0] * w[1] - v[1] * w[0])) / 6.0;
}
// every face shared by at most two tetrahedra, seen from opposite sides; returns the faces on the boundary
template<typename T>
static bool conforming(vh::Ctx &ctx, const std::vector<T> &tet, size_t np, std::vector<std::array<unsigned, 3>> &bnd, const char *what) {
  static const int F[4][3] = {{1, 2, 3}, {0, 3, 2}, {0, 1, 3}, {0, 2, 1}};
  std::map<std::array<unsigned, 3>, int> sum; std::map<std::array<unsigned, 3>, int> cnt; std::map<std::array<unsigned, 3>, std::array<unsigned, 3>> orig;
  for (size_t it = 0; it < tet.size() / 4; ++it) {
    for (int k = 0; k < 4; ++k) { if (!CK((size_t) tet[it * 4 + k] < np, "tetrahedron index in range", "%s: tet %zu node %d = %lld of %zu", what, it, k, (long long) tet[it * 4 + k], np)) { return false; } }
    for (auto &f: F) {
      std::array<unsigned, 3> a{(unsigned) tet[it * 4 + f[0]], (unsigned) tet[it * 4 + f[1]], (unsigned) tet[it * 4 + f[2]]}, s = a;
      int par = 1;
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) { if (s[j] > s[j + 1]) { std::swap(s[j], s[j + 1]); par = -par; } }
      if (!CK(s[0] != s[1] && s[1] != s[2], "tetrahedron with distinct nodes", "%s: tet %zu", what, it)) { return false; }
      sum[s] += par; cnt[s]++; orig[s] = a;
    }
  }
  bnd.clear();
  for (auto &c: cnt) {
    if (!CK(c.second <= 2, "face shared by at most two tetrahedra", "%s: face %u %u %u in %d", what, c.first[0], c.first[1], c.first[2], c.second)) { return false; }
    if (c.second == 2) { if (!CK(sum[c.first] == 0, "tetrahedra on opposite sides of a shared face", "%s: face %u %u %u", what, c.first[0], c.first[1], c.first[2])) { return false; } }
    else { bnd.push_back(orig[c.first]); }
  }
  return true;
}
VH_FAMILY(voxel_mesh, 500, 8000) {
  int n[3];
  for (int &k: n) { k = ctx.rng.irange(1, 5); }
  int nv = n[0] * n[1] * n[2];
  std::vector<int> vox((size_t) nv);
  double dens = ctx.rng.uni(0, 1.1);
  bool via = ctx.rng.chance(0.5);
  dfm2::CGrid3<int> grid;
  grid.Initialize((unsigned) n[0], (unsigned) n[1], (unsigned) n[2], 0);
  for (int &v: vox) { v = ctx.rng.chance(dens) ? 1 : 0; }
  if (via) {
    for (int i = 0; i < nv; ++i) { if (vox[(size_t) i]) { grid.Set(i / (n[1] * n[2]), (i / n[2]) % n[1], i % n[2], 1); } }
    for (int k = 0; k < 5; ++k) {  // outside the grid: ignored
      int p[3] = {ctx.rng.irange(0, n[0] - 1), ctx.rng.irange(0, n[1] - 1), ctx.rng.irange(0, n[2] - 1)};
      int a = ctx.rng.irange(0, 2);
      p[a] = ctx.rng.chance(0.5) ? -ctx.rng.irange(1, 3) : n[a] + ctx.rng.irange(0, 3);
      grid.Set(p[0], p[1], p[2], 1);
      CK(!grid.IsInclude((unsigned) p[0], (unsigned) p[1], (unsigned) p[2]), "cell outside the grid", "%d %d %d", p[0], p[1], p[2]);
      ctx.count("set_outside");
    }
    CK(grid.aVal == vox, "values stay where they were set", "%d %d %d", n[0], n[1], n[2]);
    ctx.count("grids_set");
  }
  int nfill = 0;
  for (int v: vox) { nfill += v; }
  auto idx = [&](int x, int y, int z) { return (unsigned) ((x * (n[1] + 1) + y) * (n[2] + 1) + z); };
  std::vector<double> X;
  auto points_ok = [&](const char *what) {
    if (!CK(X.size() == (size_t) (n[0] + 1) * (n[1] + 1) * (n[2] + 1) * 3, "one point per grid corner", "%s", what)) { return false; }
    for (int x = 0; x <= n[0]; ++x) for (int y = 0; y <= n[1]; ++y) for (int z = 0; z <= n[2]; ++z) {
      const double *p = &X[idx(x, y, z) * 3];
      if (!CK(p[0] == x && p[1] == y && p[2] == z, "corner position", "%s %d %d %d", what, x, y, z)) { return false; }
    }
    return true;
  };
  // boundary quads
  std::vector<unsigned> Q;
  dfm2::MeshQuad3D_VoxelGrid(X, Q, (unsigned) n[0], (unsigned) n[1], (unsigned) n[2], vox);
  if (!points_ok("quad")) { return; }
  std::set<std::pair<I3, int>> want, got;  // doubled coordinates of the face centre, direction of the normal
  for (int i = 0; i < nv; ++i) {
    if (!vox[(size_t) i]) { continue; }
    int p[3] = {i / (n[1] * n[2]), (i / n[2]) % n[1], i % n[2]};
    for (int f = 0; f < 6; ++f) {
      int j = ref_adj(n, i, f);
      CK(dfm2::Adj_Grid(i, f, n[0], n[1], n[2]) == j, "neighbour of a voxel", "voxel %d face %d of %d %d %d", i, f, n[0], n[1], n[2]);
      if (j >= 0 && vox[(size_t) j]) { continue; }
      I3 c{2 * p[0] + 1, 2 * p[1] + 1, 2 * p[2] + 1};
      c[(size_t) (f / 2)] += f % 2 ? 1 : -1;
      want.insert({c, f});
    }
  }
  for (size_t iq = 0; iq < Q.size() / 4; ++iq) {
    double c[3] = {0, 0, 0};
    const double *q[4];
    for (int k = 0; k < 4; ++k) {
      if (!CK(Q[iq * 4 + k] < X.size() / 3, "quad index in range", "%u", Q[iq * 4 + k])) { return; }
      q[k] = &X[Q[iq * 4 + k] * 3];
      for (int d = 0; d < 3; ++d) { c[d] += q[k][d] * 0.5; }
    }
    double u[3], v[3], m[3];
    for (int d = 0; d < 3; ++d) { u[d] = q[2][d] - q[0][d]; v[d] = q[3][d] - q[1][d]; }
    for (int d = 0; d < 3; ++d) { m[d] = 0.5 * (u[(d + 1) % 3] * v[(d + 2) % 3] - u[(d + 2) % 3] * v[(d + 1) % 3]); }
    int f = -1;
    for (int d = 0; d < 3; ++d) { if (m[d] == 1 && m[(d + 1) % 3] == 0 && m[(d + 2) % 3] == 0) { f = 2 * d + 1; } if (m[d] == -1 && m[(d + 1) % 3] == 0 && m[(d + 2) % 3] == 0) { f = 2 * d; } }
    if (!CK(f >= 0, "quad is a unit face", "quad %zu", iq)) { return; }
    if (!CK(got.insert({I3{(int) std::lround(c[0]), (int) std::lround(c[1]), (int) std::lround(c[2])}, f}).second, "each face once", "quad %zu", iq)) { return; }
  }
  CK(got == want, "boundary faces of the filled voxels", "%zu faces, %zu expected", got.size(), want.size());
  ctx.count("boundary_faces", want.size());
  // hexahedra and tetrahedra
  std::vector<int> H, T;
  dfm2::MeshHex3D_VoxelGrid(X, H, (unsigned) n[0], (unsigned) n[1], (unsigned) n[2], vox);
  if (!points_ok("hex")) { return; }
  CK((int) H.size() == 8 * nfill, "one hexahedron per filled voxel", "%zu of %d", H.size() / 8, nfill);
  std::set<I3> hx;
  static const int HC[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
  for (size_t ih = 0; ih < H.size() / 8; ++ih) {
    const double *o = &X[(size_t) H[ih * 8] * 3];
    for (int k = 0; k < 8; ++k) for (int d = 0; d < 3; ++d) { CK(X[(size_t) H[ih * 8 + k] * 3 + d] == o[d] + HC[k][d], "corner order of a hexahedron", "corner %d", k); }
    I3 p{(int) o[0], (int) o[1], (int) o[2]};
    CK(hx.insert(p).second && p[0] < n[0] && p[1] < n[1] && p[2] < n[2] && vox[(size_t) ((p[0] * n[1] + p[1]) * n[2] + p[2])], "hexahedron at a filled voxel", "%d %d %d", p[0], p[1], p[2]);
  }
  dfm2::MeshTet3D_VoxelGrid(X, T, (unsigned) n[0], (unsigned) n[1], (unsigned) n[2], vox);
  if (!points_ok("tet")) { return; }
  double vol = 0, vmin = 1;
  std::map<I3, double> per;
  for (size_t it = 0; it < T.size() / 4; ++it) {
    const double *p[4]; double g[3] = {0, 0, 0};
    for (int k = 0; k < 4; ++k) { p[k] = &X[(size_t) T[it * 4 + k] * 3]; for (int d = 0; d < 3; ++d) { g[d] += 0.25 * p[k][d]; } }
    double v = tetvol(p[0], p[1], p[2], p[3]);
    vol += v; vmin = std::min(vmin, v);
    per[I3{(int) g[0], (int) g[1], (int) g[2]}] += v;
  }
  CK(T.empty() || vmin > 0, "tetrahedra positively oriented", "smallest volume %g", vmin);
  CKN(vol, (double) nfill, 1e-9, "volume of the filled voxels", "%d", nfill);
  for (auto &q: per) { CK(hx.count(q.first) && std::fabs(q.second - 1) < 1e-9, "each filled voxel filled by its tetrahedra", "%g", q.second); }
  std::vector<std::array<unsigned, 3>> bnd;
  if (!conforming(ctx, T, X.size() / 3, bnd, "voxel tets")) { return; }
  CK(bnd.size() == 2 * want.size(), "boundary triangles of the tetrahedra", "%zu vs %zu faces", bnd.size(), want.size());
  ctx.count("voxels", (uint64_t) nfill);
  // bounding box of cells
  int bb[8] = {+1, -1, +1, -1, +1, -1, 0, 0}, rb[6] = {INT_MAX, INT_MIN, INT_MAX, INT_MIN, INT_MAX, INT_MIN};
  for (int k = 0; k < 8; ++k) {
    int p[3] = {ctx.rng.irange(-9, 9), ctx.rng.irange(-9, 9), ctx.rng.irange(-9, 9)};
    dfm2::Add_AABB(bb, p[0], p[1], p[2]);
    for (int d = 0; d < 3; ++d) { rb[2 * d] = std::min(rb[2 * d], p[d]); rb[2 * d + 1] = std::max(rb[2 * d + 1], p[d] + 1); }
    for (int d = 0; d < 6; ++d) { CK(bb[d] == rb[d], "bounding box after adding a cell", "entry %d", d); }
    int q[3] = {ctx.rng.irange(-10, 10), ctx.rng.irange(-10, 10), ctx.rng.irange(-10, 10)};
    bool in = true;
    for (int d = 0; d < 3; ++d) { in = in && q[d] >= rb[2 * d] && q[d] < rb[2 * d + 1]; }
    CK(dfm2::IsInclude_AABB(bb, q[0], q[1], q[2]) == in, "cell in the bounding box", "%d %d %d", q[0], q[1], q[2]);
  }
  ctx.sig(vh::Hash().u((uint64_t) n[0]).u((uint64_t) n[1]).u((uint64_t) n[2]).u((uint64_t) nfill).u(ctx.rng.next()).h);
}

// ---- morphology and geodesic distance, cells numbered x fastest
static std::vector<int> morph(const std::vector<int> &v, const int n[3], bool dil) {
  std::vector<int> r = v;
  for (int z = 0; z < n[2]; ++z) for (int y = 0; y < n[1]; ++y) for (int x = 0; x < n[0]; ++x) {
    int c[3] = {x, y, z};
    bool any = false, all = true;
    for (int f = 0; f < 6; ++f) {
      int p[3] = {x, y, z};
      p[f / 2] += f % 2 ? 1 : -1;
      int a = (p[f / 2] < 0 || p[f / 2] >= n[f / 2]) ? 0 : v[(size_t) ((p[2] * n[1] + p[1]) * n[0] + p[0])];
      if (a) { any = true; } else { all = false; }
    }
    size_t i = (size_t) ((c[2] * n[1] + c[1]) * n[0] + c[0]);
    if (dil) { r[i] = v[i] || any; } else { r[i] = v[i] && all; }
  }
  return r;
}
VH_FAMILY(morphology, 400, 6000) {
  int n[3];
  for (int &k: n) { k = ctx.rng.irange(1, 8); }
  dfm2::CGrid3<int> g;
  g.Initialize((unsigned) n[0], (unsigned) n[1], (unsigned) n[2], 0);
  CK((int) g.aVal.size() == n[0] * n[1] * n[2] && std::count(g.aVal.begin(), g.aVal.end(), 0) == (long) g.aVal.size(), "grid initialised with the value", "%zu", g.aVal.size());
  double dens = ctx.rng.chance(0.5) ? ctx.rng.uni(0, 0.2) : ctx.rng.uni(0.6, 1.0);
  for (auto &v: g.aVal) { v = ctx.rng.chance(dens) ? 1 : 0; }
  std::vector<int> ref = g.aVal;
  int nstep = ctx.rng.irange(1, 6);
  for (int i = 0; i < nstep && !ctx.failed; ++i) {
    bool dil = ctx.rng.chance(0.5);
    if (dil) { dfm2::Grid3Voxel_Dilation(g); } else { dfm2::Grid3Voxel_Erosion(g); }
    ref = morph(ref, n, dil);
    CK(g.aVal == ref, dil ? "dilated voxels" : "eroded voxels", "step %d of %d %d %d", i, n[0], n[1], n[2]);
    ctx.count(dil ? "dilations" : "erosions");
  }
  ctx.sig(vh::Hash().u(ctx.rng.next()).h);
}
VH_FAMILY(geodesic, 300, 5000) {
  int n[3];
  for (int &k: n) { k = ctx.rng.irange(1, 8); }
  dfm2::CGrid3<int> g;
  g.Initialize((unsigned) n[0], (unsigned) n[1], (unsigned) n[2], 0);
  double dens = ctx.rng.uni(0.3, 1.0), el = std::exp(ctx.rng.uni(-3, 2));
  std::vector<unsigned> filled;
  for (size_t i = 0; i < g.aVal.size(); ++i) { g.aVal[i] = ctx.rng.chance(dens) ? 1 : 0; if (g.aVal[i]) { filled.push_back((unsigned) i); } }
  if (filled.empty()) { g.aVal[0] = 1; filled.push_back(0); }
  std::vector<std::pair<unsigned, double>> seed;
  int ns = ctx.rng.irange(1, 4);
  for (int i = 0; i < ns; ++i) { seed.emplace_back(ctx.rng.pick(filled), ctx.rng.chance(0.4) ? 0.0 : ctx.rng.uni(0, 4) * el); }
  std::map<unsigned, double> best;
  for (auto &s: seed) { if (!best.count(s.first)) { best[s.first] = s.second; } else { best[s.first] = std::min(best[s.first], s.second); ctx.count("seed_twice"); } }
  std::vector<double> D, R(g.aVal.size(), -1);
  dfm2::VoxelGeodesic(D, seed, el, g);
  // reference: Bellman-Ford relaxation until nothing changes
  for (auto &b: best) { R[b.first] = b.second; }
  for (bool ch = true; ch;) {
    ch = false;
    for (int z = 0; z < n[2]; ++z) for (int y = 0; y < n[1]; ++y) for (int x = 0; x < n[0]; ++x) {
      size_t i = (size_t) ((z * n[1] + y) * n[0] + x);
      if (!g.aVal[i]) { continue; }
      for (int f = 0; f < 6; ++f) {
        int p[3] = {x, y, z};
        p[f / 2] += f % 2 ? 1 : -1;
        if (p[f / 2] < 0 || p[f / 2] >= n[f / 2]) { continue; }
        size_t j = (size_t) ((p[2] * n[1] + p[1]) * n[0] + p[0]);
        if (!g.aVal[j] || R[j] < 0) { continue; }
        if (R[i] < 0 || R[i] > R[j] + el * (1 + 1e-12)) { R[i] = R[j] + el; ch = true; }
      }
    }
  }
  if (!CK(D.size() == R.size(), "one distance per voxel", "%zu", D.size())) { return; }
  for (size_t i = 0; i < D.size() && !ctx.failed; ++i) {
    if (R[i] < 0) { CK(D[i] == -1, "unreached voxels keep the value -1", "voxel %zu has %g", i, D[i]); ctx.count("unreached"); continue; }
    CKN(D[i], R[i], 1e-9 * (el * 100 + 1), "geodesic distance of a voxel", "voxel %zu", i);
    ctx.count("reached");
  }
  ctx.sig(vh::Hash().vd(D).h);
}
VH_FAMILY(segment_walk, 600, 10000) {
  int n[3];
  for (int &k: n) { k = ctx.rng.irange(1, 12); }
  dfm2::CGrid3<int> g;
  g.Initialize((unsigned) n[0], (unsigned) n[1], (unsigned) n[2], 0);
  double A[9], B[3];
  double s = std::exp(ctx.rng.uni(-2, 2));
  bool ident = ctx.rng.chance(0.3);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { A[i * 3 + j] = ident ? (i == j) : s * ((i == j ? 1.0 : 0.0) + ctx.rng.uni(-0.3, 0.3)); }
  for (double &b: B) { b = ident ? 0 : ctx.rng.uni(-3, 3); }
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { g.am.mat[i * 4 + j] = i < 3 && j < 3 ? A[i * 3 + j] : i < 3 ? B[i] : (j == 3); }
  CVec3d l[2], w[2];
  double spread = ctx.rng.pick({0.0, 0.5, 2.0});
  for (auto &p: l) { for (int k = 0; k < 3; ++k) { p[k] = ctx.rng.uni(-spread * n[k] , n[k] * (1 + spread)); } }
  bool exact = false;
  if (ident && ctx.rng.chance(0.6)) {  // exactly representable special positions
    exact = true;
    int mode = ctx.rng.irange(0, 2);
    if (mode == 0) { int k = ctx.rng.irange(0, 2); l[1][k] = l[0][k]; ctx.count("segment_in_axis_plane"); }
    if (mode == 1) { int k = ctx.rng.irange(0, 2); for (int d = 0; d < 3; ++d) { if (d != k) { l[1][d] = l[0][d]; } } ctx.count("segment_along_axis"); }
    if (mode == 2) { for (auto &p: l) { for (int k = 0; k < 3; ++k) { p[k] = std::floor(p[k]) + ctx.rng.pick({0.0, 0.5}); } } ctx.count("segment_lattice_points"); }
  }
  for (int i = 0; i < 2; ++i) { for (int k = 0; k < 3; ++k) { w[i][k] = ident ? l[i][k] : A[k * 3] * l[i][0] + A[k * 3 + 1] * l[i][1] + A[k * 3 + 2] * l[i][2] + B[k]; } }
  std::vector<unsigned> path;
  dfm2::Intersection_VoxelGrid_LinSeg(path, g, w[0], w[1]);
  std::set<unsigned> got;
  double tprev = -1;
  unsigned prev = UINT_MAX;
  const double tol = 1e-7;
  CVec3d d = l[1] - l[0];
  auto span = [&](unsigned iv, double grow, double &lo, double &hi) {
    int c[3] = {(int) iv % n[0], ((int) iv / n[0]) % n[1], (int) iv / (n[0] * n[1])};
    lo = 0; hi = 1;
    for (int k = 0; k < 3; ++k) {
      double a = c[k] - grow - l[0][k], b = c[k] + 1 + grow - l[0][k];
      if (d[k] == 0) { if (a > 0 || b < 0) { lo = 2; hi = -1; } continue; }
      double t0 = a / d[k], t1 = b / d[k];
      if (t0 > t1) { std::swap(t0, t1); }
      lo = std::max(lo, t0); hi = std::min(hi, t1);
    }
    return lo <= hi;
  };
  for (unsigned iv: path) {
    if (!CK(iv < g.aVal.size(), "voxel index in range", "%u", iv)) { return; }
    if (!CK(got.insert(iv).second, "each voxel once", "%u", iv)) { return; }
    double lo, hi;
    if (!CK(span(iv, tol, lo, hi), "voxel touched by the segment", "voxel %u of %d %d %d, %s", iv, n[0], n[1], n[2], exact ? "special position" : "generic")) { return; }
    CK(lo >= tprev - 1e-6, "voxels in the order along the segment", "%g after %g", lo, tprev);
    tprev = std::max(tprev, lo);
    prev = iv;
  }
  (void) prev;
  for (unsigned iv = 0; iv < g.aVal.size() && !ctx.failed; ++iv) {
    double lo, hi;
    if (!span(iv, -tol, lo, hi)) { continue; }
    double len = std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]);
    if ((hi - lo) * len < 1e-6) { continue; }
    CK(got.count(iv), "every voxel crossed by the segment is listed", "voxel %u of %d %d %d, length %g inside, %s", iv, n[0], n[1], n[2], (hi - lo) * len, exact ? "special position" : "generic");
    ctx.count("voxels_crossed");
  }
  if (path.empty()) { ctx.count("segment_misses"); }
  ctx.sig(vh::Hash().d(l[0][0]).d(l[0][1]).d(l[0][2]).d(l[1][0]).h);
}
static void set_dilate(vh::Ctx &ctx, const int n[3], const int p[3]) {  // the cell named (x,y,z) when it is set and when the grid is dilated
  dfm2::CGrid3<int> g, h;
  g.Initialize((unsigned) n[0], (unsigned) n[1], (unsigned) n[2], 0);
  h.Initialize((unsigned) n[0], (unsigned) n[1], (unsigned) n[2], 0);
  g.Set(p[0], p[1], p[2], 1);
  dfm2::Grid3Voxel_Dilation(g);
  h.Set(p[0], p[1], p[2], 1);
  for (int f = 0; f < 6; ++f) { int q[3] = {p[0], p[1], p[2]}; q[f / 2] += f % 2 ? 1 : -1; h.Set(q[0], q[1], q[2], 1); }
  CK(g.aVal == h.aVal, "dilation grows the cell that was set", "grid %d %d %d cell %d %d %d", n[0], n[1], n[2], p[0], p[1], p[2]);
}
VH_FAMILY(set_then_dilate, 60, 300) {
  int m = ctx.rng.irange(1, 6), n[3] = {m, m, m}, p[3];
  for (int &k: p) { k = ctx.rng.irange(0, m - 1); }
  set_dilate(ctx, n, p);
  ctx.count("dilated_cubic");
  ctx.sig(vh::Hash().u(ctx.rng.next()).h);
}
VH_FAMILY(set_then_dilate_unequal, 1, 1) {  // one fixed input: a grid whose divisions differ
  int n[3] = {2, 3, 4}, p[3] = {1, 0, 3};
  set_dilate(ctx, n, p);
  ctx.sig(1);
}

// ---- solids with exact signed distance, inside positive
struct Solid {
  int kind; double c[3], a, b, e[3]; double vol, area, rmin; bool smooth;
  double sd(double x, double y, double z) const {
    double p[3] = {x - c[0], y - c[1], z - c[2]};
    double r = std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]);
    if (kind == 0) { return a - r; }
    if (kind == 1) { double q = std::sqrt(p[0] * p[0] + p[1] * p[1]) - a; return b - std::sqrt(q * q + p[2] * p[2]); }
    if (kind == 2) {  // box, rounded by nothing
      double o = 0, in = -1e300;
      for (int k = 0; k < 3; ++k) { double q = std::fabs(p[k]) - e[k]; o += std::max(q, 0.0) * std::max(q, 0.0); in = std::max(in, q); }
      return -(std::sqrt(o) + std::min(in, 0.0));
    }
    if (kind == 3) { double h = std::max(-b, std::min(b, p[0])); double q = p[0] - h; return a - std::sqrt(q * q + p[1] * p[1] + p[2] * p[2]); }  // capsule
    return std::min(a - r, r - b);  // hollow ball
  }
};
static Solid make_solid(vh::Ctx &ctx) {
  Solid s;
  s.kind = ctx.rng.irange(0, 4);
  for (double &v: s.c) { v = ctx.rng.uni(-0.05, 0.05); }
  s.smooth = true;
  if (s.kind == 0) { s.a = ctx.rng.uni(0.4, 0.9); s.vol = 4 * M_PI / 3 * s.a * s.a * s.a; s.area = 4 * M_PI * s.a * s.a; s.rmin = s.a; }
  if (s.kind == 1) { s.a = ctx.rng.uni(0.5, 0.6); s.b = ctx.rng.uni(0.2, 0.32); s.vol = 2 * M_PI * M_PI * s.a * s.b * s.b; s.area = 4 * M_PI * M_PI * s.a * s.b; s.rmin = std::min(s.b, s.a - s.b); }
  if (s.kind == 2) { for (double &v: s.e) { v = ctx.rng.uni(0.3, 0.85); } s.vol = 8 * s.e[0] * s.e[1] * s.e[2]; s.area = 8 * (s.e[0] * s.e[1] + s.e[1] * s.e[2] + s.e[2] * s.e[0]); s.rmin = std::min(s.e[0], std::min(s.e[1], s.e[2])); s.smooth = false; }
  if (s.kind == 3) { s.a = ctx.rng.uni(0.3, 0.45); s.b = ctx.rng.uni(0.1, 0.45); s.vol = 4 * M_PI / 3 * s.a * s.a * s.a + M_PI * s.a * s.a * 2 * s.b; s.area = 4 * M_PI * s.a * s.a + 2 * M_PI * s.a * 2 * s.b; s.rmin = s.a; }
  if (s.kind == 4) { s.a = ctx.rng.uni(0.75, 0.9); s.b = ctx.rng.uni(0.3, 0.4); s.vol = 4 * M_PI / 3 * (s.a * s.a * s.a - s.b * s.b * s.b); s.area = 4 * M_PI * (s.a * s.a + s.b * s.b); s.rmin = s.b; }
  ctx.count(vh::fmt("solid_%d", s.kind));
  return s;
}
struct IssIn : dfm2::CInput_IsosurfaceStuffing {
  Solid s; int lvol = -1, lsrf = -1, nlayer = 1; bool graded = false; int region = 0; double half[3]; double clear = -1, lo[3], hi[3];
  double SignedDistance(double x, double y, double z) const override { return s.sd(x, y, z); }
  void Level(int &v, int &f, int &nl, double &sdf, double x, double y, double z) const override {
    if (!graded) { dfm2::CInput_IsosurfaceStuffing::Level(v, f, nl, sdf, x, y, z); return; }
    sdf = s.sd(x, y, z);
    bool in = region == 0 || (half[0] * x + half[1] * y + half[2] * z > 0);
    if (clear > 0) { double p[3] = {x, y, z}; for (int k = 0; k < 3; ++k) { if (p[k] - lo[k] < clear || hi[k] - p[k] < clear) { in = false; } } }
    v = in ? lvol : -1; f = in ? lsrf : -1; nl = nlayer;
  }
};
VH_FAMILY_CPU(lattice, 60, 500, 900) {
  IssIn in;
  in.s = make_solid(ctx);
  in.graded = ctx.rng.chance(0.85);
  in.lvol = ctx.rng.irange(-1, 2); in.lsrf = ctx.rng.irange(-1, 2); in.nlayer = ctx.rng.irange(1, 2); in.region = ctx.rng.irange(0, 1);
  for (double &h: in.half) { h = ctx.rng.gauss(); }
  int ndiv = in.graded ? ctx.rng.irange(5, 9) : ctx.rng.irange(1, 6);
  double elen = ctx.rng.uni(0.2, 0.5), org[3];
  for (double &o: org) { o = -0.5 * elen * ndiv + ctx.rng.uni(-0.2, 0.2); }
  // the refined region stays away from the faces of the box, so that cells at the box keep the coarsest level
  in.clear = (std::max(in.lvol, in.lsrf) > 1 ? 3.01 : 1.51) * elen;
  bool at_box = in.graded && ctx.rng.chance(0.3);
  if (at_box) { in.clear = -1; ctx.count("lattice_at_box"); }
  for (int k = 0; k < 3; ++k) { in.lo[k] = org[k]; in.hi[k] = org[k] + elen * ndiv; }
  std::vector<dfm2::CPointLattice> P;
  std::vector<unsigned> T;
  dfm2::makeBackgroundLattice(P, T, in, elen, ndiv, org);
  double vol = 0, vmin = 1e300, tiny = elen * elen * elen;
  std::set<std::array<double, 3>> pos;
  for (auto &p: P) {
    CKN(p.sdf, in.s.sd(p.pos[0], p.pos[1], p.pos[2]), 1e-9, "signed distance stored at a lattice point", "");
    pos.insert({p.pos[0], p.pos[1], p.pos[2]});
  }
  std::vector<std::array<unsigned, 3>> bnd;
  for (unsigned i: T) { if (!CK(i < P.size(), "lattice index in range", "levels %d %d", in.lvol, in.lsrf)) { return; } }
  if (!at_box && !conforming(ctx, T, P.size(), bnd, "lattice")) { return; }  // refined cells at the box may have hanging nodes there
  std::vector<bool> used(P.size(), false);
  for (size_t it = 0; it < T.size() / 4; ++it) {
    double v = tetvol(P[T[it * 4]].pos, P[T[it * 4 + 1]].pos, P[T[it * 4 + 2]].pos, P[T[it * 4 + 3]].pos);
    vol += v; vmin = std::min(vmin, v);
    for (int k = 0; k < 4; ++k) { used[T[it * 4 + k]] = true; }
  }
  CK(vmin > 1e-9 * tiny, "lattice tetrahedra positively oriented", "smallest volume %g", vmin);
  CKN(vol, std::pow(elen * ndiv, 3), 1e-9, "lattice fills its box", "%d divisions, levels %d %d", ndiv, in.lvol, in.lsrf);
  for (auto &f: bnd) {
    bool on = false;
    for (int k = 0; k < 3; ++k) for (int sgn = 0; sgn < 2; ++sgn) {
      double x = org[k] + (sgn ? elen * ndiv : 0);
      if (std::fabs(P[f[0]].pos[k] - x) < 1e-9 && std::fabs(P[f[1]].pos[k] - x) < 1e-9 && std::fabs(P[f[2]].pos[k] - x) < 1e-9) { on = true; }
    }
    if (!CK(on, "boundary faces of the lattice are on its box", "levels %d %d region %d, face around %g %g %g elen %g clear %g, box %g %g %g + %g", in.lvol, in.lsrf, in.region, P[f[0]].pos[0], P[f[0]].pos[1], P[f[0]].pos[2], elen, in.clear, org[0], org[1], org[2], elen * ndiv)) { return; }
  }
  ctx.count("lattice_tets", T.size() / 4);
  if (in.graded && (in.lvol > 0 || in.lsrf > 0)) { ctx.count("lattice_graded"); }
  ctx.sig(vh::Hash().u(P.size()).u(T.size()).d(vol).h);
}
VH_FAMILY_CPU(stuffing, 40, 300, 900) {
  IssIn in;
  in.s = make_solid(ctx);
  in.graded = ctx.rng.chance(0.6);
  in.lvol = ctx.rng.irange(-1, 1); in.lsrf = ctx.rng.irange(-1, 2); in.nlayer = ctx.rng.irange(1, 2); in.region = ctx.rng.chance(0.4);
  for (double &h: in.half) { h = ctx.rng.gauss(); }
  double elen = ctx.rng.uni(0.09, 0.2), width = ctx.rng.uni(2.4, 3.0), cen[3];
  if (in.graded && in.lsrf >= 1) { elen = ctx.rng.uni(0.2, 0.35); }
  for (double &c: cen) { c = ctx.rng.uni(-0.1, 0.1); }
  double hh = width / std::max(1, (int) (width / elen));
  in.clear = (std::max(in.lvol, in.lsrf) > 1 ? 3.01 : 1.51) * hh;
  if (in.graded) { double need = 2 * (1.0 + in.clear); if (width < need) { width = need; } in.clear = std::min(in.clear, 0.45 * width); }
  for (int k = 0; k < 3; ++k) { in.lo[k] = cen[k] - 0.5 * width; in.hi[k] = cen[k] + 0.5 * width; }
  std::vector<double> X; std::vector<unsigned> T; std::vector<int> flg;
  if (!CK(dfm2::IsoSurfaceStuffing(X, T, flg, in, elen, width, cen), "stuffing succeeds", "")) { return; }
  CK(flg.size() == X.size() / 3, "one surface flag per point", "%zu", flg.size());
  std::vector<std::array<unsigned, 3>> bnd;
  if (!conforming(ctx, T, X.size() / 3, bnd, "stuffing")) { return; }
  double h = width / std::max(1, (int) (width / elen));
  double vol = 0, vmin = 1e300;
  for (size_t it = 0; it < T.size() / 4; ++it) {
    double v = tetvol(&X[T[it * 4] * 3], &X[T[it * 4 + 1] * 3], &X[T[it * 4 + 2] * 3], &X[T[it * 4 + 3] * 3]);
    vol += v; vmin = std::min(vmin, v);
  }
  if (!CK(!T.empty(), "the solid gets tetrahedra", "")) { return; }
  CK(vmin > 0, "tetrahedra positively oriented", "smallest volume %g, edge %g, levels %d %d", vmin, h, in.lvol, in.lsrf);
  double hs = h, ts = in.s.smooth ? hs * hs / (2 * in.s.rmin) : 0.3 * hs;
  // an edge of the lattice may pass a crease of the distance inside a thin part
  if (in.s.smooth && hs > in.s.rmin) { ts = 0.3 * hs; }
  CK(std::fabs(vol - in.s.vol) <= in.s.area * 0.5 * ts + 1e-9, "volume approximates the solid", "kind %d edge %g: %g vs %g", in.s.kind, h, vol, in.s.vol);
  std::vector<bool> onb(X.size() / 3, false);
  for (auto &f: bnd) { for (unsigned i: f) { onb[i] = true; } }
  for (size_t i = 0; i < X.size() / 3 && !ctx.failed; ++i) {
    double s = in.s.sd(X[i * 3], X[i * 3 + 1], X[i * 3 + 2]);
    CK((flg[i] == 0) || (flg[i] == 1), "surface flag is 0 or 1", "%d", flg[i]);
    if (onb[i]) { CK(flg[i] == 1, "points of the boundary are flagged as surface points", "point %zu", i); ctx.count("surface_points"); }
    if (flg[i] == 1) { CK(std::fabs(s) <= ts, "surface points lie on the surface", "kind %d edge %g: distance %g", in.s.kind, h, s); }
    else { CK(s >= 0, "inner points lie inside", "distance %g", s); ctx.count("inner_points"); }
  }
  // orientation of the boundary: outward
  double vb = 0;
  for (auto &f: bnd) { double o[3] = {0, 0, 0}; vb += tetvol(o, &X[f[0] * 3], &X[f[1] * 3], &X[f[2] * 3]); }
  CKN(vb, vol, 1e-9, "boundary encloses the tetrahedra", "");
  ctx.count("stuffed_tets", T.size() / 4);
  if (in.graded) { ctx.count("stuffed_graded"); }
  ctx.sig(vh::Hash().u(X.size()).u(T.size()).d(vol).h);
}
struct AdfIn : dfm2::Input_AdaptiveDistanceField3 {
  Solid s;
  double sdf(double x, double y, double z) const override { return s.sd(x, y, z); }
};
VH_FAMILY_CPU(adf, 16, 120, 900) {
  AdfIn in;
  in.s = make_solid(ctx);
  double bb[6];
  for (int k = 0; k < 3; ++k) { double m = ctx.rng.uni(1.0, 1.3); bb[2 * k] = -m + ctx.rng.uni(-0.05, 0.05); bb[2 * k + 1] = m; }
  dfm2::AdaptiveDistanceField3 adf;
  adf.SetUp(in, bb);
  // the octree: children split their parent, corner values are the distances there
  double root = adf.aNode[0].hw_, minhw = root / 64.0;
  for (int k = 0; k < 3; ++k) { CK(adf.aNode[0].cent_[k] - root <= bb[2 * k] && adf.aNode[0].cent_[k] + root >= bb[2 * k + 1], "root covers the bounding box", "axis %d", k); }
  static const int C[8][3] = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}};
  std::vector<int> nref(adf.aNode.size(), 0);
  double dmin = 1e300, dmax = -1e300, volleaf = 0;
  for (auto &no: adf.aNode) {
    for (int i = 0; i < 8; ++i) {
      double v = in.s.sd(no.cent_[0] + C[i][0] * no.hw_, no.cent_[1] + C[i][1] * no.hw_, no.cent_[2] + C[i][2] * no.hw_);
      if (!CKN(no.dists_[i], v, 1e-9, "distance stored at a corner of a cell", "corner %d", i)) { return; }
      dmin = std::min(dmin, v); dmax = std::max(dmax, v);
    }
    if (no.ichilds_[0] == -1) { volleaf += 8 * no.hw_ * no.hw_ * no.hw_; ctx.count("leaves"); continue; }
    for (int i = 0; i < 8; ++i) {
      int j = no.ichilds_[i];
      if (!CK(j > 0 && j < (int) adf.aNode.size(), "child index in range", "%d", j)) { return; }
      nref[(size_t) j]++;
      auto &ch = adf.aNode[(size_t) j];
      CKN(ch.hw_, no.hw_ * 0.5, 1e-12, "child half as large", "");
      for (int k = 0; k < 3; ++k) { CKN(ch.cent_[k], no.cent_[k] + C[i][k] * 0.5 * no.hw_, 1e-9, "child in its octant", "octant %d", i); }
    }
  }
  for (size_t i = 1; i < nref.size(); ++i) { if (!CK(nref[i] == 1, "every cell has one parent", "%d", nref[i])) { return; } }
  CKN(volleaf, 8 * root * root * root, 1e-6, "leaves fill the box", "");
  CKN(adf.dist_min, dmin, 1e-9, "smallest distance", ""); CKN(adf.dist_max, dmax, 1e-9, "largest distance", "");
  // queries
  for (int iq = 0; iq < 400 && !ctx.failed; ++iq) {
    double p[3], n[3];
    for (int k = 0; k < 3; ++k) { p[k] = adf.aNode[0].cent_[k] + ctx.rng.uni(-0.999, 0.999) * root; }
    if (iq % 2) {  // near the surface
      for (int it = 0; it < 8; ++it) {
        double s = in.s.sd(p[0], p[1], p[2]), g[3], hh = 1e-5, gg = 0;
        for (int k = 0; k < 3; ++k) { double a[3] = {p[0], p[1], p[2]}, b[3] = {p[0], p[1], p[2]}; a[k] += hh; b[k] -= hh; g[k] = (in.s.sd(a[0], a[1], a[2]) - in.s.sd(b[0], b[1], b[2])) / (2 * hh); gg += g[k] * g[k]; }
        if (gg < 0.25) { break; }
        for (int k = 0; k < 3; ++k) { p[k] -= s * g[k] / gg; }
      }
      for (double &x: p) { x += ctx.rng.uni(-1, 1) * minhw; }
    }
    double s = in.s.sd(p[0], p[1], p[2]);
    double r = adf.Projection(p[0], p[1], p[2], n);
    // leaf of the point
    size_t in_ = 0;
    while (adf.aNode[in_].ichilds_[0] != -1) {
      auto &no = adf.aNode[in_];
      int sx = p[0] < no.cent_[0] ? -1 : 1, sy = p[1] < no.cent_[1] ? -1 : 1, sz = p[2] < no.cent_[2] ? -1 : 1;
      for (int i = 0; i < 8; ++i) { if (C[i][0] == sx && C[i][1] == sy && C[i][2] == sz) { in_ = (size_t) no.ichilds_[i]; break; } }
    }
    auto &lf = adf.aNode[in_];
    double v = 0, g[3] = {0, 0, 0};
    for (int i = 0; i < 8; ++i) {
      double wgt[3];
      for (int k = 0; k < 3; ++k) { wgt[k] = 0.5 * (1 + C[i][k] * (p[k] - lf.cent_[k]) / lf.hw_); }
      v += wgt[0] * wgt[1] * wgt[2] * lf.dists_[i];
      for (int k = 0; k < 3; ++k) { g[k] += 0.5 * C[i][k] / lf.hw_ * wgt[(k + 1) % 3] * wgt[(k + 2) % 3] * lf.dists_[i]; }
    }
    CKN(r, v, 1e-9, "distance interpolated in the cell of the point", "");
    CK(std::fabs(r - s) <= 2 * std::sqrt(3.0) * lf.hw_ + 1e-9, "distance within the size of the cell", "%g vs %g, cell %g", r, s, lf.hw_);
    double gl = std::sqrt(g[0] * g[0] + g[1] * g[1] + g[2] * g[2]);
    if (gl > 1e-3) { for (int k = 0; k < 3; ++k) { CKN(n[k], -g[k] / gl, 1e-6, "unit normal against the gradient of the interpolated distance", "axis %d", k); } ctx.count("normals"); }
    if (std::fabs(s) < minhw) { CK(std::fabs(r - s) <= (in.s.smooth ? 1.2 : 2.5) * minhw, "distance near the surface within the smallest cell", "kind %d: %g vs %g, cell %g", in.s.kind, r, s, minhw); ctx.count("near_surface"); }
    ctx.count("queries");
  }
  for (int iq = 0; iq < 10; ++iq) {  // outside the box
    double p[3], n[3], d[3], l = 0;
    for (int k = 0; k < 3; ++k) { d[k] = ctx.rng.gauss(); l = std::max(l, std::fabs(d[k])); }
    double sc = ctx.rng.uni(1.01, 3) * root / l, dl = 0;
    for (int k = 0; k < 3; ++k) { d[k] *= sc; p[k] = adf.aNode[0].cent_[k] + d[k]; dl += d[k] * d[k]; }
    double r = adf.Projection(p[0], p[1], p[2], n);
    CK(r < 0, "points outside the field are outside the solid", "%g", r);
    for (int k = 0; k < 3; ++k) { CKN(n[k], d[k] / std::sqrt(dl), 1e-9, "outside the field the normal is the unit vector away from its centre", "axis %d: %g", k, n[k]); }
    ctx.count("outside_queries");
  }
  // marching cubes
  std::vector<double> tri;
  adf.BuildIsoSurface_MarchingCube(tri);
  if (!CK(tri.size() % 9 == 0 && !tri.empty(), "triangles of the surface", "%zu", tri.size())) { return; }
  double vol = 0, area = 0, bad = 0;
  for (size_t it = 0; it < tri.size() / 9 && !ctx.failed; ++it) {
    const double *a = &tri[it * 9], *b = a + 3, *c = a + 6;
    double o[3] = {0, 0, 0}, u[3], w[3], m[3], ml = 0;
    vol += tetvol(o, a, b, c);
    for (int k = 0; k < 3; ++k) { u[k] = b[k] - a[k]; w[k] = c[k] - a[k]; }
    for (int k = 0; k < 3; ++k) { m[k] = 0.5 * (u[(k + 1) % 3] * w[(k + 2) % 3] - u[(k + 2) % 3] * w[(k + 1) % 3]); ml += m[k] * m[k]; }
    ml = std::sqrt(ml); area += ml;
    double gc[3] = {(a[0] + b[0] + c[0]) / 3, (a[1] + b[1] + c[1]) / 3, (a[2] + b[2] + c[2]) / 3}, gd = 0;
    for (int k = 0; k < 3; ++k) { double p[3] = {gc[0], gc[1], gc[2]}, q[3] = {gc[0], gc[1], gc[2]}; p[k] += 1e-6; q[k] -= 1e-6; gd += m[k] * (in.s.sd(p[0], p[1], p[2]) - in.s.sd(q[0], q[1], q[2])) / 2e-6; }
    if (gd > 0) { bad += ml; }
    for (int k = 0; k < 3; ++k) {
      double s = in.s.sd(a[k * 3], a[k * 3 + 1], a[k * 3 + 2]);
      CK(std::fabs(s) <= (in.s.smooth ? 1.2 : 2.5) * minhw, "surface vertices lie on the surface", "kind %d: distance %g, cell %g", in.s.kind, s, minhw);
    }
    ctx.count("mc_triangles");
  }
  CK(bad < 0.01 * area, "surface triangles face outward", "area %g of %g faces inward", bad, area);
  CKN(area, in.s.area, 0.05 * in.s.area, "area of the surface", "kind %d", in.s.kind);
  CKN(vol, in.s.vol, 0.03 * in.s.vol + in.s.area * 0.1 * minhw, "volume enclosed by the surface", "kind %d", in.s.kind);
  ctx.sig(vh::Hash().u(adf.aNode.size()).d(vol).h);
}
