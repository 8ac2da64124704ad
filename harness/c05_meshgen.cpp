// C05: generators, subdivision and integral quantities of meshes
#include "../lib/trimesh.h"
#include "delfem2/msh_primitive.h"
#include "delfem2/mshsubdiv.h"
#include "delfem2/msh_geodesic_polyhedron.h"
#include "delfem2/mshmisc.h"
#include "delfem2/msh_normal.h"
#include "delfem2/msh_center_of_gravity.h"
#include "delfem2/msh_boundingbox.h"
#include "delfem2/msh_affine_transformation.h"
#include "delfem2/msh_unindexed.h"
#include "delfem2/msh_topology_uniform.h"
namespace dfm2 = delfem2;
typedef std::vector<unsigned> VU;
typedef std::vector<double> VD;
typedef std::array<double, 3> V3;

static V3 P(const VD &x, unsigned i) { return {x[i * 3], x[i * 3 + 1], x[i * 3 + 2]}; }
static V3 sub(V3 a, V3 b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static V3 add(V3 a, V3 b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
static V3 mul(V3 a, double s) { return {a[0] * s, a[1] * s, a[2] * s}; }
static double dot(V3 a, V3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static V3 cross(V3 a, V3 b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static double len(V3 a) { return std::sqrt(dot(a, a)); }
static double vol4(V3 a, V3 b, V3 c, V3 d) { return dot(cross(sub(b, a), sub(c, a)), sub(d, a)) / 6; }
static double area3(V3 a, V3 b, V3 c) { return len(cross(sub(b, a), sub(c, a))) / 2; }

static double volume(const VD &x, const VU &t) {
  double v = 0;
  for (size_t i = 0; i < t.size(); i += 3) v += dot(P(x, t[i]), cross(P(x, t[i + 1]), P(x, t[i + 2]))) / 6;
  return v;
}
static double area(const VD &x, const VU &t) {
  double v = 0;
  for (size_t i = 0; i < t.size(); i += 3) v += area3(P(x, t[i]), P(x, t[i + 1]), P(x, t[i + 2]));
  return v;
}
template<class T> static VD dbl(const std::vector<T> &v) { return VD(v.begin(), v.end()); }
template<class T> static std::vector<T> junk(vh::Ctx &ctx) {
  std::vector<T> v(ctx.rng.irange(0, 40));
  for (auto &e: v) e = (T) ctx.rng.irange(0, 1000);
  return v;
}

// indices valid, every point used, edges matched
static bool indices_ok(vh::Ctx &ctx, const char *what, const VD &x, const VU &t, bool allused) {
  unsigned np = x.size() / 3;
  std::vector<char> used(np, 0);
  ctx.check(x.size() % 3 == 0 && t.size() % 3 == 0, what, "array sizes are not multiples of three");
  for (auto i: t) {
    if (i >= np) { ctx.fail(what, vh::fmt("index %u of %u points", i, np)); return false; }
    used[i] = 1;
  }
  if (allused)
    for (unsigned i = 0; i < np; ++i)
      if (!used[i]) { ctx.fail(what, vh::fmt("point %u of %u is in no triangle", i, np)); return false; }
  for (size_t i = 0; i < x.size(); ++i)
    if (!std::isfinite(x[i])) { ctx.fail(what, "non-finite coordinate"); return false; }
  return true;
}
static bool closed_ok(vh::Ctx &ctx, const char *what, const VD &x, const VU &t, int euler) {
  if (!indices_ok(ctx, what, x, t, true)) return false;
  auto tp = tmx::topo(t);
  CK(tp.closed && tp.oriented_manifold_edges, what, "open or inconsistently oriented: %zu boundary edges, oriented=%d", tp.boundary.size(), (int) tp.oriented_manifold_edges);
  CK(tmx::vertex_manifold(t), what, "a vertex has more than one fan");
  CK(tp.ncomp == 1, what, "%d components", tp.ncomp);
  CK(tp.euler() == euler, what, "Euler characteristic %ld, expected %d", tp.euler(), euler);
  CK(volume(x, t) > 0, what, "signed volume %g is not positive: inward orientation", volume(x, t));
  for (size_t i = 0; i < t.size(); i += 3)
    CK(area3(P(x, t[i]), P(x, t[i + 1]), P(x, t[i + 2])) > 0, what, "triangle %zu has no area", i / 3);
  ctx.count("closed_meshes");
  return true;
}

template<class T> static void generators(vh::Ctx &ctx, double tol) {
  auto &r = ctx.rng;
  int kind = r.irange(0, 7);
  std::vector<T> xt = junk<T>(ctx);
  VU t = junk<unsigned>(ctx);
  double R = r.uni(0.05, 20), L = r.uni(0.05, 20);
  double Rf = (T) R, Lf = (T) L;
  ctx.sig(vh::Hash().u(kind).d(R).d(L));
  if (kind == 0) {
    unsigned nlo = r.irange(2, 20), nla = r.irange(3, 24);
    dfm2::MeshTri3D_Sphere<T>(xt, t, (T) R, nlo, nla);
    VD x = dbl(xt);
    CK(x.size() / 3 == nla * (nlo - 1) + 2 && t.size() / 3 == 2 * nla * (nlo - 1), "sphere: counts follow the resolution", "%zu points %zu tris (%u,%u)", x.size() / 3, t.size() / 3, nlo, nla);
    if (!closed_ok(ctx, "sphere is closed and outward", x, t, 2)) return;
    for (unsigned i = 0; i < x.size() / 3; ++i) CKN(len(P(x, i)), Rf, tol * Rf, "sphere: vertex on the surface", "vertex %u", i);
    for (size_t i = 0; i < t.size(); i += 3) {
      V3 a = P(x, t[i]), b = P(x, t[i + 1]), c = P(x, t[i + 2]);
      CK(dot(cross(sub(b, a), sub(c, a)), add(a, add(b, c))) > 0, "sphere: every triangle faces outward", "triangle %zu", i / 3);
    }
    V3 top = P(x, 0), bot = P(x, x.size() / 3 - 1);
    CKN(top[1], Rf, tol * Rf, "sphere: pole on the y axis", "");
    CKN(bot[1], -Rf, tol * Rf, "sphere: pole on the y axis", "");
    for (unsigned i = 1; i < nlo; ++i)
      for (unsigned j = 0; j < nla; ++j)
        CKN(P(x, 1 + (i - 1) * nla + j)[1], Rf * std::cos(M_PI * i / nlo), 5 * tol * Rf, "sphere: rings at equal polar angles", "ring %u", i);
  } else if (kind == 1) {
    unsigned nr = r.irange(3, 24), nl = r.irange(1, 12);
    dfm2::MeshTri3D_CylinderOpen<T>(xt, t, (T) R, (T) L, nr, nl);
    VD x = dbl(xt);
    if (!indices_ok(ctx, "open cylinder", x, t, true)) return;
    CK(x.size() / 3 == nr * (nl + 1) && t.size() / 3 == 2 * nr * nl, "open cylinder: counts", "%zu %zu", x.size() / 3, t.size() / 3);
    auto tp = tmx::topo(t);
    CK(tp.oriented_manifold_edges && tmx::vertex_manifold(t) && tp.ncomp == 1 && tp.euler() == 0, "open cylinder: oriented manifold", "euler %ld", tp.euler());
    CK(tp.boundary.size() == 2 * nr, "open cylinder: boundary is the two end circles", "%zu boundary edges", tp.boundary.size());
    for (auto &b: tp.boundary)
      for (unsigned v: {b.first, b.second}) CKN(std::fabs(P(x, v)[1]), Lf / 2, tol * Lf, "open cylinder: boundary lies at the two ends", "");
    for (unsigned i = 0; i < x.size() / 3; ++i) CKN(std::hypot(P(x, i)[0], P(x, i)[2]), Rf, tol * Rf, "open cylinder: vertex on the surface", "");
    for (size_t i = 0; i < t.size(); i += 3) {
      V3 a = P(x, t[i]), b = P(x, t[i + 1]), c = P(x, t[i + 2]), g = add(a, add(b, c));
      g[1] = 0;
      CK(dot(cross(sub(b, a), sub(c, a)), g) > 0, "open cylinder: faces outward", "triangle %zu", i / 3);
    }
    ctx.count("open_meshes");
  } else if (kind == 2) {
    unsigned nr = r.irange(3, 24), nl = r.irange(1, 12);
    dfm2::MeshTri3D_CylinderClosed<T>(xt, t, (T) R, (T) L, nr, nl);
    VD x = dbl(xt);
    CK(x.size() / 3 == nr * (nl + 1) + 2 && t.size() / 3 == 2 * nr * (nl + 1), "closed cylinder: counts", "%zu %zu", x.size() / 3, t.size() / 3);
    if (!closed_ok(ctx, "closed cylinder is closed and outward", x, t, 2)) return;
    double va = 0.5 * nr * std::sin(2 * M_PI / nr) * Rf * Rf * Lf;
    CKN(volume(x, t), va, 20 * tol * va, "closed cylinder: volume of the prism", "");
    for (unsigned i = 0; i < x.size() / 3; ++i) {
      bool cap = i == 0 || i + 1 == x.size() / 3;
      CKN(std::hypot(P(x, i)[0], P(x, i)[2]), cap ? 0 : Rf, tol * Rf, "closed cylinder: vertex on the surface", "vertex %u", i);
      if (cap) CKN(P(x, i)[1], i == 0 ? -Lf / 2 : Lf / 2, tol * Lf, "closed cylinder: cap centre", "");
    }
  } else if (kind == 3) {
    unsigned n = r.irange(1, 8);
    dfm2::MeshTri3D_Cube<T>(xt, t, n);
    VD x = dbl(xt);
    CK(t.size() / 3 == 12 * n * n && x.size() / 3 == 6 * n * n + 2, "cube: counts", "n=%u %zu %zu", n, x.size() / 3, t.size() / 3);
    if (!closed_ok(ctx, "cube is closed and outward", x, t, 2)) return;
    CKN(volume(x, t), 1, 20 * tol, "cube: unit volume", "");
    CKN(area(x, t), 6, 50 * tol, "cube: area", "");
    for (unsigned i = 0; i < x.size() / 3; ++i) {
      V3 p = P(x, i);
      CKN(std::max({std::fabs(p[0]), std::fabs(p[1]), std::fabs(p[2])}), 0.5, tol, "cube: vertex on the surface", "");
    }
    for (size_t i = 0; i < t.size(); i += 3)
      CKN(area3(P(x, t[i]), P(x, t[i + 1]), P(x, t[i + 2])), 0.5 / (n * n), 10 * tol, "cube: equal triangles", "");
  } else if (kind == 4) {
    unsigned na = r.irange(3, 20), nb = r.irange(3, 16);
    double r1 = r.uni(0.02, 0.9) * R, r1f = (T) r1;
    dfm2::MeshTri3_Torus<T>(xt, t, (T) R, (T) r1, na, nb);
    VD x = dbl(xt);
    CK(x.size() / 3 == na * nb && t.size() / 3 == 2 * na * nb, "torus: counts", "%zu %zu", x.size() / 3, t.size() / 3);
    if (!closed_ok(ctx, "torus is closed and outward", x, t, 0)) return;
    for (unsigned i = 0; i < x.size() / 3; ++i) {
      V3 p = P(x, i);
      CKN(std::hypot(std::hypot(p[0], p[1]) - Rf, p[2]), r1f, tol * (Rf + r1f), "torus: vertex on the surface", "vertex %u", i);
    }
  } else if (kind == 5) {
    REP:;
    unsigned nc = r.irange(3, 16), nr = r.irange(1, 8), nl = r.irange(1, 8);
    if (2 * nr + nl < 3) goto REP;
    dfm2::MeshTri3_Capsule<T>(xt, t, (T) R, (T) L, nc, nr, nl);
    VD x = dbl(xt);
    if (!closed_ok(ctx, "capsule is closed and outward", x, t, 2)) return;
    CK(x.size() / 3 == nc * (2 * nr + nl - 1) + 2, "capsule: counts", "%zu points nc=%u nr=%u nl=%u", x.size() / 3, nc, nr, nl);
    for (unsigned i = 0; i < x.size() / 3; ++i) {
      V3 p = P(x, i);
      double y = std::max(-Lf / 2, std::min(Lf / 2, p[1]));
      CKN(len({p[0], p[1] - y, p[2]}), Rf, 5 * tol * (Rf + Lf), "capsule: vertex at the radius from the axis segment", "vertex %u y=%g", i, p[1]);
    }
  } else if (kind == 6) {
    unsigned nx = r.irange(1, 5), ny = r.irange(1, 5), nz = r.irange(1, 5);
    VU h = junk<unsigned>(ctx);
    dfm2::MeshHex3_Grid<T>(xt, h, nx, ny, nz, (T) R);
    VD x = dbl(xt);
    CK(h.size() == 8 * nx * ny * nz && x.size() == 3 * (nx + 1) * (ny + 1) * (nz + 1), "hex grid: counts", "");
    std::set<std::array<long, 3>> cells, pts;
    for (unsigned i = 0; i < x.size() / 3; ++i) pts.insert({std::lround(x[i * 3] / Rf), std::lround(x[i * 3 + 1] / Rf), std::lround(x[i * 3 + 2] / Rf)});
    CK(pts.size() == x.size() / 3, "hex grid: distinct lattice points", "");
    static const int off[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
    for (size_t i = 0; i < h.size() / 8; ++i) {
      V3 o = P(x, h[i * 8]);
      for (int k = 0; k < 8; ++k) {
        if (h[i * 8 + k] >= x.size() / 3) { ctx.fail("hex grid: index", ""); return; }
        V3 q = P(x, h[i * 8 + k]);
        for (int d = 0; d < 3; ++d) CKN(q[d], o[d] + off[k][d] * Rf, tol * Rf * 10, "hex grid: node order of a hexahedron", "cell %zu node %d", i, k);
      }
      cells.insert({std::lround(o[0] / Rf), std::lround(o[1] / Rf), std::lround(o[2] / Rf)});
    }
    CK(cells.size() == nx * ny * nz, "hex grid: each cell once", "");
    ctx.count("open_meshes");
  } else {
    T b0[3], b1[3];
    for (int d = 0; d < 3; ++d) { b0[d] = (T) r.uni(-5, 5); b1[d] = b0[d] + (T) r.uni(0.1, 5); }
    VU q;
    dfm2::MeshQuad3_CubeVox<T>(xt, q, b0, b1);
    VD x = dbl(xt);
    CK(x.size() == 24 && q.size() == 24, "box of quads: counts", "");
    for (int i = 0; i < 8; ++i)
      for (int d = 0; d < 3; ++d) CKN(x[i * 3 + d], (double) ((i >> d & 1) ? b1[d] : b0[d]), 0., "box of quads: node i has the bits of i", "");
    VU tt;
    for (int i = 0; i < 6; ++i) for (int k: {0, 1, 2, 0, 2, 3}) tt.push_back(q[i * 4 + k]);
    closed_ok(ctx, "box of quads is closed and outward", x, tt, 2);
    double v = 1;
    for (int d = 0; d < 3; ++d) v *= b1[d] - b0[d];
    CKN(volume(x, tt), v, 1e-5 * v, "box of quads: volume", "");
    for (int i = 0; i < 6; ++i)
      for (int k = 0; k < 4; ++k) CK(((q[i * 4 + k] >> (i / 2)) & 1u) == (unsigned) (i & 1), "box of quads: face order -x +x -y +y -z +z", "");
  }
}
VH_FAMILY(gen_double, 3000, 40000) { generators<double>(ctx, 2e-9); }
VH_FAMILY(gen_float, 2000, 30000) { generators<float>(ctx, 2e-5); }

VH_FAMILY(gen_fixed, 300, 3000) {
  auto &r = ctx.rng;
  {
    VD x = junk<double>(ctx);
    VU t = junk<unsigned>(ctx);
    dfm2::MeshTri3D_Icosahedron(x, t);
    closed_ok(ctx, "icosahedron is closed and outward", x, t, 2);
    for (size_t i = 0; i < t.size(); i += 3)
      for (int k = 0; k < 3; ++k) CKN(len(sub(P(x, t[i + k]), P(x, t[i + (k + 1) % 3]))), 2., 1e-12, "icosahedron: edges have equal length", "");
    CK(t.size() == 60 && x.size() == 36, "icosahedron: counts", "");
  }
  {
    VD x = junk<double>(ctx);
    VU t = junk<unsigned>(ctx);
    MeshTri3D_GeodesicPolyhedron(x, t);
    closed_ok(ctx, "geodesic polyhedron is closed and outward", x, t, 2);
    double R = len(P(x, 0));
    for (unsigned i = 0; i < x.size() / 3; ++i) CKN(len(P(x, i)), R, 1e-9 * R, "geodesic polyhedron: vertices on one sphere", "");
    CK(t.size() == 240 && x.size() == 126, "geodesic polyhedron: counts", "%zu %zu", t.size(), x.size());
  }
  {
    VD x = junk<double>(ctx);
    VU t = junk<unsigned>(ctx);
    int nr = r.irange(1, 8), nth = r.irange(3, 20);
    double R = r.uni(0.1, 9);
    dfm2::MeshTri3D_Disk(x, t, R, nr, nth);
    ctx.sig(vh::Hash().u(nr).u(nth).d(R));
    if (indices_ok(ctx, "disk", x, t, true)) {
      auto tp = tmx::topo(t);
      CK(tp.oriented_manifold_edges && tmx::vertex_manifold(t) && tp.ncomp == 1 && tp.euler() == 1, "disk: oriented manifold", "euler %ld", tp.euler());
      CK((int) tp.boundary.size() == nth && (int) x.size() / 3 == 1 + nr * nth && (int) t.size() / 3 == nth * (2 * nr - 1), "disk: boundary circle and counts", "%zu", tp.boundary.size());
      for (auto &b: tp.boundary) CKN(len(P(x, b.first)), R, 1e-8 * R, "disk: boundary at the radius", "");
      double a = 0.5 * nth * std::sin(2 * M_PI / nth) * R * R;
      CKN(area(x, t), a, 1e-7 * a, "disk: area of the polygon", "");
      for (size_t i = 0; i < t.size(); i += 3) CK(cross(sub(P(x, t[i + 1]), P(x, t[i])), sub(P(x, t[i + 2]), P(x, t[i])))[1] > 0, "disk: triangles face +y", "triangle %zu", i / 3);
      ctx.count("open_meshes");
    }
  }
  {
    VD x = junk<double>(ctx);
    VU q = junk<unsigned>(ctx);
    unsigned nx = r.irange(1, 9), ny = r.irange(1, 9);
    dfm2::MeshQuad2D_Grid(x, q, nx, ny);
    CK(q.size() == 4 * nx * ny && x.size() == 2 * (nx + 1) * (ny + 1), "quad grid: counts", "");
    std::set<std::pair<long, long>> cells;
    static const int off[4][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}};
    for (size_t i = 0; i < q.size() / 4; ++i) {
      long ox = std::lround(x[q[i * 4] * 2]), oy = std::lround(x[q[i * 4] * 2 + 1]);
      cells.insert({ox, oy});
      for (int k = 0; k < 4; ++k)
        CK(q[i * 4 + k] < x.size() / 2 && x[q[i * 4 + k] * 2] == ox + off[k][0] && x[q[i * 4 + k] * 2 + 1] == oy + off[k][1], "quad grid: counter-clockwise unit cells", "cell %zu", i);
    }
    CK(cells.size() == nx * ny && cells.begin()->first == 0 && cells.rbegin()->first == (long) nx - 1, "quad grid: each cell once", "");
  }
  // degenerate resolutions give an empty mesh
  VD x(9, 1.);
  VU t(3, 0);
  if (r.chance(.5)) dfm2::MeshTri3D_Sphere<double>(x, t, 1., r.irange(0, 1), r.irange(0, 9));
  else dfm2::MeshTri3D_CylinderClosed<double>(x, t, 1., 1., r.irange(0, 2), r.irange(0, 9));
  CK(x.empty() && t.empty(), "a resolution that cannot close gives an empty mesh", "%zu", t.size());
}

// ---------------- subdivision ----------------
struct Quad { VD x; VU q; };
static Quad random_quads(vh::Ctx &ctx) {
  auto &r = ctx.rng;
  Quad m;
  int kind = r.irange(0, 3);
  if (kind == 0) { // open grid with holes
    int nx = r.irange(1, 6), ny = r.irange(1, 6);
    for (int iy = 0; iy <= ny; ++iy) for (int ix = 0; ix <= nx; ++ix) { m.x.push_back(ix + r.uni(-.3, .3)); m.x.push_back(iy + r.uni(-.3, .3)); m.x.push_back(r.uni(-1, 1)); }
    for (int iy = 0; iy < ny; ++iy)
      for (int ix = 0; ix < nx; ++ix) {
        if (r.chance(.15)) continue;
        int s = r.irange(0, 3);
        unsigned e[4] = {unsigned(iy * (nx + 1) + ix), unsigned(iy * (nx + 1) + ix + 1), unsigned((iy + 1) * (nx + 1) + ix + 1), unsigned((iy + 1) * (nx + 1) + ix)};
        for (int k = 0; k < 4; ++k) m.q.push_back(e[(k + s) % 4]);
      }
    if (m.q.empty()) m.q = {0, 1, (unsigned) nx + 2, (unsigned) nx + 1};
  } else if (kind == 1) { // torus
    int a = r.irange(3, 7), b = r.irange(3, 7);
    for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) {
        double u = 2 * M_PI * i / a, v = 2 * M_PI * j / b, R = 3 + std::cos(v);
        m.x.push_back(R * std::cos(u)); m.x.push_back(R * std::sin(u)); m.x.push_back(std::sin(v));
      }
    for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j)
        for (auto e: {i * b + j, ((i + 1) % a) * b + j, ((i + 1) % a) * b + (j + 1) % b, i * b + (j + 1) % b}) m.q.push_back(e);
  } else { // surface of a union of voxels grown into a solid block with extrusions, from triangles split into quads
    VD x0;
    VU t0;
    if (kind == 2) dfm2::MeshTri3D_Icosahedron(x0, t0); else dfm2::MeshTri3D_Cube<double>(x0, t0, r.irange(1, 3));
    // each triangle -> 3 quads (vertex, edge mid, face mid, edge mid): vertices of many valences
    m.x = x0;
    std::map<std::pair<unsigned, unsigned>, unsigned> em;
    auto mid = [&](unsigned a, unsigned b) {
      auto k = std::minmax(a, b);
      auto it = em.find({k.first, k.second});
      if (it != em.end()) return it->second;
      unsigned id = m.x.size() / 3;
      V3 p = mul(add(P(m.x, a), P(m.x, b)), .5);
      m.x.insert(m.x.end(), p.begin(), p.end());
      return em[{k.first, k.second}] = id;
    };
    for (size_t i = 0; i < t0.size(); i += 3) {
      unsigned a = t0[i], b = t0[i + 1], c = t0[i + 2];
      unsigned ab = mid(a, b), bc = mid(b, c), ca = mid(c, a), g = m.x.size() / 3;
      V3 p = mul(add(P(m.x, a), add(P(m.x, b), P(m.x, c))), 1. / 3);
      m.x.insert(m.x.end(), p.begin(), p.end());
      for (unsigned e: {a, ab, g, ca, b, bc, g, ab, c, ca, g, bc}) m.q.push_back(e);
    }
    for (auto &v: m.x) v += r.uni(-.02, .02);
  }
  // renumber
  unsigned np = m.x.size() / 3;
  VU pm(np);
  for (unsigned i = 0; i < np; ++i) pm[i] = i;
  r.shuffle(pm);
  VD x2(np * 3);
  for (unsigned i = 0; i < np; ++i) for (int d = 0; d < 3; ++d) x2[pm[i] * 3 + d] = m.x[i * 3 + d];
  m.x = x2;
  for (auto &e: m.q) e = pm[e];
  return m;
}

VH_FAMILY(subdiv_quad, 1500, 20000) {
  auto &r = ctx.rng;
  Quad m = random_quads(ctx);
  ctx.sig(vh::Hash().vd(m.x).vu(m.q));
  size_t np = m.x.size() / 3, nq = m.q.size() / 4;
  VU q1 = junk<unsigned>(ctx), pi = junk<unsigned>(ctx), ps = junk<unsigned>(ctx), ef = junk<unsigned>(ctx);
  dfm2::SubdivTopo_MeshQuad(q1, pi, ps, ef, m.q.data(), nq, np);
  // edges by definition
  std::map<std::pair<unsigned, unsigned>, std::vector<unsigned>> edges;
  for (unsigned i = 0; i < nq; ++i)
    for (int k = 0; k < 4; ++k) {
      auto e = std::minmax(m.q[i * 4 + k], m.q[i * 4 + (k + 1) % 4]);
      edges[{e.first, e.second}].push_back(i);
    }
  size_t ne = edges.size();
  CK(ps.size() == ne && ef.size() == ne * 4 && q1.size() == nq * 16, "quad subdivision: one new point per edge, four children per quad", "edges %zu/%zu children %zu", ps.size(), ne, q1.size() / 4);
  if (ctx.failed) return;
  std::map<std::pair<unsigned, unsigned>, unsigned> eid;
  for (unsigned e = 0; e < ne; ++e) {
    auto k = std::minmax(ef[e * 4], ef[e * 4 + 1]);
    auto it = edges.find({k.first, k.second});
    if (it == edges.end() || eid.count({k.first, k.second})) { ctx.fail("quad subdivision: reported parents of an edge point are an edge, each once", vh::fmt("%u-%u", k.first, k.second)); return; }
    eid[{k.first, k.second}] = e;
    std::multiset<unsigned> got, want(it->second.begin(), it->second.end());
    got.insert(ef[e * 4 + 2]);
    if (ef[e * 4 + 3] != UINT_MAX) got.insert(ef[e * 4 + 3]);
    CK(got == want, "quad subdivision: reported faces of an edge", "edge %u-%u", k.first, k.second);
    CK(dfm2::findEdge(k.first, k.second, pi, ps) == e && dfm2::findEdge(k.second, k.first, pi, ps) == e, "findEdge returns the edge's index in either direction", "edge %u-%u", k.first, k.second);
  }
  for (int c = 0; c < 10; ++c) {
    unsigned a = r.irange(0, np - 1), b = r.irange(0, np - 1);
    auto k = std::minmax(a, b);
    if (a != b && !edges.count({k.first, k.second})) CK(dfm2::findEdge(a, b, pi, ps) == UINT_MAX, "findEdge refuses pairs that are no edge", "");
  }
  // children
  for (unsigned i = 0; i < nq; ++i)
    for (int k = 0; k < 4; ++k) {
      auto ev = [&](int a) { auto e = std::minmax(m.q[i * 4 + a % 4], m.q[i * 4 + (a + 1) % 4]); return (unsigned) (np + eid[{e.first, e.second}]); };
      unsigned want[4] = {m.q[i * 4 + k], ev(k), (unsigned) (np + ne + i), ev(k + 3)};
      bool found = false;
      for (int c = 0; c < 4 && !found; ++c)
        for (int s = 0; s < 4; ++s) {
          bool eq = true;
          for (int j = 0; j < 4; ++j) eq = eq && q1[i * 16 + c * 4 + (j + s) % 4] == want[j];
          found = found || eq;
        }
      CK(found, "quad subdivision: every corner has its child with the parent's orientation", "quad %u corner %d", i, k);
    }
  ctx.count("edges_subdivided", ne);
  // linear points
  VD x1 = junk<double>(ctx);
  std::vector<int> efi(ef.begin(), ef.end());
  dfm2::SubdivPoints3_MeshQuad(x1, efi, m.q, m.x);
  CK(x1.size() == 3 * (np + ne + nq), "linear subdivision: point count", "");
  if (ctx.failed) return;
  for (unsigned i = 0; i < np; ++i) CK(len(sub(P(x1, i), P(m.x, i))) == 0, "linear subdivision keeps the old points", "");
  for (auto &e: eid) CK(len(sub(P(x1, np + e.second), mul(add(P(m.x, e.first.first), P(m.x, e.first.second)), .5))) < 1e-12, "linear subdivision: edge point is the midpoint", "edge %u-%u", e.first.first, e.first.second);
  auto fp = [&](unsigned i) { return mul(add(add(P(m.x, m.q[i * 4]), P(m.x, m.q[i * 4 + 1])), add(P(m.x, m.q[i * 4 + 2]), P(m.x, m.q[i * 4 + 3]))), .25); };
  for (unsigned i = 0; i < nq; ++i) CK(len(sub(P(x1, np + ne + i), fp(i))) < 1e-12, "linear subdivision: face point is the average", "quad %u", i);
  // Catmull-Clark, on closed vertices and boundary-fixed rule
  VD xc = junk<double>(ctx);
  dfm2::SubdivisionPoints_QuadCatmullClark(xc, q1, ef, pi, ps, m.q.data(), nq, m.x.data(), np);
  CK(xc.size() == 3 * (np + ne + nq), "Catmull-Clark: point count", "");
  if (ctx.failed) return;
  std::vector<char> bnd(np, 0);
  std::vector<std::vector<V3>> fpt(np), emid(np);
  for (unsigned i = 0; i < nq; ++i) for (int k = 0; k < 4; ++k) fpt[m.q[i * 4 + k]].push_back(fp(i));
  for (auto &e: edges) {
    unsigned a = e.first.first, b = e.first.second;
    V3 mid = mul(add(P(m.x, a), P(m.x, b)), .5);
    emid[a].push_back(mid);
    emid[b].push_back(mid);
    V3 want = mid;
    if (e.second.size() == 1) bnd[a] = bnd[b] = 1;
    else want = mul(add(mul(mid, 2), add(fp(e.second[0]), fp(e.second[1]))), .25);
    CK(len(sub(P(xc, np + eid[e.first]), want)) < 1e-11, "Catmull-Clark: edge point", "edge %u-%u (%zu faces)", a, b, e.second.size());
  }
  for (unsigned i = 0; i < nq; ++i) CK(len(sub(P(xc, np + ne + i), fp(i))) < 1e-12, "Catmull-Clark: face point", "");
  for (unsigned i = 0; i < np; ++i) {
    double n = fpt[i].size();
    if (n == 0) continue;
    V3 want = P(m.x, i);
    if (!bnd[i]) {
      V3 F = {0, 0, 0}, R = {0, 0, 0};
      for (auto &p: fpt[i]) F = add(F, mul(p, 1 / n));
      for (auto &p: emid[i]) R = add(R, mul(p, 1. / emid[i].size()));
      want = mul(add(add(F, mul(R, 2)), mul(P(m.x, i), n - 3)), 1 / n);
      ctx.count("interior_vertices_smoothed");
    }
    CK(len(sub(P(xc, i), want)) < 1e-11, bnd[i] ? "Catmull-Clark: boundary vertices stay" : "Catmull-Clark: vertex point (F + 2R + (n-3)P)/n", "vertex %u valence %g", i, n);
  }
  // a second level keeps the surface closed / open
  VU q2, pi2, ps2, ef2;
  dfm2::SubdivTopo_MeshQuad(q2, pi2, ps2, ef2, q1.data(), q1.size() / 4, np + ne + nq);
  size_t nb0 = 0, nb1 = 0;
  for (auto &e: edges) nb0 += e.second.size() == 1;
  for (size_t e = 0; e < ef2.size() / 4; ++e) nb1 += ef2[e * 4 + 3] == UINT_MAX;
  CK(nb1 == 2 * nb0 && ef2.size() / 4 == 2 * ne + 4 * nq, "subdivision: each boundary edge gives two, no other edge opens", "%zu -> %zu", nb0, nb1);
}

// block of cubes: hexes, or split into tets
static void block(vh::Ctx &ctx, VD &x, VU &hex) {
  auto &r = ctx.rng;
  int n[3] = {r.irange(1, 3), r.irange(1, 3), r.irange(1, 3)};
  double A[9], b[3];
  do {
    for (auto &v: A) v = r.uni(-1, 1);
  } while (A[0] * (A[4] * A[8] - A[5] * A[7]) - A[1] * (A[3] * A[8] - A[5] * A[6]) + A[2] * (A[3] * A[7] - A[4] * A[6]) < .1);
  for (auto &v: b) v = r.uni(-3, 3);
  auto id = [&](int i, int j, int k) { return (unsigned) ((k * (n[1] + 1) + j) * (n[0] + 1) + i); };
  for (int k = 0; k <= n[2]; ++k) for (int j = 0; j <= n[1]; ++j) for (int i = 0; i <= n[0]; ++i)
        for (int d = 0; d < 3; ++d) x.push_back(A[d * 3] * i + A[d * 3 + 1] * j + A[d * 3 + 2] * k + b[d]);
  for (int k = 0; k < n[2]; ++k) for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i) {
        if (hex.size() && r.chance(.15)) continue;
        for (unsigned e: {id(i, j, k), id(i + 1, j, k), id(i + 1, j + 1, k), id(i, j + 1, k), id(i, j, k + 1), id(i + 1, j, k + 1), id(i + 1, j + 1, k + 1), id(i, j + 1, k + 1)}) hex.push_back(e);
      }
  unsigned np = x.size() / 3;
  VU pm(np);
  for (unsigned i = 0; i < np; ++i) pm[i] = i;
  r.shuffle(pm);
  VD x2(np * 3);
  for (unsigned i = 0; i < np; ++i) for (int d = 0; d < 3; ++d) x2[pm[i] * 3 + d] = x[i * 3 + d];
  x = x2;
  for (auto &e: hex) e = pm[e];
}
static void tets_of(const VU &hex, VU &tet) {
  // Kuhn split along the 0-6 diagonal (conforming on a lattice)
  static const int K[6][4] = {{0, 1, 2, 6}, {0, 5, 1, 6}, {0, 4, 5, 6}, {0, 7, 4, 6}, {0, 3, 7, 6}, {0, 2, 3, 6}};
  for (size_t i = 0; i < hex.size(); i += 8) for (auto &k: K) for (int j: k) tet.push_back(hex[i + j]);
}
static bool conforming_tets(const VU &t, std::map<std::array<unsigned, 3>, int> &faces) {
  static const int F[4][3] = {{1, 2, 3}, {0, 3, 2}, {0, 1, 3}, {0, 2, 1}};
  // oriented faces: each face at most twice, once in each orientation
  std::map<std::array<unsigned, 3>, int> o;
  for (size_t i = 0; i < t.size(); i += 4)
    for (auto &f: F) {
      auto c = tmx::canon(t[i + f[0]], t[i + f[1]], t[i + f[2]]);
      if (++o[c] > 1) return false;
      std::array<unsigned, 3> s = c;
      std::sort(s.begin(), s.end());
      if (++faces[s] > 2) return false;
    }
  return true;
}
VH_FAMILY(subdiv_solid, 800, 10000) {
  auto &r = ctx.rng;
  VD x;
  VU hex;
  block(ctx, x, hex);
  ctx.sig(vh::Hash().vd(x).vu(hex));
  unsigned np = x.size() / 3, nh = hex.size() / 8;
  if (r.chance(.5)) {
    VU h1 = junk<unsigned>(ctx), pi = junk<unsigned>(ctx), ps = junk<unsigned>(ctx), fq = junk<unsigned>(ctx);
    dfm2::SubdivTopo_MeshHex(h1, pi, ps, fq, hex.data(), nh, np);
    std::set<std::pair<unsigned, unsigned>> es;
    std::set<std::array<unsigned, 4>> fs;
    static const int E[12][2] = {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {4, 5}, {5, 6}, {6, 7}, {7, 4}, {0, 4}, {1, 5}, {2, 6}, {3, 7}};
    static const int F[6][4] = {{0, 1, 2, 3}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}};
    for (unsigned i = 0; i < nh; ++i) {
      for (auto &e: E) { auto k = std::minmax(hex[i * 8 + e[0]], hex[i * 8 + e[1]]); es.insert({k.first, k.second}); }
      for (auto &f: F) { std::array<unsigned, 4> s; for (int k = 0; k < 4; ++k) s[k] = hex[i * 8 + f[k]]; std::sort(s.begin(), s.end()); fs.insert(s); }
    }
    CK(ps.size() == es.size() && fq.size() == 4 * fs.size() && h1.size() == 64 * nh, "hex subdivision: one point per edge, face and cell, eight children", "edges %zu/%zu faces %zu/%zu", ps.size(), es.size(), fq.size() / 4, fs.size());
    if (ctx.failed) return;
    std::set<std::array<unsigned, 4>> fs2;
    VU ei, el;
    dfm2::JArray_ElSuP_MeshElem(ei, el, fq.data(), fq.size() / 4, 4, np);
    for (size_t i = 0; i < fq.size() / 4; ++i) {
      std::array<unsigned, 4> s = {fq[i * 4], fq[i * 4 + 1], fq[i * 4 + 2], fq[i * 4 + 3]};
      int sh = r.irange(0, 3);
      CK(dfm2::findFace(s[sh], s[(sh + 1) % 4], s[(sh + 2) % 4], s[(sh + 3) % 4], fq, ei, el) == (int) i, "findFace returns the face", "face %zu", i);
      std::sort(s.begin(), s.end());
      fs2.insert(s);
    }
    CK(fs2 == fs, "hex subdivision: face list is exactly the faces", "");
    VD x1 = junk<double>(ctx);
    dfm2::SubdivisionPoints_Hex(x1, pi, ps, fq, hex.data(), nh, x.data(), np);
    CK(x1.size() / 3 == np + ps.size() + fq.size() / 4 + nh, "hex subdivision: point count", "");
    if (ctx.failed) return;
    for (auto i: h1) if (i >= x1.size() / 3) { ctx.fail("hex subdivision: index in range", ""); return; }
    // each child is the parent's affine image at half the size: node k of child c at (node c + node k)/2
    for (unsigned i = 0; i < nh; ++i)
      for (int c = 0; c < 8; ++c)
        for (int k = 0; k < 8; ++k) {
          V3 want = mul(add(P(x, hex[i * 8 + c]), P(x, hex[i * 8 + k])), .5);
          CK(len(sub(P(x1, h1[(i * 8 + c) * 8 + k]), want)) < 1e-10, "hex subdivision: child c keeps corner c and half the size", "hex %u child %d node %d", i, c, k);
        }
    ctx.count("hexes_subdivided", nh);
  } else {
    VU tet, t1 = junk<unsigned>(ctx), pi = junk<unsigned>(ctx), ps = junk<unsigned>(ctx);
    tets_of(hex, tet);
    unsigned nt = tet.size() / 4;
    dfm2::SubdivTopo_MeshTet(t1, pi, ps, tet.data(), nt, np);
    std::set<std::pair<unsigned, unsigned>> es;
    for (unsigned i = 0; i < nt; ++i) for (int a = 0; a < 4; ++a) for (int b = a + 1; b < 4; ++b) { auto k = std::minmax(tet[i * 4 + a], tet[i * 4 + b]); es.insert({k.first, k.second}); }
    CK(ps.size() == es.size() && t1.size() == 8 * tet.size(), "tet subdivision: one point per edge, eight children", "%zu/%zu", ps.size(), es.size());
    if (ctx.failed) return;
    VD x1 = x;
    for (unsigned i = 0; i < np; ++i) for (unsigned k = pi[i]; k < pi[i + 1]; ++k) {
        V3 p = mul(add(P(x, i), P(x, ps[k])), .5);
        x1.insert(x1.end(), p.begin(), p.end());
      }
    for (auto i: t1) if (i >= x1.size() / 3) { ctx.fail("tet subdivision: index in range", ""); return; }
    for (unsigned i = 0; i < nt; ++i) {
      double v0 = vol4(P(x, tet[i * 4]), P(x, tet[i * 4 + 1]), P(x, tet[i * 4 + 2]), P(x, tet[i * 4 + 3]));
      for (int c = 0; c < 8; ++c) {
        const unsigned *q = &t1[(i * 8 + c) * 4];
        CKN(vol4(P(x1, q[0]), P(x1, q[1]), P(x1, q[2]), P(x1, q[3])), v0 / 8, 1e-9 * std::fabs(v0), "tet subdivision: every child has an eighth of the signed volume", "tet %u child %d", i, c);
      }
    }
    std::map<std::array<unsigned, 3>, int> f0, f1;
    conforming_tets(tet, f0);
    CK(conforming_tets(t1, f1), "tet subdivision: children are conforming", "");
    size_t b0 = 0, b1 = 0;
    for (auto &f: f0) b0 += f.second == 1;
    for (auto &f: f1) b1 += f.second == 1;
    CK(b1 == 4 * b0, "tet subdivision: the boundary stays the boundary", "%zu -> %zu", b0, b1);
    ctx.count("tets_subdivided", nt);
  }
}

// ---------------- measures ----------------
static void random_surface(vh::Ctx &ctx, VD &x, VU &t) {
  auto &r = ctx.rng;
  int k = r.irange(0, 3);
  if (k == 0) dfm2::MeshTri3D_Sphere<double>(x, t, r.uni(.3, 2), r.irange(2, 8), r.irange(3, 9));
  else if (k == 1) dfm2::MeshTri3_Torus<double>(x, t, 1., r.uni(.1, .7), r.irange(3, 9), r.irange(3, 8));
  else if (k == 2) dfm2::MeshTri3D_Cube<double>(x, t, r.irange(1, 4));
  else dfm2::MeshTri3D_CylinderClosed<double>(x, t, r.uni(.3, 2), r.uni(.3, 2), r.irange(3, 9), r.irange(1, 4));
  // affine map of positive determinant, plus noise
  double c = r.uni(0.5, 2), s[3] = {r.uni(-2, 2), r.uni(-2, 2), r.uni(-2, 2)}, sh = r.uni(-.5, .5);
  for (size_t i = 0; i < x.size() / 3; ++i) {
    double X = x[i * 3] * c + sh * x[i * 3 + 1], Y = x[i * 3 + 1], Z = x[i * 3 + 2] + sh * x[i * 3];
    x[i * 3] = X + s[0] + r.uni(-.02, .02);
    x[i * 3 + 1] = Y + s[1] + r.uni(-.02, .02);
    x[i * 3 + 2] = Z + s[2] + r.uni(-.02, .02);
  }
}
// solid angle of the spherical triangle by L'Huilier-free formula in long double (Van Oosterom & Strackee)
static double solid_angle(V3 a, V3 b, V3 c) {
  long double la = len(a), lb = len(b), lc = len(c);
  long double num = dot(a, cross(b, c));
  long double den = la * lb * lc + dot(a, b) * lc + dot(b, c) * la + dot(c, a) * lb;
  return 2 * std::atan2(num, den);
}
VH_FAMILY(measures, 1500, 20000) {
  auto &r = ctx.rng;
  VD x;
  VU t;
  random_surface(ctx, x, t);
  ctx.sig(vh::Hash().vd(x).vu(t));
  unsigned np = x.size() / 3, nt = t.size() / 3;
  double A = area(x, t), V = volume(x, t);
  double ext = 8;
  // area (flagged), mass
  std::vector<int> flg(nt);
  for (auto &f: flg) f = r.irange(0, 2);
  int fl = r.irange(0, 2);
  double Af = 0;
  V3 cgf = {0, 0, 0}, cgs = {0, 0, 0}, cgv = {0, 0, 0}, cgp = {0, 0, 0};
  for (unsigned i = 0; i < nt; ++i) {
    V3 a = P(x, t[i * 3]), b = P(x, t[i * 3 + 1]), c = P(x, t[i * 3 + 2]);
    double ar = area3(a, b, c);
    V3 g = mul(add(a, add(b, c)), 1. / 3);
    cgs = add(cgs, mul(g, ar / A));
    if (flg[i] == fl) { Af += ar; cgf = add(cgf, mul(g, ar)); }
    cgv = add(cgv, mul(g, .75 * dot(a, cross(b, c)) / 6 / V));
  }
  for (unsigned i = 0; i < np; ++i) cgp = add(cgp, mul(P(x, i), 1. / np));
  CKN(dfm2::Area_MeshTri3(x, t, [&](unsigned i) { return flg[i] == fl; }), Af, 1e-10 * A, "area of the flagged triangles", "");
  double g[3];
  dfm2::CG_MeshTri3_Shell(g, x, t);
  CK(len(sub({g[0], g[1], g[2]}, cgs)) < 1e-10 * ext, "shell centroid is the area-weighted mean", "");
  if (Af > 0) {
    double a2 = dfm2::CG_TriMsh3Flg_Shell(g, x, t, fl, flg);
    CKN(a2, Af, 1e-10 * A, "flagged shell area", "");
    CK(len(sub({g[0], g[1], g[2]}, mul(cgf, 1 / Af))) < 1e-9 * ext, "flagged shell centroid", "");
  }
  dfm2::CG_MeshTri3_Solid(g, x, t);
  CK(len(sub({g[0], g[1], g[2]}, cgv)) < 1e-8 * ext / std::min(1., V), "solid centroid is the volume centroid", "volume %g", V);
  dfm2::CG_Point3(g, x);
  CK(len(sub({g[0], g[1], g[2]}, cgp)) < 1e-11 * ext, "mean of the points", "");
  {
    std::vector<int> ti(t.begin(), t.end());
    unsigned i = r.irange(0, nt - 1);
    dfm2::CG_Tri(g[0], g[1], g[2], i, x, ti);
    V3 w = mul(add(P(x, t[i * 3]), add(P(x, t[i * 3 + 1]), P(x, t[i * 3 + 2]))), 1. / 3);
    CK(len(sub({g[0], g[1], g[2]}, w)) < 1e-5 * ext, "centre of one triangle", "");
  }
  {
    VD cc = junk<double>(ctx);
    double rad = dfm2::CentsMaxRad_MeshTri3(cc, x, t), want = 0;
    CK(cc.size() == nt * 3, "triangle centres: size", "");
    if (ctx.failed) return;
    for (unsigned i = 0; i < nt; ++i) {
      V3 w = mul(add(P(x, t[i * 3]), add(P(x, t[i * 3 + 1]), P(x, t[i * 3 + 2]))), 1. / 3);
      CK(len(sub(P(cc, i), w)) < 1e-12 * ext, "triangle centres", "");
      for (int k = 0; k < 3; ++k) want = std::max(want, len(sub(w, P(x, t[i * 3 + k]))));
    }
    CKN(rad, want, 1e-12 * ext, "largest centre-to-vertex distance", "");
  }
  double rho = r.uni(.1, 9);
  {
    VD m(np, 77.), w(np, 0.);
    dfm2::MassPoint_Tri3D(m.data(), rho, x.data(), np, t.data(), nt);
    for (unsigned i = 0; i < nt; ++i) for (int k = 0; k < 3; ++k) w[t[i * 3 + k]] += rho / 3 * area3(P(x, t[i * 3]), P(x, t[i * 3 + 1]), P(x, t[i * 3 + 2]));
    double tot = 0;
    for (unsigned i = 0; i < np; ++i) { CKN(m[i], w[i], 1e-10 * A * rho, "lumped mass of a shell", "point %u", i); tot += m[i]; }
    CKN(tot, rho * A, 1e-9 * rho * A, "total mass of a shell", "");
  }
  // normals
  {
    VD n(np * 3, 5.);
    dfm2::Normal_MeshTri3D(n.data(), x.data(), np, t.data(), nt);
    std::vector<V3> w(np, V3{0, 0, 0});
    for (unsigned i = 0; i < nt; ++i) {
      V3 c = cross(sub(P(x, t[i * 3 + 1]), P(x, t[i * 3])), sub(P(x, t[i * 3 + 2]), P(x, t[i * 3])));
      for (int k = 0; k < 3; ++k) w[t[i * 3 + k]] = add(w[t[i * 3 + k]], mul(c, 1 / len(c)));
      auto nn = dfm2::Normal_TriInMeshTri3(i, x.data(), t.data());
      CK(len(sub({nn[0], nn[1], nn[2]}, c)) < 1e-11 * ext * ext, "normal of one triangle is the cross product of its edges", "");
    }
    for (unsigned i = 0; i < np; ++i) {
      if (len(w[i]) < .05) continue;
      CK(len(sub(P(n, i), mul(w[i], 1 / len(w[i])))) < 1e-9, "vertex normal is the normalised mean of the triangle normals", "point %u", i);
    }
  }
  // unwelded arrays
  {
    VD tx = junk<double>(ctx), tn = junk<double>(ctx), te = junk<double>(ctx), tc = junk<double>(ctx);
    dfm2::UnidexedVertexDataTriMesh(tx, x, t);
    dfm2::UnindexedNormalTriMesh3(tn, x, t);
    dfm2::UnindexedEdgeMesh3_UnindexedTrimesh3(te, tx);
    double pal[3][3];
    for (auto &p: pal) for (auto &q: p) q = r.u01();
    dfm2::UnindexedColorTriMesh3(tc, pal, flg, t);
    CK(tx.size() == nt * 9 && tn.size() == nt * 9 && te.size() == nt * 18 && tc.size() == nt * 9, "unwelded arrays: sizes", "");
    if (ctx.failed) return;
    for (unsigned i = 0; i < nt; ++i) {
      V3 c = cross(sub(P(x, t[i * 3 + 1]), P(x, t[i * 3])), sub(P(x, t[i * 3 + 2]), P(x, t[i * 3])));
      for (int k = 0; k < 3; ++k) {
        CK(P(tx, i * 3 + k) == P(x, t[i * 3 + k]), "unwelding keeps the corner positions", "triangle %u corner %d", i, k);
        CK(len(sub(P(tn, i * 3 + k), mul(c, 1 / len(c)))) < 1e-9, "unwelded normal", "");
        CK(P(te, i * 6 + k * 2) == P(x, t[i * 3 + k]) && P(te, i * 6 + k * 2 + 1) == P(x, t[i * 3 + (k + 1) % 3]), "unwelded edges", "");
        CK(P(tc, i * 3 + k) == (V3{pal[flg[i]][0], pal[flg[i]][1], pal[flg[i]][2]}), "unwelded colours", "");
      }
    }
  }
  // merging and removing unreferenced points
  {
    VD x2 = x;
    VU t2 = t;
    VD y;
    VU s;
    random_surface(ctx, y, s);
    dfm2::AddMesh(x2, t2, y, s);
    CK(x2.size() == x.size() + y.size() && t2.size() == t.size() + s.size(), "appending a mesh: sizes", "");
    if (ctx.failed) return;
    bool ok = std::equal(x.begin(), x.end(), x2.begin()) && std::equal(t.begin(), t.end(), t2.begin()) && std::equal(y.begin(), y.end(), x2.begin() + x.size());
    for (size_t i = 0; i < s.size(); ++i) ok = ok && t2[t.size() + i] == s[i] + np;
    CK(ok, "appending a mesh keeps both meshes", "");
    // drop random triangles
    VU t3;
    for (size_t i = 0; i < t2.size(); i += 3) if (r.chance(.3)) t3.insert(t3.end(), t2.begin() + i, t2.begin() + i + 3);
    VD x4 = junk<double>(ctx);
    VU t4 = junk<unsigned>(ctx);
    std::vector<int> mp = {3, 4, 5};
    dfm2::RemoveUnreferencedPoints_MeshElem(x4, t4, mp, 3, x2, t3);
    std::set<unsigned> used(t3.begin(), t3.end());
    CK(x4.size() == 3 * used.size() && t4.size() == t3.size() && mp.size() == x2.size() / 3, "removing unreferenced points: sizes", "");
    if (ctx.failed) return;
    for (size_t i = 0; i < t3.size(); ++i) CK(t4[i] < used.size() && P(x4, t4[i]) == P(x2, t3[i]) && mp[t3[i]] == (int) t4[i], "removing unreferenced points keeps every corner's position", "");
    for (unsigned i = 0; i < mp.size(); ++i) if (!used.count(i)) CK(mp[i] < 0, "removed points map to nothing", "");
  }
  // smoothing
  {
    VD xs = x;
    std::vector<int> ti(t.begin(), t.end());
    VU ei, el;
    dfm2::JArray_ElSuP_MeshElem(ei, el, t.data(), nt, 3, np);
    std::vector<int> eii(ei.begin(), ei.end()), eli(el.begin(), el.end());
    dfm2::LaplacianSmoothing(xs, ti, eii, eli);
    VD w = x;
    for (unsigned i = 0; i < np; ++i) { // sequential, area-weighted mean of triangle centres
      double sa = 0;
      V3 g2 = {0, 0, 0};
      for (unsigned j = 0; j < nt; ++j)
        if (t[j * 3] == i || t[j * 3 + 1] == i || t[j * 3 + 2] == i) {
          V3 a = P(w, t[j * 3]), b = P(w, t[j * 3 + 1]), c = P(w, t[j * 3 + 2]);
          double ar = area3(a, b, c);
          sa += ar;
          g2 = add(g2, mul(add(a, add(b, c)), ar / 3));
        }
      for (int d = 0; d < 3; ++d) w[i * 3 + d] = g2[d] / sa;
    }
    for (unsigned i = 0; i < np; ++i) CK(len(sub(P(xs, i), P(w, i))) < 1e-8 * ext, "smoothing moves a point to the area-weighted mean of its triangles' centres", "point %u", i);
  }
  // solid angles
  {
    for (int k = 0; k < 6; ++k) {
      V3 a, b, c;
      for (int d = 0; d < 3; ++d) { a[d] = r.gauss(); b[d] = r.gauss(); c[d] = r.gauss(); }
      if (std::fabs(dot(a, cross(b, c))) < .05 * len(a) * len(b) * len(c)) continue;
      double w = solid_angle(a, b, c); // on the left of a -> b -> c: the complement if clockwise
      if (w < 0) w += 4 * M_PI;
      double got = dfm2::SolidAngleTri3D(a.data(), b.data(), c.data());
      CKN(got, w, 1e-8, "solid angle of a triangle", "a=(%g,%g,%g) b=(%g,%g,%g) c=(%g,%g,%g)", a[0], a[1], a[2], b[0], b[1], b[2], c[0], c[1], c[2]);
      ctx.count("solid_angles");
    }
  }
  ctx.count("surfaces_measured");
}

VH_FAMILY(measures_volume, 1000, 12000) {
  auto &r = ctx.rng;
  { // tets
    VD x;
    VU hex, tet;
    block(ctx, x, hex);
    tets_of(hex, tet);
    for (auto &v: x) v += r.uni(-.01, .01);
    ctx.sig(vh::Hash().vd(x));
    unsigned np = x.size() / 3, nt = tet.size() / 4;
    double V = 0;
    V3 c = {0, 0, 0};
    VD w(np, 0.);
    double rho = r.uni(.1, 5);
    for (unsigned i = 0; i < nt; ++i) {
      V3 p[4];
      for (int k = 0; k < 4; ++k) p[k] = P(x, tet[i * 4 + k]);
      double v = vol4(p[0], p[1], p[2], p[3]);
      V += v;
      c = add(c, mul(add(add(p[0], p[1]), add(p[2], p[3])), v / 4));
      for (int k = 0; k < 4; ++k) w[tet[i * 4 + k]] += rho * v / 4;
    }
    double v2 = 7, g[3];
    dfm2::CG_MeshTet3(v2, g, x, tet);
    CKN(v2, V, 1e-10, "volume of a tetrahedral mesh", "");
    CK(len(sub({g[0], g[1], g[2]}, mul(c, 1 / V))) < 1e-8 / V, "centroid of a tetrahedral mesh", "");
    VD m(np, 3.);
    dfm2::MassPoint_Tet3D(m.data(), rho, x.data(), np, tet.data(), nt);
    for (unsigned i = 0; i < np; ++i) CKN(m[i], w[i], 1e-10 * rho * 10, "lumped mass of a solid", "point %u", i);
    // lines
    VU ln;
    double L = 0;
    V3 cl = {0, 0, 0};
    for (int k = 0; k < 10; ++k) {
      unsigned a = r.irange(0, np - 1), b = r.irange(0, np - 1);
      if (a == b) continue;
      ln.push_back(a);
      ln.push_back(b);
      double l = len(sub(P(x, a), P(x, b)));
      L += l;
      cl = add(cl, mul(add(P(x, a), P(x, b)), l / 2));
    }
    if (L > 0) {
      dfm2::CG_MeshLine3(v2, g, x, ln);
      CKN(v2, L, 1e-10 * L, "length of a line mesh", "");
      CK(len(sub({g[0], g[1], g[2]}, mul(cl, 1 / L))) < 1e-9, "centroid of a line mesh", "");
    }
  }
  { // planar triangles and extrusion
    int nx = r.irange(1, 5), ny = r.irange(1, 5);
    VD xy;
    VU t;
    for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) { xy.push_back(i + r.uni(-.3, .3)); xy.push_back(j + r.uni(-.3, .3)); }
    for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
        if (t.size() && r.chance(.1)) continue;
        unsigned a = j * (nx + 1) + i, b = a + 1, c = b + nx + 1, d = a + nx + 1;
        VU e = r.chance(.5) ? VU{a, b, c, a, c, d} : VU{a, b, d, b, c, d};
        t.insert(t.end(), e.begin(), e.end());
      }
    unsigned np = xy.size() / 2;
    VU pm(np);
    for (unsigned i = 0; i < np; ++i) pm[i] = i;
    r.shuffle(pm);
    VD xy2(xy.size());
    for (unsigned i = 0; i < np; ++i) { xy2[pm[i] * 2] = xy[i * 2]; xy2[pm[i] * 2 + 1] = xy[i * 2 + 1]; }
    xy = xy2;
    for (size_t i = 0; i < t.size(); i += 3) {
      int s = r.irange(0, 2);
      unsigned e[3] = {pm[t[i]], pm[t[i + 1]], pm[t[i + 2]]};
      for (int k = 0; k < 3; ++k) t[i + k] = e[(k + s) % 3];
    }
    double A = 0, mina = 1e30, maxa = 0;
    unsigned nt = t.size() / 3;
    VD w(np, 0.);
    double rho = r.uni(.1, 4);
    bool pos = true;
    for (unsigned i = 0; i < nt; ++i) {
      const double *p[3] = {&xy[t[i * 3] * 2], &xy[t[i * 3 + 1] * 2], &xy[t[i * 3 + 2] * 2]};
      double a = tmx::area2(p[0], p[1], p[2]);
      pos = pos && a > .01;
      A += a;
      mina = std::min(mina, a);
      double l = 0;
      for (int k = 0; k < 3; ++k) l += std::hypot(p[k][0] - p[(k + 1) % 3][0], p[k][1] - p[(k + 1) % 3][1]) / 3;
      maxa = std::max(maxa, l * l / a);
      for (int k = 0; k < 3; ++k) w[t[i * 3 + k]] += rho * a / 3;
    }
    if (pos) {
      double qa, qm;
      dfm2::Quality_MeshTri2D(qa, qm, xy.data(), t.data(), nt);
      CKN(qm, mina, 1e-11, "smallest triangle area", "");
      CKN(qa, maxa, 1e-9 * maxa, "largest aspect", "");
      VD m(np, 9.);
      dfm2::MassPoint_Tri2D(m.data(), rho, xy.data(), np, t.data(), nt);
      for (unsigned i = 0; i < np; ++i) CKN(m[i], w[i], 1e-11 * rho, "lumped mass of a plane mesh", "");
      int nl = r.irange(1, 4);
      double h = r.uni(.1, 3);
      VD x3 = junk<double>(ctx);
      VU tet = junk<unsigned>(ctx);
      dfm2::ExtrudeTri2Tet(nl, h, x3, tet, xy, t);
      CK(x3.size() / 3 == np * (nl + 1) && tet.size() / 4 == nt * nl * 3, "extrusion: counts", "");
      if (ctx.failed) return;
      double V = 0;
      for (size_t i = 0; i < tet.size(); i += 4) {
        double v = vol4(P(x3, tet[i]), P(x3, tet[i + 1]), P(x3, tet[i + 2]), P(x3, tet[i + 3]));
        CK(v > 0, "extrusion: every tetrahedron has positive volume", "tet %zu volume %g", i / 4, v);
        V += v;
      }
      CKN(V, A * h * nl, 1e-9 * A * h * nl, "extrusion: volume is area times height", "");
      std::map<std::array<unsigned, 3>, int> fc;
      CK(conforming_tets(tet, fc), "extrusion: tetrahedra are conforming", "");
      std::map<std::pair<unsigned, unsigned>, int> be;
      for (unsigned i = 0; i < nt; ++i) for (int k = 0; k < 3; ++k) { auto e = std::minmax(t[i * 3 + k], t[i * 3 + (k + 1) % 3]); be[{e.first, e.second}]++; }
      size_t nbe = 0, nbf = 0;
      for (auto &e: be) nbe += e.second == 1;
      for (auto &f: fc) nbf += f.second == 1;
      CK(nbf == 2 * nt + 2 * nbe * nl, "extrusion: its boundary is bottom, top and sides", "%zu boundary faces", nbf);
      ctx.count("extruded_tets", tet.size() / 4);
      // distortion test of a 2D->3D map: an isometry is never distorted, a scaled one is by the ratio
      VD x2(np * 3);
      double an = r.uni(0, 6), sc = r.uni(.4, 2.5);
      for (unsigned i = 0; i < np; ++i) {
        x2[i * 3] = sc * (std::cos(an) * xy[i * 2]);
        x2[i * 3 + 1] = sc * xy[i * 2 + 1];
        x2[i * 3 + 2] = sc * (std::sin(an) * xy[i * 2]);
      }
      unsigned it = r.irange(0, nt - 1);
      double sa = .5 * (sc * sc + 1 / (sc * sc)), se = .5 * (sc + 1 / sc);
      double ta = r.uni(1, 3), te = r.uni(1, 2);
      if (std::fabs(ta - sa) > 1e-6 && std::fabs(te - se) > 1e-6)
        CK(dfm2::Distortion_MappingTriangleFrom2To3Dim(ta, te, it, t, x2, xy) == (sa > ta || se > te), "distortion of a uniformly scaled triangle", "scale %g thresholds %g %g", sc, ta, te);
      std::swap(t[it * 3], t[it * 3 + 1]);
      CK(dfm2::Distortion_MappingTriangleFrom2To3Dim(1e9, 1e9, it, t, x2, xy), "an inverted parameter triangle is distorted", "");
    }
  }
}

template<class T> static void points(vh::Ctx &ctx, double tol) {
  auto &r = ctx.rng;
  unsigned np = r.irange(1, 40);
  std::vector<T> x(np * 3);
  double sc = std::pow(10., r.uni(-2, 2));
  T off[3] = {(T) r.uni(-3 * sc, 3 * sc), (T) r.uni(-3 * sc, 3 * sc), (T) r.uni(-3 * sc, 3 * sc)};
  for (unsigned i = 0; i < np; ++i) for (int d = 0; d < 3; ++d) x[i * 3 + d] = off[d] + (T) (sc * r.gauss());
  ctx.sig(vh::Hash().vd(dbl(x)));
  double lo[3], hi[3];
  for (int d = 0; d < 3; ++d) {
    lo[d] = 1e300; hi[d] = -1e300;
    for (unsigned i = 0; i < np; ++i) { lo[d] = std::min(lo[d], (double) x[i * 3 + d]); hi[d] = std::max(hi[d], (double) x[i * 3 + d]); }
  }
  T b0[3], b1[3];
  dfm2::BoundingBox3_Points3(b0, b1, x.data(), np);
  for (int d = 0; d < 3; ++d) CK((double) b0[d] == lo[d] && (double) b1[d] == hi[d], "bounding box is the smallest and largest coordinate", "axis %d", d);
  T c[3], w[3];
  int form = r.irange(0, 2);
  if (form == 0) dfm2::CenterWidth_Point3(c[0], c[1], c[2], w[0], w[1], w[2], x.data(), np);
  else if (form == 1) dfm2::CenterWidth_Points3(c[0], c[1], c[2], w[0], w[1], w[2], x);
  else dfm2::CenterWidth_Points3(c, w, x);
  double ext = 8 * sc;
  double wm = 0;
  for (int d = 0; d < 3; ++d) {
    CKN((double) c[d], (lo[d] + hi[d]) / 2, tol * ext, "box centre", "form %d axis %d", form, d);
    CKN((double) w[d], hi[d] - lo[d], tol * ext, "box width", "form %d axis %d", form, d);
    wm = std::max(wm, hi[d] - lo[d]);
  }
  // affine maps
  std::vector<T> y = x;
  T tr[3] = {(T) r.uni(-sc, sc), (T) r.uni(-sc, sc), (T) r.uni(-sc, sc)};
  if (r.chance(.5)) dfm2::Translate_Points3(y, tr[0], tr[1], tr[2]); else dfm2::Translate_Points(y.data(), np, 3u, tr);
  for (unsigned i = 0; i < np * 3; ++i) CKN((double) y[i], (double) x[i] + tr[i % 3], tol * ext, "translation", "");
  std::vector<T> x2(x.begin(), x.begin() + (np / 2) * 2), y2 = x2;
  dfm2::Translate_Points2(y2, tr[0], tr[1]);
  for (size_t i = 0; i < x2.size(); ++i) CKN((double) y2[i], (double) x2[i] + tr[i % 2], tol * ext, "translation in the plane", "");
  y = x;
  T s = (T) r.uni(-3, 3);
  unsigned nsc = np;
  if (r.chance(.5)) dfm2::Scale_PointsX(y, s); else { nsc = r.irange(0, np); dfm2::Scale_Points(y.data(), nsc, 3u, s); }
  for (unsigned i = 0; i < np * 3; ++i) CKN((double) y[i], (double) x[i] * (i < nsc * 3 ? (double) s : 1.), tol * ext * 3, "scaling", "");
  y = x;
  double rx = (T) r.uni(-4, 4), ry = (T) r.uni(-4, 4), rz = (T) r.uni(-4, 4);
  if (r.chance(.3)) { rx = ry = 0; }
  dfm2::Rotate_Points3<T>(y, (T) rx, (T) ry, (T) rz);
  for (unsigned i = 0; i < np; ++i) { // about x, then y, then z
    V3 p = {(double) x[i * 3], (double) x[i * 3 + 1], (double) x[i * 3 + 2]};
    p = {p[0], std::cos(rx) * p[1] - std::sin(rx) * p[2], std::sin(rx) * p[1] + std::cos(rx) * p[2]};
    p = {std::cos(ry) * p[0] + std::sin(ry) * p[2], p[1], -std::sin(ry) * p[0] + std::cos(ry) * p[2]};
    p = {std::cos(rz) * p[0] - std::sin(rz) * p[1], std::sin(rz) * p[0] + std::cos(rz) * p[1], p[2]};
    CK(len(sub(p, {(double) y[i * 3], (double) y[i * 3 + 1], (double) y[i * 3 + 2]})) < 4 * tol * ext, "rotation about x, then y, then z", "angles %g %g %g", rx, ry, rz);
  }
  if (wm > 1e-3 * sc) {
    y = x;
    T target = (T) r.uni(.1, 10);
    dfm2::Normalize_Points3(y, target);
    double m = 0;
    for (int d = 0; d < 3; ++d) {
      double l = 1e300, h = -1e300;
      for (unsigned i = 0; i < np; ++i) { l = std::min(l, (double) y[i * 3 + d]); h = std::max(h, (double) y[i * 3 + d]); }
      m = std::max(m, h - l);
      CKN(l + h, 0., 100 * tol * target * ext / wm, "normalised box is centred at the origin", "");
    }
    CKN(m, (double) target, 100 * tol * target * ext / wm, "normalised box has the requested longest edge", "");
  }
  int nd = r.irange(2, 3);
  std::vector<T> v(x.begin(), x.begin() + np * nd), v0 = v;
  bool nz = true;
  for (unsigned i = 0; i < np; ++i) { double l = 0; for (int d = 0; d < nd; ++d) l += (double) v[i * nd + d] * v[i * nd + d]; nz = nz && l > 1e-4 * sc * sc; }
  if (nz) {
    dfm2::NormalizeVector_Points(v.data(), np, (unsigned) nd);
    for (unsigned i = 0; i < np; ++i) {
      double l = 0;
      for (int d = 0; d < nd; ++d) l += (double) v0[i * nd + d] * v0[i * nd + d];
      for (int d = 0; d < nd; ++d) CKN((double) v[i * nd + d], v0[i * nd + d] / std::sqrt(l), 10 * tol, "normalised vector", "");
    }
  }
  T mn[3] = {(T) -sc, 0, (T) sc}, mx[3] = {(T) sc, (T) (2 * sc), (T) (3 * sc)};
  std::vector<T> rp(np * 3, (T) 1e9);
  dfm2::Points_RandomUniform(rp.data(), np, 3u, mn, mx);
  for (unsigned i = 0; i < np * 3; ++i) CK(rp[i] >= mn[i % 3] - tol * sc && rp[i] <= mx[i % 3] + tol * sc * 3, "random points lie in their box", "%g axis %u", (double) rp[i], i % 3);
  ctx.count("point_sets");
}
VH_FAMILY(points_double, 3000, 40000) { points<double>(ctx, 1e-13); }
VH_FAMILY(points_float, 2000, 30000) { points<float>(ctx, 2e-6); }

VH_FAMILY(groups, 2000, 20000) {
  auto &r = ctx.rng;
  unsigned np = r.irange(4, 30), ne = r.irange(1, 20), nn = r.irange(2, 8);
  VD x(np * 3);
  for (auto &v: x) v = r.uni(-5, 5);
  ctx.sig(vh::Hash().vd(x));
  bool jag = r.chance(.5);
  VU ind = {0}, el;
  std::vector<int> grp(ne);
  for (unsigned i = 0; i < ne; ++i) {
    unsigned n = jag ? r.irange(1, 8) : nn;
    for (unsigned k = 0; k < n; ++k) el.push_back(r.irange(0, np - 1));
    ind.push_back(el.size());
    grp[i] = r.irange(0, 2);
  }
  int g = r.irange(0, 2);
  double lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300};
  bool any = false;
  for (unsigned i = 0; i < ne; ++i)
    if (grp[i] == g)
      for (unsigned k = ind[i]; k < ind[i + 1]; ++k) {
        any = true;
        for (int d = 0; d < 3; ++d) { lo[d] = std::min(lo[d], x[el[k] * 3 + d]); hi[d] = std::max(hi[d], x[el[k] * 3 + d]); }
      }
  double c[6];
  if (!jag) dfm2::GetCenterWidthGroup(c[0], c[1], c[2], c[3], c[4], c[5], x, el, nn, g, grp);
  else if (r.chance(.5)) dfm2::GetCenterWidthGroup(c[0], c[1], c[2], c[3], c[4], c[5], x, ind, el, g, grp);
  else dfm2::GetCenterWidth3DGroup(c, x, ind, el, g, grp);
  for (int d = 0; d < 3; ++d) {
    CKN(c[d], any ? (lo[d] + hi[d]) / 2 : 0, 1e-12, "group box centre", "nodes per element %u jagged %d", nn, (int) jag);
    CKN(c[3 + d], any ? hi[d] - lo[d] : 1, 1e-12, "group box width", "nodes per element %u jagged %d", nn, (int) jag);
  }
  double wm = 0;
  for (int d = 0; d < 3; ++d) {
    double l = 1e300, h = -1e300;
    for (unsigned i = 0; i < np; ++i) { l = std::min(l, x[i * 3 + d]); h = std::max(h, x[i * 3 + d]); }
    wm = std::max(wm, h - l);
  }
  CKN(dfm2::Size_Points3D_LongestAABBEdge(x), wm, 1e-12, "longest box edge", "");
  // local frame box
  V3 ax[3];
  for (auto &a: ax) { do { for (auto &q: a) q = r.gauss(); } while (len(a) < .1); a = mul(a, 1 / len(a)); }
  dfm2::GetCenterWidthLocal(c[0], c[1], c[2], c[3], c[4], c[5], x, ax[0].data(), ax[1].data(), ax[2].data());
  for (int d = 0; d < 3; ++d) {
    double l = 1e300, h = -1e300;
    for (unsigned i = 0; i < np; ++i) { double q = dot(P(x, i), ax[d]); l = std::min(l, q); h = std::max(h, q); }
    CKN(c[d], (l + h) / 2, 1e-11, "box in a local frame: centre", "");
    CKN(c[3 + d], h - l, 1e-11, "box in a local frame: width", "");
  }
  // tangent directions: unit, orthogonal to the normals, on the side of the given ones
  VD n(np * 3), o(np * 3), o0;
  for (unsigned i = 0; i < np; ++i) {
    V3 a, b;
    do { for (int d = 0; d < 3; ++d) { a[d] = r.gauss(); b[d] = r.gauss(); } } while (len(a) < .1 || len(cross(a, b)) < .1);
    a = mul(a, 1 / len(a));
    for (int d = 0; d < 3; ++d) { n[i * 3 + d] = a[d]; o[i * 3 + d] = b[d]; }
  }
  o0 = o;
  dfm2::TangentVector_Points3(o, n);
  for (unsigned i = 0; i < np; ++i) {
    V3 t = sub(P(o0, i), mul(P(n, i), dot(P(o0, i), P(n, i))));
    CK(len(sub(P(o, i), mul(t, 1 / len(t)))) < 1e-9, "tangent vector is the unit projection of the given direction on the tangent plane", "length %g", len(P(o, i)));
  }
  ctx.count("groups_boxed");
}

// quads: normals
VH_FAMILY(quad_normals, 500, 5000) {
  Quad m = random_quads(ctx);
  ctx.sig(vh::Hash().vd(m.x).vu(m.q));
  VD n = junk<double>(ctx);
  dfm2::Normal_MeshQuad3(n, m.x, m.q);
  size_t np = m.x.size() / 3;
  CK(n.size() == np * 3, "quad normals: size", "");
  if (ctx.failed) return;
  std::vector<V3> w(np, V3{0, 0, 0});
  std::vector<char> bad(np, 0);
  for (size_t i = 0; i < m.q.size() / 4; ++i)
    for (int k = 0; k < 4; ++k) {
      unsigned a = m.q[i * 4 + (k + 3) % 4], b = m.q[i * 4 + k], c = m.q[i * 4 + (k + 1) % 4];
      V3 cr = cross(sub(P(m.x, b), P(m.x, a)), sub(P(m.x, c), P(m.x, a)));
      if (len(cr) < 1e-6) bad[b] = 1; else w[b] = add(w[b], mul(cr, 1 / len(cr)));
    }
  for (size_t i = 0; i < np; ++i)
    if (!bad[i] && len(w[i]) > .05) { CK(len(sub(P(n, i), mul(w[i], 1 / len(w[i])))) < 1e-8, "quad mesh normal is the normalised mean of the corner normals", "point %zu", i); ctx.count("quad_normals"); }
}
