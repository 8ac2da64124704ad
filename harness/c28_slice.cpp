// C28: section curves of triangle meshes at given heights, contours, and the graph between the sections.
#include "../lib/vh.h"
#include <cmath>
#include <climits>
#include <set>
#include <map>
#include <stack>
#include <array>
#include <numeric>
#include <algorithm>
#include "delfem2/slice.h"
namespace dfm2 = delfem2;

struct Mesh { std::vector<double> X, L; std::vector<unsigned> T, S; };
static void add_sphere(vh::Ctx &ctx, Mesh &m, double cx, double cy, double cz, double r, double bump, int nu, int nv) {
  unsigned o = (unsigned) (m.X.size() / 3);
  double ph[6];
  for (double &p: ph) { p = ctx.rng.uni(0, 6.28); }
  int f1 = ctx.rng.irange(1, 4), f2 = ctx.rng.irange(1, 4), f3 = ctx.rng.irange(1, 4);
  auto put = [&](double a, double b) {
    double d[3] = {std::sin(b) * std::cos(a), std::sin(b) * std::sin(a), std::cos(b)};
    double q = r * (1 + bump * (std::sin(f1 * 2 * d[0] + ph[0]) + std::sin(f2 * 2 * d[1] + ph[1]) + std::sin(f3 * 2 * d[2] + ph[2])) / 3);
    m.X.push_back(cx + q * d[0]); m.X.push_back(cy + q * d[1]); m.X.push_back(cz + q * d[2]);
  };
  put(0, 0);
  for (int j = 1; j < nv; ++j) { for (int i = 0; i < nu; ++i) { put(2 * M_PI * i / nu, M_PI * j / nv); } }
  put(0, M_PI);
  auto id = [&](int i, int j) { return o + 1 + (unsigned) ((j - 1) * nu + (i % nu)); };
  unsigned s = o + 1 + (unsigned) ((nv - 1) * nu);
  for (int i = 0; i < nu; ++i) {
    m.T.insert(m.T.end(), {o, id(i, 1), id(i + 1, 1)});
    for (int j = 1; j < nv - 1; ++j) { m.T.insert(m.T.end(), {id(i, j), id(i, j + 1), id(i + 1, j + 1)}); m.T.insert(m.T.end(), {id(i, j), id(i + 1, j + 1), id(i + 1, j)}); }
    m.T.insert(m.T.end(), {s, id(i + 1, nv - 1), id(i, nv - 1)});
  }
}
static void add_torus(vh::Ctx &ctx, Mesh &m, double R, double r, double bump, int nu, int nv) {
  unsigned o = (unsigned) (m.X.size() / 3);
  double p0 = ctx.rng.uni(0, 6.28); int k = ctx.rng.irange(1, 5);
  for (int i = 0; i < nu; ++i) for (int j = 0; j < nv; ++j) {
    double a = 2 * M_PI * i / nu, b = 2 * M_PI * j / nv, q = r * (1 + bump * std::sin(k * a + p0));
    m.X.push_back((R + q * std::cos(b)) * std::cos(a)); m.X.push_back((R + q * std::cos(b)) * std::sin(a)); m.X.push_back(q * std::sin(b));
  }
  auto id = [&](int i, int j) { return o + (unsigned) ((i % nu) * nv + j % nv); };
  for (int i = 0; i < nu; ++i) for (int j = 0; j < nv; ++j) { m.T.insert(m.T.end(), {id(i, j), id(i + 1, j), id(i + 1, j + 1)}); m.T.insert(m.T.end(), {id(i, j), id(i + 1, j + 1), id(i, j + 1)}); }
}
static void adjacency(Mesh &m) {
  m.S.assign(m.T.size(), UINT_MAX);
  std::map<std::pair<unsigned, unsigned>, unsigned> e;
  for (unsigned t = 0; t < m.T.size() / 3; ++t) for (unsigned k = 0; k < 3; ++k) { e[{m.T[t * 3 + (k + 1) % 3], m.T[t * 3 + (k + 2) % 3]}] = t; }
  for (unsigned t = 0; t < m.T.size() / 3; ++t) for (unsigned k = 0; k < 3; ++k) {
    auto it = e.find({m.T[t * 3 + (k + 2) % 3], m.T[t * 3 + (k + 1) % 3]});
    if (it != e.end()) { m.S[t * 3 + k] = it->second; }
  }
}
static void rotate(vh::Ctx &ctx, Mesh &m) {
  double q[4], n = 0;
  for (double &v: q) { v = ctx.rng.gauss(); n += v * v; }
  for (double &v: q) { v /= std::sqrt(n); }
  double w = q[0], x = q[1], y = q[2], z = q[3];
  double R[9] = {1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)};
  for (size_t i = 0; i < m.X.size() / 3; ++i) {
    double p[3] = {m.X[i * 3], m.X[i * 3 + 1], m.X[i * 3 + 2]};
    for (int k = 0; k < 3; ++k) { m.X[i * 3 + (size_t) k] = R[k * 3] * p[0] + R[k * 3 + 1] * p[1] + R[k * 3 + 2] * p[2]; }
  }
}
static void shuffle_tris(vh::Ctx &ctx, Mesh &m) {
  std::vector<unsigned> perm(m.T.size() / 3);
  std::iota(perm.begin(), perm.end(), 0u);
  ctx.rng.shuffle(perm);
  std::vector<unsigned> t(m.T.size());
  for (size_t i = 0; i < perm.size(); ++i) { int r = ctx.rng.irange(0, 2); for (int k = 0; k < 3; ++k) { t[i * 3 + (size_t) k] = m.T[perm[i] * 3 + (unsigned) ((k + r) % 3)]; } }
  m.T = t;
}
static void levels(vh::Ctx &ctx, Mesh &m, int mode) {
  m.L.resize(m.X.size() / 3);
  double f[6];
  for (double &v: f) { v = ctx.rng.uni(-3, 3); }
  for (size_t i = 0; i < m.L.size(); ++i) {
    const double *p = &m.X[i * 3];
    if (mode == 0) { m.L[i] = p[2]; }
    else if (mode == 1) { m.L[i] = 0.3 * f[0] * p[0] + 0.3 * f[1] * p[1] + p[2] + std::sin(f[2] * p[0] + f[3] * p[1]) * 0.4; }
    else { m.L[i] = std::round(4 * p[2]) / 4; }  // many vertices exactly at a height
  }
}
static std::vector<double> heights(vh::Ctx &ctx, const Mesh &m, bool on_vertices, int nmax) {
  double lo = 1e300, hi = -1e300;
  for (double v: m.L) { lo = std::min(lo, v); hi = std::max(hi, v); }
  std::vector<double> h;
  int n = ctx.rng.irange(1, nmax);
  if (ctx.rng.chance(0.5)) { double a = ctx.rng.uni(0, 1); for (int i = 0; i < n; ++i) { h.push_back(lo + (hi - lo) * ((i + a) / n)); } }
  else { for (int i = 0; i < n; ++i) { h.push_back(ctx.rng.uni(lo - 0.1 * (hi - lo), hi + 0.1 * (hi - lo))); } }
  if (on_vertices) { for (double &x: h) { if (ctx.rng.chance(0.6)) { x = ctx.rng.pick(m.L); ctx.count("height_at_vertex"); } } }
  std::sort(h.begin(), h.end());
  h.erase(std::unique(h.begin(), h.end()), h.end());
  return h;
}
static bool above(double l, double h) { return l >= h; }
static bool crossed(const Mesh &m, unsigned t, double h) {
  int c = above(m.L[m.T[t * 3]], h) + above(m.L[m.T[t * 3 + 1]], h) + above(m.L[m.T[t * 3 + 2]], h);
  return c == 1 || c == 2;
}
// the segment of a triangle, looking from the front the higher side on the left
static void segment(const Mesh &m, unsigned t, double h, double A[3], double B[3], int &ea, int &eb) {
  for (int k = 0; k < 3; ++k) {
    unsigned i0 = m.T[t * 3 + (unsigned) ((k + 1) % 3)], i1 = m.T[t * 3 + (unsigned) ((k + 2) % 3)];
    bool a0 = above(m.L[i0], h), a1 = above(m.L[i1], h);
    if (a0 == a1) { continue; }
    double r = (h - m.L[i0]) / (m.L[i1] - m.L[i0]);
    double *P = a0 ? A : B;  // along the boundary of the triangle: going down at A, up at B
    (a0 ? ea : eb) = k;
    for (int d = 0; d < 3; ++d) { P[d] = m.X[i0 * 3 + (unsigned) d] * (1 - r) + m.X[i1 * 3 + (unsigned) d] * r; }
  }
}
static double dist(const double *a, const double *b) { return std::sqrt((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])); }

// checks the sections; returns false on a failure
static bool check_slices(vh::Ctx &ctx, const Mesh &m, const std::vector<double> &H, const std::vector<dfm2::CSliceTriMesh> &cs) {
  std::vector<std::set<unsigned>> seen(H.size());
  std::vector<double> areaL(H.size(), 0), areaR(H.size(), 0);
  for (size_t ic = 0; ic < cs.size(); ++ic) {
    size_t ih = (size_t) cs[ic].IndHeight();
    if (!CK(ih < H.size(), "index of the height", "%zu", ih)) { return false; }
    if (ic) { CK(cs[ic - 1].IndHeight() <= cs[ic].IndHeight(), "sections in the order of the heights", "section %zu", ic); }
    size_t n = cs[ic].NumSeg();
    if (!CK(n >= 3, "a closed section has at least three segments", "%zu", n)) { return false; }
    CK(n == cs[ic].aTriInfo.size(), "number of segments", "");
    for (size_t i = 0; i < n; ++i) {
      const dfm2::CSegInfo &s = cs[ic].aTriInfo[i], &s1 = cs[ic].aTriInfo[(i + 1) % n];
      unsigned t = cs[ic].IndTri_Seg((unsigned) i);
      if (!CK(t < m.T.size() / 3 && crossed(m, t, H[ih]), "segment of a triangle crossed by the height", "triangle %u", t)) { return false; }
      if (!CK(seen[ih].insert(t).second, "each crossed triangle once", "triangle %u at height %zu", t, ih)) { return false; }
      double A[3], B[3], a[3], b[3], a1[3], b1[3]; int ea = -1, eb = -1;
      segment(m, t, H[ih], A, B, ea, eb);
      s.Pos3D(a, b, m.X, m.T);
      s1.Pos3D(a1, b1, m.X, m.T);
      // direction of travel is a matter of convention but the same everywhere: compared with A->B or B->A below
      bool fwd = dist(a, A) + dist(b, B) <= dist(a, B) + dist(b, A);
      CKN(std::min(dist(a, A) + dist(b, B), dist(a, B) + dist(b, A)), 0.0, 1e-8, "segment lies on the mesh at the height", "triangle %u", t);
      CK((fwd && s.iedA == ea && s.iedB == eb) || (!fwd && s.iedA == eb && s.iedB == ea) || dist(A, B) < 1e-9, "edges crossed by the segment", "triangle %u: %d %d vs %d %d", t, s.iedA, s.iedB, ea, eb);
      CKN(dist(b, a1), 0.0, 1e-8, "segments join end to start", "segment %zu of %zu", i, n);
      if (!CK(m.S[t * 3 + (unsigned) s.iedB] == (unsigned) s1.itri, "consecutive segments in neighbouring triangles", "segment %zu", i)) { return false; }
      areaL[ih] += 0.5 * (a[0] * b[1] - a[1] * b[0]);
      ctx.count("segments");
    }
    ctx.count("loops");
  }
  // triangles crossed in closed loops: components of crossed triangles in which every triangle has both neighbours
  for (size_t ih = 0; ih < H.size(); ++ih) {
    std::vector<int> done(m.T.size() / 3, 0);
    for (unsigned t0 = 0; t0 < m.T.size() / 3; ++t0) {
      if (done[t0] || !crossed(m, t0, H[ih])) { continue; }
      std::vector<unsigned> comp{t0}; done[t0] = 1; bool open = false;
      for (size_t q = 0; q < comp.size(); ++q) {
        double A[3], B[3]; int ea = -1, eb = -1;
        segment(m, comp[q], H[ih], A, B, ea, eb);
        for (int e: {ea, eb}) {
          unsigned nb = m.S[comp[q] * 3 + (unsigned) e];
          if (nb == UINT_MAX) { open = true; continue; }
          if (!done[nb]) { done[nb] = 1; comp.push_back(nb); }
        }
      }
      for (unsigned t: comp) {
        if (open) { CK(!seen[ih].count(t), "open sections are left out", "triangle %u", t); continue; }
        if (!CK(seen[ih].count(t), "every crossed triangle is covered", "triangle %u at height %g", t, H[ih])) { return false; }
        double A[3], B[3]; int ea, eb;
        segment(m, t, H[ih], A, B, ea, eb);
        areaR[ih] += 0.5 * (A[0] * B[1] - A[1] * B[0]);
      }
      ctx.count(open ? "open_components" : "closed_components");
    }
    CKN(std::fabs(areaL[ih]), std::fabs(areaR[ih]), 1e-8, "area enclosed by the sections", "height %g", H[ih]);
  }
  return !ctx.failed;
}
// pieces (triangle, band) of the surface cut at the heights; components of each band and the sections they touch
static void check_reeb(vh::Ctx &ctx, const Mesh &m, const std::vector<double> &H, const std::vector<dfm2::CSliceTriMesh> &cs, const std::vector<std::set<unsigned>> &G, bool exact) {
  if (!CK(G.size() == cs.size(), "one entry per section", "%zu", G.size())) { return; }
  size_t nt = m.T.size() / 3, nb = H.size() + 1;
  auto band = [&](double l) { return (int) (std::upper_bound(H.begin(), H.end(), l) - H.begin()); };  // number of heights <= l
  std::map<std::pair<unsigned, int>, std::vector<unsigned>> loop_at;  // (triangle,height index) -> section
  for (unsigned ic = 0; ic < cs.size(); ++ic) { for (unsigned i = 0; i < cs[ic].NumSeg(); ++i) { loop_at[{cs[ic].IndTri_Seg(i), cs[ic].IndHeight()}].push_back(ic); } }
  auto range = [&](unsigned t, int &lo, int &hi) { lo = INT_MAX; hi = -1; for (int k = 0; k < 3; ++k) { int b = band(m.L[m.T[t * 3 + (unsigned) k]]); lo = std::min(lo, b); hi = std::max(hi, b); } };
  std::vector<int> comp(nt * nb, -1);
  std::set<std::pair<unsigned, unsigned>> must, may;
  bool multi = false, closed = std::find(m.S.begin(), m.S.end(), UINT_MAX) == m.S.end();
  for (unsigned t = 0; t < nt; ++t) { int lo, hi; range(t, lo, hi); if (hi - lo > 1) { multi = true; } }
  int nc = 0;
  for (unsigned t0 = 0; t0 < nt; ++t0) {
    int lo0, hi0; range(t0, lo0, hi0);
    for (int b = lo0; b <= hi0; ++b) {
      if (comp[t0 * nb + (size_t) b] != -1) { continue; }
      std::vector<unsigned> q{t0}; comp[t0 * nb + (size_t) b] = nc;
      std::set<unsigned> loops; std::vector<unsigned> inner;
      for (size_t i = 0; i < q.size(); ++i) {
        unsigned t = q[i]; int lo, hi; range(t, lo, hi);
        if (lo == hi) { inner.push_back(t); }
        for (int h: {b - 1, b}) { auto it = loop_at.find({t, h}); if (it != loop_at.end()) { loops.insert(it->second.begin(), it->second.end()); } }
        auto at = [&](unsigned u, int h) { auto it = loop_at.find({u, h}); return it == loop_at.end() ? std::vector<unsigned>() : it->second; };
        for (unsigned x: at(t, b - 1)) for (unsigned y: at(t, b)) { must.insert({x, y}); must.insert({y, x}); ctx.count("links_inside_triangle"); }
        for (unsigned k = 0; k < 3; ++k) {
          unsigned s = m.S[t * 3 + k];
          if (s == UINT_MAX) { continue; }
          int b0 = band(m.L[m.T[t * 3 + (k + 1) % 3]]), b1 = band(m.L[m.T[t * 3 + (k + 2) % 3]]);
          if (b < std::min(b0, b1) || b > std::max(b0, b1)) { continue; }
          for (unsigned x: at(t, b - 1)) for (unsigned y: at(s, b)) { must.insert({x, y}); must.insert({y, x}); ctx.count("links_across_edge"); }
          if (comp[s * nb + (size_t) b] == -1) { comp[s * nb + (size_t) b] = nc; q.push_back(s); }
        }
      }
      ++nc;
      bool two = false;
      for (unsigned x: loops) for (unsigned y: loops) { if (cs[x].IndHeight() != cs[y].IndHeight()) { two = true; } }
      // well resolved: the uncut triangles of the component are connected and touch all its sections
      bool resolved = exact;
      if (!resolved && !inner.empty()) {
        std::set<unsigned> in(inner.begin(), inner.end()), vis{inner[0]}, touch; std::vector<unsigned> st{inner[0]};
        while (!st.empty()) {
          unsigned t = st.back(); st.pop_back();
          for (unsigned k = 0; k < 3; ++k) {
            unsigned s = m.S[t * 3 + k];
            if (s == UINT_MAX) { continue; }
            if (in.count(s)) { if (vis.insert(s).second) { st.push_back(s); } continue; }
            for (int h: {b - 1, b}) { auto it = loop_at.find({s, h}); if (it != loop_at.end()) { touch.insert(it->second.begin(), it->second.end()); } }
          }
        }
        resolved = vis.size() == in.size() && touch == loops;
      }
      for (unsigned x: loops) for (unsigned y: loops) {
        if (x == y) { continue; }
        const bool same = cs[x].IndHeight() == cs[y].IndHeight();
        // sections of one height are joined only through a part that no other height bounds
        if (two && same && resolved && closed && !multi) { ctx.count("same_height_kept_apart"); continue; }
        may.insert({x, y});
        if (two && same) { continue; }
        if (resolved) { must.insert({x, y}); }
      }
      if (resolved && loops.size() > 1) { ctx.count("bands_connected"); }
      if (resolved && loops.size() > 2) { ctx.count("branchings"); }
    }
  }
  for (unsigned x = 0; x < G.size(); ++x) for (unsigned y: G[x]) {
    if (!CK(y < G.size() && y != x, "valid connection", "%u-%u", x, y)) { return; }
    CK(G[y].count(x), "connections are mutual", "%u-%u", x, y);
    CK(std::abs(cs[x].IndHeight() - cs[y].IndHeight()) <= 1, "connected sections are consecutive", "%d-%d", cs[x].IndHeight(), cs[y].IndHeight());
    if (exact || (closed && (!multi || cs[x].IndHeight() != cs[y].IndHeight()))) { CK(may.count({x, y}), "connected sections bound a common part of the surface", "sections %u %u at heights %d %d", x, y, cs[x].IndHeight(), cs[y].IndHeight()); }
  }
  if (multi && !exact && !closed) { ctx.count("reeb_coarse_open"); return; }
  ctx.count(exact ? "reeb_convex" : multi ? "reeb_coarse" : "reeb_fine");
  for (auto &e: must) {
    if ((multi || !closed) && !exact && cs[e.first].IndHeight() == cs[e.second].IndHeight()) { continue; }  // which side of the height is not known from the triangles alone
    if (!CK(G[e.first].count(e.second), "sections bounding a common part of the surface are connected", "sections %u %u at heights %d %d", e.first, e.second, cs[e.first].IndHeight(), cs[e.second].IndHeight())) { return; }
  }
}
static void run(vh::Ctx &ctx, Mesh &m, bool on_vtx, int nmax, bool exact) {
  std::vector<double> H = heights(ctx, m, on_vtx, nmax);
  std::vector<dfm2::CSliceTriMesh> cs;
  dfm2::Slice_MeshTri3D_Heights(cs, H, m.L, m.T, m.S);
  if (!check_slices(ctx, m, H, cs)) { return; }
  std::vector<std::set<unsigned>> G;
  dfm2::MakeReebGraph(G, cs, m.T, m.S);
  check_reeb(ctx, m, H, cs, G, exact);
  ctx.sig(vh::Hash().vd(m.X).vd(H).h);
}
static void make(vh::Ctx &ctx, Mesh &m) {
  int kind = ctx.rng.irange(0, 3);
  bool fine = ctx.rng.chance(0.6);
  int nu = fine ? ctx.rng.irange(16, 40) : ctx.rng.irange(3, 8), nv = fine ? ctx.rng.irange(12, 30) : ctx.rng.irange(2, 6);
  if (kind == 0) { add_sphere(ctx, m, 0, 0, 0, 1, ctx.rng.uni(0, 0.6), nu, nv); ctx.count("mesh_sphere"); }
  if (kind == 1) { add_torus(ctx, m, 1.0, ctx.rng.uni(0.2, 0.5), ctx.rng.uni(0, 0.4), nu, std::max(3, nv)); ctx.count("mesh_torus"); }
  if (kind == 2) { int n = ctx.rng.irange(2, 4); for (int i = 0; i < n; ++i) { add_sphere(ctx, m, i * 2.0, ctx.rng.uni(-1, 1), ctx.rng.uni(-1, 1), ctx.rng.uni(0.3, 1), ctx.rng.uni(0, 0.5), nu, nv); } ctx.count("mesh_several"); }
  if (kind == 3) { add_sphere(ctx, m, 0, 0, 0, 1.5, 0, nu, nv); size_t n = m.T.size(); add_sphere(ctx, m, 0, 0, 0, 0.5, 0.2, nu, nv); for (size_t i = n; i + 2 < m.T.size(); i += 3) { std::swap(m.T[i], m.T[i + 1]); } ctx.count("mesh_cavity"); }
  rotate(ctx, m);
  shuffle_tris(ctx, m);
}
VH_FAMILY(closed, 300, 4000) {
  Mesh m;
  make(ctx, m);
  adjacency(m);
  levels(ctx, m, ctx.rng.irange(0, 1));
  run(ctx, m, false, ctx.rng.chance(0.5) ? 4 : 20, false);
}
VH_FAMILY(through_vertices, 80, 1200) {
  Mesh m;
  make(ctx, m);
  adjacency(m);
  levels(ctx, m, ctx.rng.irange(0, 2));
  run(ctx, m, true, 8, false);
}
VH_FAMILY(convex, 120, 2000) {  // one section per height, triangles may span many heights
  Mesh m;
  bool prism = ctx.rng.chance(0.5);
  if (prism) {
    int n = ctx.rng.irange(3, 9);
    for (int i = 0; i < 2 * n; ++i) { double a = 2 * M_PI * (i % n) / n; m.X.insert(m.X.end(), {std::cos(a) * 0.6, std::sin(a) * 0.6, i < n ? -1.0 : 1.0}); }
    unsigned c0 = (unsigned) (2 * n), c1 = c0 + 1;
    m.X.insert(m.X.end(), {0, 0, -1.1, 0, 0, 1.1});
    for (unsigned i = 0; i < (unsigned) n; ++i) {
      unsigned j = (i + 1) % (unsigned) n, N = (unsigned) n;
      m.T.insert(m.T.end(), {i, j, N + j}); m.T.insert(m.T.end(), {i, N + j, N + i});
      m.T.insert(m.T.end(), {c0, j, i}); m.T.insert(m.T.end(), {c1, N + i, N + j});
    }
    if (ctx.rng.chance(0.5)) { rotate(ctx, m); }
    ctx.count("mesh_prism");
  } else { add_sphere(ctx, m, 0, 0, 0, 1, 0, ctx.rng.irange(3, 10), ctx.rng.irange(2, 8)); rotate(ctx, m); }
  shuffle_tris(ctx, m);
  adjacency(m);
  levels(ctx, m, 0);
  run(ctx, m, false, 12, true);
}
VH_FAMILY(open_mesh, 80, 1200) {
  Mesh m;
  make(ctx, m);
  double p = ctx.rng.pick({0.02, 0.1, 0.4});
  std::vector<unsigned> t;
  for (size_t i = 0; i + 2 < m.T.size(); i += 3) { if (!ctx.rng.chance(p)) { t.insert(t.end(), {m.T[i], m.T[i + 1], m.T[i + 2]}); } }
  m.T = t;
  adjacency(m);
  levels(ctx, m, ctx.rng.irange(0, 1));
  run(ctx, m, false, 6, false);
}
VH_FAMILY(contour, 200, 3000) {  // all segments of a level set over a planar or spatial mesh, at any threshold
  Mesh m;
  bool planar = ctx.rng.chance(0.6);
  if (planar) {
    int nx = ctx.rng.irange(1, 12), ny = ctx.rng.irange(1, 12);
    for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) { m.X.insert(m.X.end(), {(double) i, (double) j, 0}); }
    for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
      unsigned a = (unsigned) (j * (nx + 1) + i), b = a + 1, c = a + (unsigned) nx + 1, d = c + 1;
      if (ctx.rng.chance(0.5)) { m.T.insert(m.T.end(), {a, b, d}); m.T.insert(m.T.end(), {a, d, c}); } else { m.T.insert(m.T.end(), {a, b, c}); m.T.insert(m.T.end(), {b, d, c}); }
    }
  } else { make(ctx, m); }
  adjacency(m);
  m.L.resize(m.X.size() / 3);
  int mode = ctx.rng.irange(0, 2);
  double f[4];
  for (double &v: f) { v = ctx.rng.uni(-1, 1); }
  for (size_t i = 0; i < m.L.size(); ++i) {
    if (mode == 0) { m.L[i] = ctx.rng.gauss(); }
    if (mode == 1) { m.L[i] = f[0] * m.X[i * 3] + f[1] * m.X[i * 3 + 1] + f[2] * m.X[i * 3 + 2]; }
    if (mode == 2) { m.L[i] = std::round(m.X[i * 3] - m.X[i * 3 + 1] * (f[0] > 0)) * 0.5; }
  }
  double th = ctx.rng.chance(0.4) ? ctx.rng.pick(m.L) : ctx.rng.uni(-1, 1);
  std::vector<dfm2::CSegInfo> seg;
  seg.resize((size_t) ctx.rng.irange(0, 2));  // appends to what is there
  size_t n0 = seg.size();
  dfm2::AddContour(seg, th, m.T.data(), m.T.size() / 3, m.L.data());
  std::map<unsigned, size_t> at;
  for (size_t i = n0; i < seg.size(); ++i) { if (!CK(seg[i].itri >= 0 && (size_t) seg[i].itri < m.T.size() / 3 && at.insert({(unsigned) seg[i].itri, i}).second, "one segment per triangle", "%d", seg[i].itri)) { return; } }
  int dir = 0;
  for (unsigned t = 0; t < m.T.size() / 3 && !ctx.failed; ++t) {
    bool cr = crossed(m, t, th);
    double A[3], B[3]; int ea = -1, eb = -1;
    if (cr) { segment(m, t, th, A, B, ea, eb); }
    if (!cr) { CK(!at.count(t), "segments only in triangles crossed by the level", "triangle %u", t); continue; }
    bool point = dist(A, B) == 0;
    if (!at.count(t)) { CK(point, "every triangle crossed by the level has a segment", "triangle %u values %g %g %g threshold %g", t, m.L[m.T[t * 3]], m.L[m.T[t * 3 + 1]], m.L[m.T[t * 3 + 2]], th); continue; }
    double a[3], b[3];
    auto &s = seg[at[t]];
    s.Pos3D(a, b, m.X, m.T);
    CKN(std::min(dist(a, A) + dist(b, B), dist(a, B) + dist(b, A)), 0.0, 1e-8, "contour segment lies at the level", "triangle %u", t);
    if (planar) {
      std::vector<double> XY;
      for (size_t i = 0; i < m.X.size() / 3; ++i) { XY.push_back(m.X[i * 3]); XY.push_back(m.X[i * 3 + 1]); }
      double a2[2], b2[2];
      s.Pos2D(a2, b2, XY.data(), m.T.data());
      for (int k = 0; k < 2; ++k) { CKN(a2[k], a[k], 1e-9, "planar position of the start", ""); CKN(b2[k], b[k], 1e-9, "planar position of the end", ""); }
    }
    // the higher values lie on the same side of every segment
    bool fwd = dist(a, A) + dist(b, B) <= dist(a, B) + dist(b, A);
    if (dist(A, B) > 1e-9) {
      if (dir == 0) { dir = fwd ? 1 : -1; }
      CK(dir == (fwd ? 1 : -1), "the higher values lie on the same side of every contour segment", "triangle %u", t);
      ctx.count("contour_directions");
    }
    ctx.count("contour_segments");
    if (!point && th == m.L[m.T[t * 3]]) { ctx.count("contour_at_vertex"); }
  }
  ctx.sig(vh::Hash().vd(m.L).d(th).h);
}
