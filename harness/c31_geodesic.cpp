// C31: shortest paths, clusters, exponential maps and cross fields over mesh adjacency.
#include "../lib/vh.h"
#include <cmath>
#include <climits>
#include <set>
#include <map>
#include <stack>
#include <array>
#include <tuple>
#include <deque>
#include <sstream>
#include <numeric>
#include <algorithm>
#include "delfem2/vec3.h"
#include "delfem2/mat3.h"
#include "delfem2/mat3_funcs.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/geo_tri.h"
#include "delfem2/dijkstra.h"
#include "delfem2/expmap_geo3dijk.h"
#include "delfem2/clusterpoints.h"
#include "delfem2/4rotsym.h"
#include "delfem2/srch_bruteforce.h"
#include "delfem2/sampler_trimesh.h"
namespace dfm2 = delfem2;
typedef std::array<double, 3> V3;
static V3 sub(const V3 &a, const V3 &b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static double dot(const V3 &a, const V3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static V3 cross(const V3 &a, const V3 &b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static double len(const V3 &a) { return std::sqrt(dot(a, a)); }
static V3 unit(const V3 &a) { double l = len(a); return {a[0] / l, a[1] / l, a[2] / l}; }
static V3 axpy(const V3 &a, double s, const V3 &b) { return {a[0] + s * b[0], a[1] + s * b[1], a[2] + s * b[2]}; }

struct Quiet { std::ostringstream s; std::streambuf *o; Quiet() : o(std::cout.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); } };

struct Mesh {
  std::vector<double> X, N; // points, vertex normals
  std::vector<unsigned> T, S, pi, ps, ei, es;
  size_t np() const { return X.size() / 3; }
  size_t nt() const { return T.size() / 3; }
  V3 p(unsigned i) const { return {X[i * 3], X[i * 3 + 1], X[i * 3 + 2]}; }
  V3 n(unsigned i) const { return {N[i * 3], N[i * 3 + 1], N[i * 3 + 2]}; }
  V3 c(unsigned t) const { V3 r = {0, 0, 0}; for (int k = 0; k < 3; ++k) r = axpy(r, 1. / 3, p(T[t * 3 + k])); return r; }
  V3 tn(unsigned t) const { return unit(cross(sub(p(T[t * 3 + 1]), p(T[t * 3])), sub(p(T[t * 3 + 2]), p(T[t * 3])))); }
  void finish(vh::Ctx &ctx, bool shuffle_adj) {
    std::map<std::pair<unsigned, unsigned>, unsigned> e;
    for (unsigned t = 0; t < nt(); ++t) for (unsigned k = 0; k < 3; ++k) e[{T[t * 3 + (k + 1) % 3], T[t * 3 + (k + 2) % 3]}] = t;
    S.assign(T.size(), UINT_MAX);
    for (unsigned t = 0; t < nt(); ++t) for (unsigned k = 0; k < 3; ++k) {
      auto it = e.find({T[t * 3 + (k + 2) % 3], T[t * 3 + (k + 1) % 3]});
      if (it != e.end()) S[t * 3 + k] = it->second;
    }
    std::vector<std::set<unsigned>> nb(np());
    std::vector<std::vector<unsigned>> el(np());
    std::vector<V3> nn(np(), V3{0, 0, 0});
    for (unsigned t = 0; t < nt(); ++t) {
      V3 w = cross(sub(p(T[t * 3 + 1]), p(T[t * 3])), sub(p(T[t * 3 + 2]), p(T[t * 3])));
      for (int k = 0; k < 3; ++k) {
        unsigned a = T[t * 3 + k];
        nn[a] = axpy(nn[a], 1, w);
        el[a].push_back(t);
        for (int l = 1; l < 3; ++l) nb[a].insert(T[t * 3 + (k + l) % 3]);
      }
    }
    N.clear(); pi.assign(1, 0); ps.clear(); ei.assign(1, 0); es.clear();
    for (unsigned i = 0; i < np(); ++i) {
      V3 u = len(nn[i]) > 0 ? unit(nn[i]) : V3{0, 0, 1};
      N.insert(N.end(), u.begin(), u.end());
      std::vector<unsigned> v(nb[i].begin(), nb[i].end());
      if (shuffle_adj) ctx.rng.shuffle(v);
      ps.insert(ps.end(), v.begin(), v.end()); pi.push_back((unsigned) ps.size());
      es.insert(es.end(), el[i].begin(), el[i].end()); ei.push_back((unsigned) es.size());
    }
  }
};
enum Shape { PLANE, CYL, SPHERE, TORUS };
static std::array<V3, 3> frame(vh::Ctx &ctx) {
  V3 a = {ctx.rng.gauss(), ctx.rng.gauss(), ctx.rng.gauss()}; a = unit(a);
  V3 b = {ctx.rng.gauss(), ctx.rng.gauss(), ctx.rng.gauss()}; b = unit(axpy(b, -dot(a, b), a));
  return {a, b, cross(a, b)};
}
static Mesh make(vh::Ctx &ctx, Shape s, int nu, int nv, double jit, std::array<V3, 3> *fr = nullptr) {
  Mesh m;
  auto put = [&](double x, double y, double z) { m.X.push_back(x); m.X.push_back(y); m.X.push_back(z); };
  bool flipd = false;
  if (s == PLANE || s == CYL) {
    double q = ctx.rng.uni(0.5, 2);
    for (int j = 0; j <= nv; ++j) for (int i = 0; i <= nu; ++i) {
      double u = (i + jit * ctx.rng.uni(-.3, .3)) / nu, v = q * (j + jit * ctx.rng.uni(-.3, .3)) / nv;
      if (s == PLANE) put(u, v, 0); else put(std::sin(u), v, std::cos(u) - 1);
    }
    for (int j = 0; j < nv; ++j) for (int i = 0; i < nu; ++i) {
      unsigned a = j * (nu + 1) + i, b = a + 1, c = a + nu + 2, d = a + nu + 1;
      if (ctx.rng.chance(.5)) m.T.insert(m.T.end(), {a, b, c, a, c, d}); else m.T.insert(m.T.end(), {a, b, d, b, c, d});
    }
  } else if (s == SPHERE) {
    nu = std::max(nu, 4); nv = std::max(nv, 3);
    put(0, 0, 1);
    for (int j = 1; j < nv; ++j) for (int i = 0; i < nu; ++i) {
      double a = 2 * M_PI * (i + jit * ctx.rng.uni(-.2, .2)) / nu, b = M_PI * (j + jit * ctx.rng.uni(-.2, .2)) / nv;
      put(std::sin(b) * std::cos(a), std::sin(b) * std::sin(a), std::cos(b));
    }
    put(0, 0, -1);
    auto id = [&](int i, int j) { return 1 + (unsigned) ((j - 1) * nu + (i % nu)); };
    unsigned z = 1 + (unsigned) ((nv - 1) * nu);
    for (int i = 0; i < nu; ++i) {
      m.T.insert(m.T.end(), {0u, id(i, 1), id(i + 1, 1)});
      for (int j = 1; j < nv - 1; ++j) m.T.insert(m.T.end(), {id(i, j), id(i, j + 1), id(i + 1, j + 1), id(i, j), id(i + 1, j + 1), id(i + 1, j)});
      m.T.insert(m.T.end(), {z, id(i + 1, nv - 1), id(i, nv - 1)});
    }
  } else {
    nu = std::max(nu, 4); nv = std::max(nv, 3);
    for (int i = 0; i < nu; ++i) for (int j = 0; j < nv; ++j) {
      double a = 2 * M_PI * (i + jit * ctx.rng.uni(-.2, .2)) / nu, b = 2 * M_PI * (j + jit * ctx.rng.uni(-.2, .2)) / nv;
      put((1 + .4 * std::cos(b)) * std::cos(a), (1 + .4 * std::cos(b)) * std::sin(a), .4 * std::sin(b));
    }
    auto id = [&](int i, int j) { return (unsigned) ((i % nu) * nv + j % nv); };
    for (int i = 0; i < nu; ++i) for (int j = 0; j < nv; ++j) m.T.insert(m.T.end(), {id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j), id(i + 1, j + 1), id(i, j + 1)});
  }
  (void) flipd;
  auto f = frame(ctx);
  if (fr) *fr = f;
  V3 o = {ctx.rng.uni(-1, 1), ctx.rng.uni(-1, 1), ctx.rng.uni(-1, 1)};
  for (size_t i = 0; i < m.np(); ++i) {
    V3 p = m.p((unsigned) i), q = o;
    for (int k = 0; k < 3; ++k) q = axpy(q, p[k], f[k]);
    for (int k = 0; k < 3; ++k) m.X[i * 3 + k] = q[k];
  }
  // renumber triangles
  std::vector<unsigned> per(m.nt()); std::iota(per.begin(), per.end(), 0u); ctx.rng.shuffle(per);
  std::vector<unsigned> T2;
  for (auto t: per) { int r = ctx.rng.irange(0, 2); for (int k = 0; k < 3; ++k) T2.push_back(m.T[t * 3 + (k + r) % 3]); }
  m.T = T2;
  m.finish(ctx, true);
  return m;
}
static Mesh any(vh::Ctx &ctx, int lo = 2, int hi = 9, Shape *sp = nullptr) {
  Shape s = ctx.rng.pick({PLANE, CYL, SPHERE, TORUS});
  if (sp) *sp = s;
  return make(ctx, s, ctx.rng.irange(lo, hi), ctx.rng.irange(lo, hi), ctx.rng.chance(.3) ? 0 : 1);
}
static std::vector<unsigned> bfs(const std::vector<unsigned> &S, unsigned nedge, const std::vector<unsigned> &src, const std::function<bool(unsigned)> &in) {
  size_t n = S.size() / nedge;
  std::vector<unsigned> d(n, UINT_MAX);
  std::deque<unsigned> q;
  for (auto s: src) { d[s] = 0; q.push_back(s); }
  while (!q.empty()) {
    unsigned a = q.front(); q.pop_front();
    for (unsigned k = 0; k < nedge; ++k) { unsigned b = S[a * nedge + k]; if (b == UINT_MAX || d[b] != UINT_MAX || !in(b)) continue; d[b] = d[a] + 1; q.push_back(b); }
  }
  return d;
}
// orders must number the reached ones 0..n-1 by non-decreasing distance
template<typename D>
static void check_order(vh::Ctx &ctx, const std::vector<unsigned> &order, const std::vector<D> &dist, const std::vector<char> &reached, const std::vector<unsigned> &calls, double tol) {
  std::vector<unsigned> at;
  size_t nr = 0;
  for (char c: reached) nr += c;
  at.assign(nr, UINT_MAX);
  for (size_t i = 0; i < order.size(); ++i) {
    if (!CK((order[i] != UINT_MAX) == (bool) reached[i], "visited", "item %zu of %zu reachable %d order %u", i, order.size(), (int) reached[i], order[i])) return;
    if (order[i] == UINT_MAX) continue;
    if (!CK(order[i] < nr && at[order[i]] == UINT_MAX, "each_once", "item %zu has order %u of %zu", i, order[i], nr)) return;
    at[order[i]] = (unsigned) i;
  }
  for (size_t k = 1; k < nr; ++k)
    if (!CK((double) dist[at[k]] >= (double) dist[at[k - 1]] - tol, "nondecreasing", "order %zu distance %.17g after %.17g", k, (double) dist[at[k]], (double) dist[at[k - 1]])) return;
  if (!calls.empty() || nr == 0) CK(calls == at, "callback_order", "callbacks %zu, visited %zu", calls.size(), nr);
  ctx.count("visited", nr);
}

VH_FAMILY(elem_topo, 250, 2500) {
  std::vector<unsigned> S; unsigned nedge;
  int kind = ctx.rng.irange(0, 3);
  if (kind < 2) { Mesh m = any(ctx, 2, 12); S = m.S; nedge = 3; }
  else { // quads or hexahedra on a grid with random holes, only the component of the source
    nedge = kind == 2 ? 4 : 6;
    int n[3] = {ctx.rng.irange(2, 10), ctx.rng.irange(2, 10), nedge == 6 ? ctx.rng.irange(2, 5) : 1};
    std::vector<char> on(n[0] * n[1] * n[2], 1);
    for (auto &c: on) if (ctx.rng.chance(.3)) c = 0;
    std::vector<unsigned> id(on.size(), UINT_MAX);
    auto at = [&](int i, int j, int k) { return (size_t) ((k * n[1] + j) * n[0] + i); };
    // largest component by flood
    std::vector<size_t> best;
    std::vector<char> seen(on.size(), 0);
    for (int k = 0; k < n[2]; ++k) for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i) {
      if (!on[at(i, j, k)] || seen[at(i, j, k)]) continue;
      std::vector<std::array<int, 3>> st = {{i, j, k}}; std::vector<size_t> comp; seen[at(i, j, k)] = 1;
      while (!st.empty()) {
        auto c = st.back(); st.pop_back(); comp.push_back(at(c[0], c[1], c[2]));
        for (unsigned e = 0; e < nedge; ++e) { auto d = c; d[e / 2] += (e % 2) ? 1 : -1; if (d[e / 2] < 0 || d[e / 2] >= n[e / 2]) continue; size_t q = at(d[0], d[1], d[2]); if (on[q] && !seen[q]) { seen[q] = 1; st.push_back(d); } }
      }
      if (comp.size() > best.size()) best = comp;
    }
    if (best.empty()) return;
    ctx.rng.shuffle(best);
    for (size_t i = 0; i < best.size(); ++i) id[best[i]] = (unsigned) i;
    S.assign(best.size() * nedge, UINT_MAX);
    for (size_t i = 0; i < best.size(); ++i) {
      int c[3] = {(int) (best[i] % n[0]), (int) (best[i] / n[0] % n[1]), (int) (best[i] / n[0] / n[1])};
      for (unsigned e = 0; e < nedge; ++e) { int d[3] = {c[0], c[1], c[2]}; d[e / 2] += (e % 2) ? 1 : -1; if (d[e / 2] < 0 || d[e / 2] >= n[e / 2]) continue; S[i * nedge + e] = id[at(d[0], d[1], d[2])]; }
    }
    ctx.count("grid_elements", best.size());
  }
  size_t n = S.size() / nedge;
  ctx.sig(vh::Hash().vu(S).h);
  std::vector<unsigned> dist = {7, 7}, order = {9};
  for (int r = 0; r < 3; ++r) {
    unsigned k = (unsigned) ctx.rng.irange(0, (int) n - 1);
    dfm2::DijkstraElem_MeshElemTopo(dist, order, k, S, n);
    auto ref = bfs(S, nedge, {k}, [](unsigned) { return true; });
    if (!CK(dist == ref, "distance", "source %u of %zu", k, n)) return;
    check_order(ctx, order, dist, std::vector<char>(n, 1), {}, 0);
    ctx.count("searches_steps");
  }
}

struct ProcE {
  std::vector<unsigned> calls; std::vector<char> in; bool bad = false;
  void AddElem(unsigned i, std::vector<unsigned> &o) { if (o[i] != calls.size()) bad = true; calls.push_back(i); }
  bool IsIncludeElem(unsigned i) { return in[i]; }
};
VH_FAMILY(elem_length, 200, 2000) {
  Mesh m = any(ctx, 2, 10);
  ctx.sig(vh::Hash().vd(m.X).vu(m.T).h);
  ProcE pr; pr.in.assign(m.nt(), 1);
  bool part = ctx.rng.chance(.5);
  if (part) { double q = ctx.rng.uni(0, .5); for (auto &c: pr.in) c = !ctx.rng.chance(q); ctx.count("regions"); }
  unsigned k = (unsigned) ctx.rng.irange(0, (int) m.nt() - 1); pr.in[k] = 1;
  std::vector<double> dist = {1., 2.}; std::vector<unsigned> order;
  dfm2::DijkstraElem_MeshElemGeo3(dist, order, pr, k, m.T, m.nt(), m.X, m.S);
  // Bellman-Ford
  std::vector<double> ref(m.nt(), 1e30); ref[k] = 0;
  for (bool ch = true; ch;) {
    ch = false;
    for (unsigned t = 0; t < m.nt(); ++t) { if (ref[t] > 1e29) continue; for (int e = 0; e < 3; ++e) { unsigned u = m.S[t * 3 + e]; if (u == UINT_MAX || !pr.in[u]) continue; double d = ref[t] + len(sub(m.c(t), m.c(u))); if (d < ref[u] - 1e-14) { ref[u] = d; ch = true; } } }
  }
  std::vector<char> reach(m.nt());
  for (unsigned t = 0; t < m.nt(); ++t) {
    reach[t] = ref[t] < 1e29;
    if (!reach[t]) { ctx.count("unreached"); CK(dist[t] < 0, "unreached_distance", "element %u has distance %g", t, dist[t]); continue; }
    if (!CKN(dist[t], ref[t], 1e-11 * (1 + ref[t]), "distance", "element %u of %zu source %u", t, m.nt(), k)) return;
  }
  check_order(ctx, order, dist, reach, pr.calls, 1e-12);
  CK(!pr.bad, "callback_sees_order", "order was not set before the callback");
}

VH_FAMILY(from_boundary, 200, 2000) {
  Mesh m = any(ctx, 2, 11);
  int nf = ctx.rng.irange(1, 4);
  std::vector<unsigned> flg(m.nt());
  // labels by nearest of random centres, plus some salt
  std::vector<V3> cs; for (int i = 0; i < nf; ++i) cs.push_back(m.c((unsigned) ctx.rng.irange(0, (int) m.nt() - 1)));
  for (unsigned t = 0; t < m.nt(); ++t) {
    double b = 1e30;
    for (int i = 0; i < nf; ++i) { double d = len(sub(m.c(t), cs[i])); if (d < b) { b = d; flg[t] = (unsigned) i; } }
    if (ctx.rng.chance(.02)) flg[t] = (unsigned) ctx.rng.irange(0, nf - 1);
  }
  unsigned f0 = (unsigned) ctx.rng.irange(0, nf - 1);
  ctx.sig(vh::Hash().vu(m.T).vu(flg).u(f0).h);
  std::vector<unsigned> src;
  for (unsigned t = 0; t < m.nt(); ++t) { if (flg[t] != f0) continue; bool b = false; for (int e = 0; e < 3; ++e) { unsigned u = m.S[t * 3 + e]; if (u == UINT_MAX || flg[u] != f0) b = true; } if (b) src.push_back(t); }
  auto ref = bfs(m.S, 3, src, [&](unsigned t) { return flg[t] == f0; });
  ProcE pr; std::vector<unsigned> order, dist;
  { Quiet q; dfm2::Dijkstra_FillFromBoundary(order, dist, pr, f0, flg, m.S); }
  if (!CK(dist == ref, "distance", "%zu sources", src.size())) return;
  std::vector<char> reach(m.nt());
  for (unsigned t = 0; t < m.nt(); ++t) reach[t] = ref[t] != UINT_MAX;
  check_order(ctx, order, dist, reach, pr.calls, 0);
  ctx.count("sources", src.size());
  if (src.empty()) ctx.count("no_boundary");
}

VH_FAMILY(cluster_elements, 120, 1200) {
  Mesh m = any(ctx, 2, 5);
  size_t n = m.nt();
  unsigned nc = (unsigned) ctx.rng.irange(1, std::min<int>(6, (int) n));
  ctx.sig(vh::Hash().vu(m.T).u(nc).h);
  std::vector<unsigned> lab = {5};
  dfm2::MeshClustering(lab, nc, m.S, n);
  if (!CK(lab.size() == n, "size", "%zu of %zu", lab.size(), n)) return;
  std::vector<size_t> cnt(nc, 0);
  for (auto l: lab) { if (!CK(l < nc, "label", "%u of %u", l, nc)) return; cnt[l]++; }
  for (unsigned l = 0; l < nc; ++l) {
    if (!CK(cnt[l] > 0, "nonempty", "cluster %u of %u on %zu elements", l, nc, n)) return;
    unsigned s = (unsigned) (std::find(lab.begin(), lab.end(), l) - lab.begin());
    auto d = bfs(m.S, 3, {s}, [&](unsigned t) { return lab[t] == l; });
    size_t k = 0; for (unsigned t = 0; t < n; ++t) k += d[t] != UINT_MAX;
    CK(k == cnt[l], "connected", "cluster %u reaches %zu of %zu", l, k, cnt[l]);
  }
  ctx.count("clusters", nc);
  if (nc <= 4 && n <= 60) { // the labels come from some farthest-point history
    std::vector<std::vector<unsigned>> D;
    for (unsigned t = 0; t < n; ++t) D.push_back(bfs(m.S, 3, {t}, [](unsigned) { return true; }));
    long budget = 40000;
    std::function<int(unsigned, const std::vector<unsigned> &, const std::vector<unsigned> &)> rec = [&](unsigned k, const std::vector<unsigned> &d, const std::vector<unsigned> &l) -> int {
      if (--budget < 0) return -1;
      if (k == nc) return l == lab;
      unsigned mx = *std::max_element(d.begin(), d.end());
      int res = 0;
      for (unsigned t = 0; t < n; ++t) {
        if (d[t] != mx || lab[t] != k) continue;
        auto d2 = d; auto l2 = l;
        for (unsigned u = 0; u < n; ++u) if (D[t][u] < d[u]) { d2[u] = D[t][u]; l2[u] = k; }
        int r = rec(k + 1, d2, l2);
        if (r == 1) return 1;
        if (r < 0) res = -1;
      }
      return res;
    };
    int ok = 0;
    for (unsigned t = 0; t < n && ok != 1; ++t) { if (lab[t] != 0) continue; int r = rec(1, D[t], std::vector<unsigned>(n, 0)); if (r == 1) ok = 1; else if (r < 0 && ok == 0) ok = -1; }
    if (ok != -1) { ctx.count("cluster_histories"); CK(ok == 1, "farthest_point_history", "%u clusters on %zu elements have no farthest-point history", nc, n); }
  }
}

struct ProcP {
  std::vector<unsigned> calls; bool bad = false;
  void AddPoint(unsigned i, std::vector<unsigned> &o) { if (o[i] != calls.size()) bad = true; calls.push_back(i); }
};
static std::vector<double> point_dist(const Mesh &m, unsigned k) {
  std::vector<double> ref(m.np(), 1e30); ref[k] = 0;
  for (bool ch = true; ch;) {
    ch = false;
    for (unsigned i = 0; i < m.np(); ++i) { if (ref[i] > 1e29) continue; for (unsigned s = m.pi[i]; s < m.pi[i + 1]; ++s) { unsigned j = m.ps[s]; double d = ref[i] + len(sub(m.p(i), m.p(j))); if (d < ref[j] - 1e-14) { ref[j] = d; ch = true; } } }
  }
  return ref;
}
VH_FAMILY(points, 200, 2000) {
  Mesh m = any(ctx, 2, 11);
  ctx.sig(vh::Hash().vd(m.X).h);
  unsigned k = (unsigned) ctx.rng.irange(0, (int) m.np() - 1);
  ProcP pr; std::vector<double> dist = {3.}; std::vector<unsigned> order;
  dfm2::DijkstraPoint_MeshTri3D(dist, order, pr, k, m.X, m.pi, m.ps);
  auto ref = point_dist(m, k);
  CK(dist[k] == 0, "source_distance", "distance of the source is %.17g", dist[k]);
  for (unsigned i = 0; i < m.np(); ++i) if (i != k && !CKN(dist[i], ref[i], 1e-11 * (1 + ref[i]), "distance", "point %u of %zu source %u", i, m.np(), k)) return;
  CK(!pr.bad, "callback_sees_order", "order was not set before the callback");
  check_order(ctx, order, ref, std::vector<char>(m.np(), 1), pr.calls, 1e-12);
  ctx.count("point_sources");
}

// ----- pairing of points
VH_FAMILY(pairing, 250, 2500) {
  Mesh m = any(ctx, 2, 10);
  size_t n = m.np();
  std::vector<double> area(n);
  int ak = ctx.rng.irange(0, 2);
  for (auto &a: area) a = ak == 0 ? 1.0 : ak == 1 ? (double) ctx.rng.irange(1, 3) : ctx.rng.uni(.1, 2);
  if (ak == 0) ctx.count("equal_areas");
  ctx.sig(vh::Hash().vd(m.X).vd(area).h);
  if (ctx.rng.chance(.3)) for (unsigned i = 0; i < n; ++i) { m.N[i * 3] = 0; m.N[i * 3 + 1] = .6; m.N[i * 3 + 2] = .8; }
  std::vector<double> X1 = {1, 2, 3}, A1 = {4}, N1 = {5, 6, 7}; std::vector<unsigned> map = {1};
  // normals of a pair pointing apart have no mean; keep to half spaces
  for (unsigned i = 0; i < n; ++i) for (unsigned s = m.pi[i]; s < m.pi[i + 1]; ++s) if (dot(m.n(i), m.n(m.ps[s])) < -.99) return;
  dfm2::BinaryClustering_Points3d(X1, A1, N1, map, m.X, area, m.N, m.pi, m.ps);
  std::vector<unsigned> map2(n, 77);
  unsigned n2 = dfm2::BinaryClustering_Points2d(map2.data(), (unsigned) n, area.data(), m.pi.data(), m.ps.data());
  size_t n1 = A1.size();
  if (!CK(map.size() == n && X1.size() == n1 * 3 && N1.size() == n1 * 3, "sizes", "%zu points %zu clusters", map.size(), n1)) return;
  for (int w = 0; w < 2; ++w) {
    const auto &mp = w ? map2 : map; size_t nc = w ? n2 : n1;
    std::vector<std::vector<unsigned>> mem(nc);
    for (unsigned i = 0; i < n; ++i) { if (!CK(mp[i] < nc, "label", "point %u in cluster %u of %zu", i, mp[i], nc)) return; mem[mp[i]].push_back(i); }
    std::vector<char> single(n, 0);
    for (size_t c = 0; c < nc; ++c) {
      if (!CK(mem[c].size() == 1 || mem[c].size() == 2, "cluster_size", "cluster %zu has %zu points", c, mem[c].size())) return;
      if (mem[c].size() == 1) { single[mem[c][0]] = 1; continue; }
      unsigned i = mem[c][0], j = mem[c][1]; bool adj = false;
      for (unsigned s = m.pi[i]; s < m.pi[i + 1]; ++s) adj |= m.ps[s] == j;
      CK(adj, "pair_adjacent", "points %u and %u are merged but not connected", i, j);
      ctx.count("pairs");
    }
    for (unsigned i = 0; i < n; ++i) if (single[i]) for (unsigned s = m.pi[i]; s < m.pi[i + 1]; ++s)
      if (!CK(!single[m.ps[s]], w ? "maximal_2d" : "maximal_3d", "connected points %u and %u are both left alone (%zu points into %zu)", i, m.ps[s], n, nc)) return;
    if (w == 0) {
      double ta = 0; V3 tx = {0, 0, 0};
      for (size_t c = 0; c < nc; ++c) {
        double a = 0; V3 x = {0, 0, 0}, nn = {0, 0, 0};
        for (auto i: mem[c]) { a += area[i]; x = axpy(x, area[i], m.p(i)); nn = axpy(nn, area[i], m.n(i)); }
        nn = unit(nn);
        CKN(A1[c], a, 1e-13 * a, "area", "cluster %zu", c);
        for (int k = 0; k < 3; ++k) { CKN(X1[c * 3 + k], x[k] / a, 1e-12, "position", "cluster %zu", c); CKN(N1[c * 3 + k], nn[k], 1e-9, "normal", "cluster %zu of %zu points", c, mem[c].size()); }
        ta += A1[c];
        tx = axpy(tx, A1[c], V3{X1[c * 3], X1[c * 3 + 1], X1[c * 3 + 2]});
      }
      double sa = std::accumulate(area.begin(), area.end(), 0.);
      CKN(ta, sa, 1e-11 * sa, "area_total", "total area");
    }
    // adjacency of the clusters
    std::vector<unsigned> pi1 = {9, 9}, ps1 = {3};
    dfm2::Clustering_Psup(pi1, ps1, nc, n, mp.data(), m.pi.data(), m.ps.data());
    std::vector<std::set<unsigned>> ref(nc);
    for (unsigned i = 0; i < n; ++i) for (unsigned s = m.pi[i]; s < m.pi[i + 1]; ++s) if (mp[i] != mp[m.ps[s]]) ref[mp[i]].insert(mp[m.ps[s]]);
    if (!CK(pi1.size() == nc + 1 && pi1[0] == 0 && pi1[nc] == ps1.size(), "quotient_size", "%zu", pi1.size())) return;
    for (size_t c = 0; c < nc; ++c) {
      if (!CK(pi1[c] <= pi1[c + 1], "quotient_index", "cluster %zu", c)) return;
      std::set<unsigned> g(ps1.begin() + pi1[c], ps1.begin() + pi1[c + 1]);
      CK(g.size() == pi1[c + 1] - pi1[c] && g == ref[c], "quotient", "cluster %zu of %zu has %u neighbours, expected %zu", c, nc, pi1[c + 1] - pi1[c], ref[c].size());
    }
    ctx.count("quotients");
  }
}
VH_FAMILY(quotient, 150, 1500) { // any map, also more than two points in a cluster
  int n = ctx.rng.irange(1, 60), nc = ctx.rng.irange(1, n);
  std::vector<std::set<unsigned>> nb(n);
  int ne = ctx.rng.irange(0, 4 * n);
  for (int e = 0; e < ne; ++e) { unsigned a = (unsigned) ctx.rng.irange(0, n - 1), b = (unsigned) ctx.rng.irange(0, n - 1); if (a == b) continue; nb[a].insert(b); nb[b].insert(a); }
  std::vector<unsigned> pi = {0}, ps, mp(n);
  for (int i = 0; i < n; ++i) { std::vector<unsigned> v(nb[i].begin(), nb[i].end()); ctx.rng.shuffle(v); ps.insert(ps.end(), v.begin(), v.end()); pi.push_back((unsigned) ps.size()); }
  for (auto &c: mp) c = (unsigned) ctx.rng.irange(0, nc - 1); // some clusters may be empty
  ctx.sig(vh::Hash().vu(ps).vu(mp).h);
  std::vector<unsigned> pi1, ps1;
  dfm2::Clustering_Psup(pi1, ps1, nc, n, mp.data(), pi.data(), ps.data());
  std::vector<std::set<unsigned>> ref(nc);
  for (int i = 0; i < n; ++i) for (auto j: nb[i]) if (mp[i] != mp[j]) ref[mp[i]].insert(mp[j]);
  if (!CK(pi1.size() == (size_t) nc + 1 && pi1[0] == 0 && pi1[nc] == ps1.size(), "size", "%zu", pi1.size())) return;
  for (int c = 0; c < nc; ++c) {
    if (!CK(pi1[c] <= pi1[c + 1], "index", "cluster %d", c)) return;
    std::set<unsigned> g(ps1.begin() + pi1[c], ps1.begin() + pi1[c + 1]);
    CK(g.size() == pi1[c + 1] - pi1[c] && g == ref[c], "neighbours", "cluster %d of %d has %u neighbours, expected %zu", c, nc, pi1[c + 1] - pi1[c], ref[c].size());
    ctx.count("general_quotient_clusters");
  }
}

// ----- exponential maps
static V3 rotate_min(const V3 &a, const V3 &b, const V3 &x) { // rotation taking a to b without twist
  V3 w = cross(a, b); double c = dot(a, b);
  V3 r = {x[0] * c, x[1] * c, x[2] * c};
  r = axpy(r, 1, cross(w, x));
  return axpy(r, dot(w, x) / (1 + c), w);
}
// items with position c, unit normal n and neighbours; returns coordinates by the definition
static void exp_ref(std::vector<double> &tex, std::vector<V3> &ax, unsigned ker, const V3 &ax0, const std::vector<V3> &c, const std::vector<V3> &n, const std::vector<std::vector<unsigned>> &nb, const std::vector<unsigned> &order) {
  size_t N = c.size();
  std::vector<unsigned> at;
  for (size_t i = 0; i < N; ++i) if (order[i] != UINT_MAX) { if (at.size() <= order[i]) at.resize(order[i] + 1, UINT_MAX); at[order[i]] = (unsigned) i; }
  tex.assign(N * 2, 0); ax.assign(N, V3{0, 0, 0});
  for (auto i: at) {
    if (i == ker) { ax[i] = ax0; continue; }
    double sw = 0, u = 0, v = 0; V3 sx = {0, 0, 0};
    for (auto j: nb[i]) {
      if (order[j] == UINT_MAX || order[j] >= order[i]) continue;
      V3 d = sub(c[i], c[j]); double l = len(d), w = 1 / l;
      V3 e = unit(axpy(d, -dot(d, n[j]), n[j]));
      V3 yj = cross(n[j], ax[j]);
      u += w * (tex[j * 2] + l * dot(e, ax[j])); v += w * (tex[j * 2 + 1] + l * dot(e, yj)); sw += w;
      sx = axpy(sx, w, rotate_min(n[j], n[i], ax[j]));
    }
    tex[i * 2] = u / sw; tex[i * 2 + 1] = v / sw; ax[i] = unit(sx);
  }
}
static bool smooth_enough(const std::vector<V3> &n, const std::vector<V3> &c, const std::vector<std::vector<unsigned>> &nb) {
  for (size_t i = 0; i < n.size(); ++i) for (auto j: nb[i]) {
    if (dot(n[i], n[j]) < -.9) return false;
    V3 d = sub(c[i], c[j]); double l = len(d);
    if (len(axpy(d, -dot(d, n[j]), n[j])) < .02 * l) return false;
  }
  return true;
}
VH_FAMILY(exp_points, 150, 1500) {
  Shape s; Mesh m = any(ctx, 4, 12, &s);
  ctx.sig(vh::Hash().vd(m.X).h);
  std::vector<V3> c, n; std::vector<std::vector<unsigned>> nb;
  for (unsigned i = 0; i < m.np(); ++i) { c.push_back(m.p(i)); n.push_back(m.n(i)); nb.emplace_back(m.ps.begin() + m.pi[i], m.ps.begin() + m.pi[i + 1]); }
  if (!smooth_enough(n, c, nb)) return;
  std::vector<double> tex;
  for (int rep = 0; rep < 2; ++rep) { // the same buffer is used again for another centre
    unsigned k = (unsigned) ctx.rng.irange(0, (int) m.np() - 1);
    dfm2::CExpMap_DijkstraPoint em(k, m.X, m.N, m.T, tex, m.pi, m.ps);
    std::vector<double> dist; std::vector<unsigned> order;
    dfm2::DijkstraPoint_MeshTri3D(dist, order, em, k, m.X, m.pi, m.ps);
    const char *w = rep ? "second_map" : "map";
    V3 x0 = {em.aAxisX[k].x, em.aAxisX[k].y, em.aAxisX[k].z};
    CK(std::fabs(len(x0) - 1) < 1e-10 && std::fabs(dot(x0, n[k])) < 1e-10, "frame", "centre frame %g %g", len(x0), dot(x0, n[k]));
    std::vector<double> ref; std::vector<V3> ax;
    exp_ref(ref, ax, k, x0, c, n, nb, order);
    bool tw = false; // sums of axes that nearly cancel are not judged
    if (s == SPHERE || s == TORUS) tw = true;
    auto ds = point_dist(m, k);
    for (unsigned i = 0; i < m.np(); ++i) {
      if (tw && ds[i] > .8) continue;
      if (!CKN(tex[i * 2], ref[i * 2], 1e-8, w, "u of point %u centre %u shape %d", i, k, (int) s) || !CKN(tex[i * 2 + 1], ref[i * 2 + 1], 1e-8, w, "v of point %u centre %u shape %d", i, k, (int) s)) return;
      ctx.count("exp_points");
      if (s == PLANE) {
        V3 d = sub(c[i], c[k]), y0 = cross(n[k], x0);
        CKN(tex[i * 2], dot(d, x0), 1e-10, "plane_isometry", "point %u", i);
        CKN(tex[i * 2 + 1], dot(d, y0), 1e-10, "plane_isometry", "point %u", i);
        ctx.count("exp_plane_points");
      }
    }
    if (rep) ctx.count("exp_buffer_reused");
  }
}
VH_FAMILY(exp_elements, 150, 1500) {
  Shape s; Mesh m = any(ctx, 3, 10, &s);
  ctx.sig(vh::Hash().vd(m.X).h);
  std::vector<V3> c, n; std::vector<std::vector<unsigned>> nb(m.nt());
  for (unsigned t = 0; t < m.nt(); ++t) { c.push_back(m.c(t)); n.push_back(m.tn(t)); for (int e = 0; e < 3; ++e) if (m.S[t * 3 + e] != UINT_MAX) nb[t].push_back(m.S[t * 3 + e]); }
  if (!smooth_enough(n, c, nb)) return;
  std::vector<double> tex;
  for (int rep = 0; rep < 2; ++rep) {
    unsigned k = (unsigned) ctx.rng.irange(0, (int) m.nt() - 1);
    bool flag = ctx.rng.chance(.5);
    std::vector<unsigned> flg(m.nt(), 3);
    if (flag) for (unsigned t = 0; t < m.nt(); ++t) if (len(sub(c[t], c[k])) > .6) flg[t] = 4;
    std::vector<double> dist; std::vector<unsigned> order;
    V3 x0; std::vector<dfm2::CVec3d> axs;
    if (flag) {
      dfm2::CExpMap_DijkstraElemFlag em(tex, k, m.X, m.T, m.S, flg);
      dfm2::DijkstraElem_MeshElemGeo3(dist, order, em, k, m.T, m.nt(), m.X, m.S);
      x0 = {em.aAxisX[k].x, em.aAxisX[k].y, em.aAxisX[k].z};
      ctx.count("exp_regions");
    } else {
      dfm2::CExpMap_DijkstraElem em(tex, k, m.X, m.T, m.S);
      dfm2::DijkstraElem_MeshElemGeo3(dist, order, em, k, m.T, m.nt(), m.X, m.S);
      x0 = {em.aAxisX[k].x, em.aAxisX[k].y, em.aAxisX[k].z};
    }
    const char *w = rep ? "second_map" : "map";
    std::vector<double> ref; std::vector<V3> ax;
    exp_ref(ref, ax, k, x0, c, n, nb, order);
    for (unsigned i = 0; i < m.nt(); ++i) {
      if (order[i] == UINT_MAX) { CK(flg[i] != 3 || flag, "reached", "element %u", i); continue; }
      CK(flg[i] == 3, "region", "element %u outside the region was visited", i);
      if ((s == SPHERE || s == TORUS) && dist[i] > .8) continue;
      if (!CKN(tex[i * 2], ref[i * 2], 1e-8, w, "u of element %u centre %u shape %d", i, k, (int) s) || !CKN(tex[i * 2 + 1], ref[i * 2 + 1], 1e-8, w, "v of element %u centre %u shape %d", i, k, (int) s)) return;
      ctx.count("exp_elements");
      if (s == PLANE) {
        V3 d = sub(c[i], c[k]), y0 = cross(n[k], x0);
        CKN(tex[i * 2], dot(d, x0), 1e-10, "plane_isometry", "element %u", i);
        CKN(tex[i * 2 + 1], dot(d, y0), 1e-10, "plane_isometry", "element %u", i);
      }
    }
  }
}
VH_FAMILY(flatten, 100, 1000) {
  Mesh m = make(ctx, ctx.rng.pick({PLANE, PLANE, CYL}), ctx.rng.irange(4, 12), ctx.rng.irange(4, 12), 1);
  std::vector<unsigned> flg(m.nt(), 0);
  V3 mid = m.c((unsigned) ctx.rng.irange(0, (int) m.nt() - 1)); double r = ctx.rng.uni(.2, .8);
  for (unsigned t = 0; t < m.nt(); ++t) flg[t] = len(sub(m.c(t), mid)) < r ? 1 : 2;
  // one connected region
  unsigned f = 1; std::vector<unsigned> in;
  for (unsigned t = 0; t < m.nt(); ++t) if (flg[t] == f) in.push_back(t);
  auto rd = bfs(m.S, 3, {in[0]}, [&](unsigned t) { return flg[t] == f; });
  for (auto t: in) if (rd[t] == UINT_MAX) return;
  ctx.sig(vh::Hash().vd(m.X).vu(flg).h);
  std::vector<unsigned> src;
  for (auto t: in) { bool b = false; for (int e = 0; e < 3; ++e) { unsigned u = m.S[t * 3 + e]; if (u == UINT_MAX || flg[u] != f) b = true; } if (b) src.push_back(t); }
  auto depth = bfs(m.S, 3, src, [&](unsigned t) { return flg[t] == f; });
  unsigned mx = 0; for (auto t: in) mx = std::max(mx, depth[t]);
  unsigned ker = UINT_MAX; dfm2::CVec3d co[4]; std::vector<double> tp = {1.};
  { Quiet q; dfm2::FlatteringPattern(ker, co, tp, m.X, m.T, m.S, f, flg, m.ei, m.es); }
  if (!CK(ker < m.nt() && flg[ker] == f, "centre", "centre %u", ker)) return;
  CK(depth[ker] == mx, "centre_depth", "centre depth %u, deepest %u", depth[ker], mx);
  V3 ax = {co[0].x, co[0].y, co[0].z}, ay = {co[1].x, co[1].y, co[1].z}, az = {co[2].x, co[2].y, co[2].z}, o = {co[3].x, co[3].y, co[3].z};
  CK(std::fabs(dot(cross(ax, ay), az) - 1) < 1e-9 && len(sub(az, m.tn(ker))) < 1e-9 && len(sub(o, m.c(ker))) < 1e-9, "frame", "frame of the centre");
  std::vector<V3> c, n; std::vector<std::vector<unsigned>> nb(m.nt());
  for (unsigned t = 0; t < m.nt(); ++t) { c.push_back(m.c(t)); n.push_back(m.tn(t)); for (int e = 0; e < 3; ++e) if (m.S[t * 3 + e] != UINT_MAX) nb[t].push_back(m.S[t * 3 + e]); }
  // element coordinates: exact in a plane; on the unrolled cylinder within a few percent
  bool plane = true; for (unsigned t = 0; t < m.nt(); ++t) if (dot(n[t], az) < 1 - 1e-9) plane = false;
  for (unsigned i = 0; i < m.np(); ++i) {
    double w = 0, u = 0, v = 0;
    for (unsigned q = m.ei[i]; q < m.ei[i + 1]; ++q) { unsigned t = m.es[q]; if (flg[t] != f) continue; double x = 1 / len(sub(m.p(i), c[t])); V3 d = sub(c[t], o); w += x; u += x * dot(d, ax); v += x * dot(d, ay); }
    if (w == 0) continue;
    ctx.count("flat_points");
    if (plane) { CKN(tp[i * 2], u / w, 1e-9, "coordinates", "point %u", i); CKN(tp[i * 2 + 1], v / w, 1e-9, "coordinates", "point %u", i); }
    else {
      V3 d = sub(m.p(i), o); double L = len(d), R = std::hypot(tp[i * 2], tp[i * 2 + 1]);
      double h = 0; for (unsigned q = m.ei[i]; q < m.ei[i + 1]; ++q) h = std::max(h, len(sub(m.p(i), c[m.es[q]])));
      CK(R > .6 * L - 2 * h && R < 1.8 * L + 2 * h, "radius", "point %u at distance %g mapped to %g (element size %g)", i, L, R, h);
    }
  }
}

// ----- cross fields
static std::array<V3, 4> cross_of(const V3 &o, const V3 &n) { V3 p = cross(n, o); return {o, p, V3{-o[0], -o[1], -o[2]}, V3{-p[0], -p[1], -p[2]}}; }
VH_FAMILY(cross_pairs, 300, 3000) {
  V3 n0 = frame(ctx)[0];
  V3 n1 = ctx.rng.chance(.3) ? n0 : unit(axpy(n0, ctx.rng.uni(0, 1.), frame(ctx)[0]));
  auto tang = [&](const V3 &n) { V3 a = frame(ctx)[0]; return unit(axpy(a, -dot(a, n), n)); };
  V3 o0 = tang(n0), o1 = tang(n1);
  double w = ctx.rng.pick({0., 1., 2., 5.});
  unsigned id = 99;
  auto C = [](const V3 &v) { return dfm2::CVec3d(v[0], v[1], v[2]); };
  ctx.sig(vh::Hash().d(o0[0]).d(o1[0]).d(w).h);
  auto g = dfm2::FindNearestOrientation(id, C(o0), C(n0), C(o1), C(n1), w);
  V3 r = {g.x, g.y, g.z};
  auto A = cross_of(o0, n0), B = cross_of(o1, n1);
  double b1 = -9, b2 = -9; int bi = 0, bj = 0; // best and next best of the pairs up to a common turn
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 4; ++j) { double d = dot(A[i], B[j]); if (d > b1) { b2 = b1; b1 = d; bi = i; bj = j; } else if (d > b2) b2 = d; }
  CK(std::fabs(len(r) - 1) < 1e-9 && std::fabs(dot(r, n0)) < 1e-9, "tangent_unit", "length %.15g normal part %.3g", len(r), dot(r, n0));
  if (b1 - b2 < 1e-6) return;
  ctx.count("cross_pairs");
  V3 e = axpy(V3{A[bi][0] * w, A[bi][1] * w, A[bi][2] * w}, 1, B[bj]);
  e = unit(axpy(e, -dot(e, n0), n0));
  if (bi == 1) e = cross(e, n0);
  CK(len(sub(e, r)) < 1e-9, "nearest", "weight %g difference %.3g", w, len(sub(e, r)));
  CK(id == (unsigned) ((bi + 4 - bj) % 4), "turns", "%u expected %d", id, (bi + 4 - bj) % 4);
  // the result names the same cross whichever of its four directions each input is given by
  int i = ctx.rng.irange(0, 3), j = ctx.rng.irange(0, 3); unsigned id2;
  auto h = dfm2::FindNearestOrientation(id2, C(A[i]), C(n0), C(B[j]), C(n1), w);
  V3 q = {h.x, h.y, h.z};
  double best = 9; for (auto &x: cross_of(r, n0)) best = std::min(best, len(sub(x, q)));
  CK(best < 1e-6, "same_cross", "turned inputs (%d, %d) give another cross, off by %.3g", i, j, best);
}
static double cross_energy(const Mesh &m, const std::vector<double> &O) {
  double e = 0;
  for (unsigned i = 0; i < m.np(); ++i) for (unsigned s = m.pi[i]; s < m.pi[i + 1]; ++s) {
    unsigned j = m.ps[s]; double b = -9;
    V3 oi = {O[i * 3], O[i * 3 + 1], O[i * 3 + 2]}, oj = {O[j * 3], O[j * 3 + 1], O[j * 3 + 2]};
    for (auto &x: cross_of(oi, m.n(i))) b = std::max(b, dot(x, oj));
    e += 1 - b;
  }
  return e;
}
VH_FAMILY(cross_field, 150, 1500) {
  Shape s = PLANE; Mesh m = ctx.rng.chance(.5) ? make(ctx, PLANE, ctx.rng.irange(3, 8), ctx.rng.irange(3, 8), 1) : any(ctx, 3, 8, &s);
  size_t n = m.np();
  ctx.sig(vh::Hash().vd(m.X).h);
  std::vector<double> O(n * 3);
  bool constant = s == PLANE && ctx.rng.chance(.6);
  V3 base = {0, 0, 0};
  double amp = constant ? ctx.rng.pick({0., .3}) : 3;
  for (unsigned i = 0; i < n; ++i) {
    V3 nn = m.n(i), t;
    if (constant) {
      if (i == 0) { t = frame(ctx)[0]; base = unit(axpy(t, -dot(t, nn), nn)); }
      double a = amp * ctx.rng.uni(-1, 1) + M_PI / 2 * ctx.rng.irange(0, 3);
      V3 y = cross(nn, base); t = axpy(V3{base[0] * std::cos(a), base[1] * std::cos(a), base[2] * std::cos(a)}, std::sin(a), y);
    } else { t = frame(ctx)[0]; t = unit(axpy(t, -dot(t, nn), nn)); }
    for (int k = 0; k < 3; ++k) O[i * 3 + k] = t[k];
  }
  int mode = ctx.rng.irange(0, 1);
  std::vector<unsigned> per(n); std::iota(per.begin(), per.end(), 0u);
  double e0 = cross_energy(m, O), e1 = 0;
  int steps = 30;
  for (int it = 0; it < steps; ++it) {
    auto O0 = O;
    if (mode == 0) {
      dfm2::Smooth4RotSym(O, m.N, m.pi, m.ps);
      if (it == 0) { // one pass by the definition
        std::vector<double> R = O0; bool ok = true;
        for (unsigned i = 0; i < n && ok; ++i) {
          V3 o = {R[i * 3], R[i * 3 + 1], R[i * 3 + 2]}; double w = 0;
          for (unsigned q = m.pi[i]; q < m.pi[i + 1]; ++q) {
            unsigned j = m.ps[q]; auto A = cross_of(o, m.n(i)), B = cross_of(V3{R[j * 3], R[j * 3 + 1], R[j * 3 + 2]}, m.n(j));
            double b1 = -9, b2 = -9; int bi = 0, bj = 0;
            for (int x = 0; x < 2; ++x) for (int y = 0; y < 4; ++y) { double d = dot(A[x], B[y]); if (d > b1) { b2 = b1; b1 = d; bi = x; bj = y; } else if (d > b2) b2 = d; }
            if (b1 - b2 < 1e-7) { ok = false; break; } // ambiguous
            V3 e = axpy(V3{A[bi][0] * w, A[bi][1] * w, A[bi][2] * w}, 1, B[bj]);
            e = unit(axpy(e, -dot(e, m.n(i)), m.n(i))); if (bi == 1) e = cross(e, m.n(i));
            o = e; w += 1;
          }
          for (int k = 0; k < 3; ++k) R[i * 3 + k] = o[k];
        }
        if (ok) { ctx.count("cross_pass"); double df = 0; for (size_t k = 0; k < R.size(); ++k) df = std::max(df, std::fabs(R[k] - O[k])); CK(df < 1e-6, "pass", "differs by %.3g from the running average over the neighbours", df); }
      }
    } else {
      dfm2::Smooth4RotSym_RandomPermutation(O, per, m.N, m.pi, m.ps);
      auto q = per; std::sort(q.begin(), q.end()); bool id = true; for (size_t i = 0; i < n; ++i) id = id && q[i] == i;
      CK(id, "permutation", "the visiting order is no permutation any more");
    }
    for (unsigned i = 0; i < n; ++i) {
      V3 t = {O[i * 3], O[i * 3 + 1], O[i * 3 + 2]};
      if (!CK(std::fabs(len(t) - 1) < 1e-6 && std::fabs(dot(t, m.n(i))) < 1e-6, "tangent_unit", "point %u length %.15g normal part %.3g", i, len(t), dot(t, m.n(i)))) return;
    }
    ctx.count("cross_steps");
  }
  e1 = cross_energy(m, O);
  if (constant && amp == 0) { CK(e1 < 1e-9, "constant_kept", "energy of a constant field grew to %.3g", e1); ctx.count("cross_constant"); }
  else if (constant) { CK(e1 < .2 * e0 + 1e-9, mode ? "smooths_random_order" : "smooths", "energy %g from %g after %d passes", e1, e0, steps); ctx.count("cross_disturbed"); }
  else ctx.count("cross_random"); // a coarse random field may be locked in a local minimum
}
VH_FAMILY(cross_plane, 100, 1000) {
  Mesh m = make(ctx, PLANE, ctx.rng.irange(3, 9), ctx.rng.irange(3, 9), 1);
  size_t n = m.np(); std::vector<double> O(n * 2);
  double a0 = ctx.rng.uni(0, 6); bool flat = ctx.rng.chance(.3);
  for (size_t i = 0; i < n; ++i) { double a = a0 + (flat ? 0 : .3 * ctx.rng.uni(-1, 1)) + M_PI / 2 * ctx.rng.irange(0, 3); O[i * 2] = std::cos(a); O[i * 2 + 1] = std::sin(a); }
  auto en = [&]() { double e = 0; for (unsigned i = 0; i < n; ++i) for (unsigned s = m.pi[i]; s < m.pi[i + 1]; ++s) { unsigned j = m.ps[s]; e += 1 - std::cos(4 * (std::atan2(O[i * 2 + 1], O[i * 2]) - std::atan2(O[j * 2 + 1], O[j * 2]))); } return e; };
  ctx.sig(vh::Hash().vd(O).h);
  double e0 = en();
  for (int it = 0; it < 40; ++it) {
    dfm2::Smooth4RotSym2(O.data(), (unsigned) n, m.pi.data(), m.ps.data());
    for (size_t i = 0; i < n; ++i) if (!CK(std::fabs(std::hypot(O[i * 2], O[i * 2 + 1]) - 1) < 1e-6, "unit", "point %zu", i)) return;
  }
  double e1 = en();
  CK(flat ? e1 < 1e-8 : e1 < .2 * e0, flat ? "constant_kept" : "smooths", "energy %g from %g", e1, e0);
  ctx.count("cross_plane_fields");
}

// ----- triangles in a sphere and minimum-distance sampling
VH_FAMILY(sphere_region, 150, 1500) {
  Mesh m = any(ctx, 2, 9);
  ctx.sig(vh::Hash().vd(m.X).h);
  for (int r = 0; r < 4; ++r) {
    unsigned t0 = (unsigned) ctx.rng.irange(0, (int) m.nt() - 1);
    double a = ctx.rng.u01(), b = ctx.rng.u01(); if (a + b > 1) { a = 1 - a; b = 1 - b; }
    V3 p = axpy(axpy(m.p(m.T[t0 * 3 + 2]), a, sub(m.p(m.T[t0 * 3]), m.p(m.T[t0 * 3 + 2]))), b, sub(m.p(m.T[t0 * 3 + 1]), m.p(m.T[t0 * 3 + 2])));
    double rad = ctx.rng.uni(.02, .8);
    auto g = dfm2::IndexesOfConnectedTriangleInSphere(p, rad, t0, m.X, m.T, m.S);
    // distance to a triangle by its own formula: plane foot inside, else the nearest edge
    auto dtri = [&](unsigned t) {
      V3 q[3] = {m.p(m.T[t * 3]), m.p(m.T[t * 3 + 1]), m.p(m.T[t * 3 + 2])}; V3 n = m.tn(t);
      double h = dot(sub(p, q[0]), n); V3 f = axpy(p, -h, n); bool in = true; double be = 1e30;
      for (int k = 0; k < 3; ++k) {
        V3 e = sub(q[(k + 1) % 3], q[k]); if (dot(cross(e, sub(f, q[k])), n) < 0) in = false;
        double s = std::min(1., std::max(0., dot(sub(p, q[k]), e) / dot(e, e))); be = std::min(be, len(sub(p, axpy(q[k], s, e))));
      }
      return in ? std::fabs(h) : be;
    };
    std::set<unsigned> gs(g.begin(), g.end());
    CK(gs.size() == g.size(), "each_once", "%zu entries %zu triangles", g.size(), gs.size());
    std::vector<double> d(m.nt()); bool amb = false;
    for (unsigned t = 0; t < m.nt(); ++t) { d[t] = dtri(t); if (std::fabs(d[t] - rad) < 1e-9) amb = true; }
    if (amb) continue;
    auto ref = bfs(m.S, 3, {t0}, [&](unsigned t) { return d[t] < rad; });
    for (unsigned t = 0; t < m.nt(); ++t) if (!CK((ref[t] != UINT_MAX) == (bool) gs.count(t), "triangle_set", "triangle %u at distance %g radius %g", t, d[t], rad)) return;
    ctx.count("sphere_triangles", g.size());
  }
}
VH_FAMILY(spaced_samples, 40, 400) {
  Mesh m = any(ctx, 3, 8);
  ctx.sig(vh::Hash().vd(m.X).h);
  double rad = ctx.rng.uni(.05, .3);
  std::vector<std::tuple<unsigned, double, double>> S; std::multimap<unsigned, unsigned> at;
  std::vector<V3> P;
  for (int i = 0; i < 150; ++i) {
    unsigned t = (unsigned) ctx.rng.irange(0, (int) m.nt() - 1);
    double a = ctx.rng.u01(), b = ctx.rng.u01(); if (a + b > 1) { a = 1 - a; b = 1 - b; }
    auto smp = std::make_tuple(t, a, b);
    V3 p = axpy(axpy(m.p(m.T[t * 3 + 2]), a, sub(m.p(m.T[t * 3]), m.p(m.T[t * 3 + 2]))), b, sub(m.p(m.T[t * 3 + 1]), m.p(m.T[t * 3 + 2])));
    bool near = dfm2::IsTherePointOnMeshInsideSphere(smp, rad, S, at, m.X, m.T, m.S);
    // an accepted sample of the same or an adjacent triangle that is close must be noticed; any answer "near" needs a close sample
    double best = 1e30, loc = 1e30;
    for (size_t k = 0; k < P.size(); ++k) {
      double d = len(sub(P[k], p)); best = std::min(best, d);
      unsigned u = std::get<0>(S[k]); bool nb = u == t; for (int e = 0; e < 3; ++e) nb |= m.S[t * 3 + e] == u;
      if (nb) loc = std::min(loc, d);
    }
    if (std::fabs(best - rad) < 1e-9 || std::fabs(loc - rad) < 1e-9) { continue; }
    if (near) { CK(best < rad, "near_without_sample", "nearest sample at %g, radius %g", best, rad); ctx.count("rejected_samples"); }
    else { CK(loc > rad, "missed", "a sample on the same or an adjacent triangle at %g, radius %g", loc, rad); ctx.count("accepted_samples"); }
    if (!near) { at.insert({t, (unsigned) S.size()}); S.push_back(smp); P.push_back(p); }
  }
}
