// C32: incremental Delaunay tetrahedra, the walks around edges and points, circumspheres and solid elements.
#include "../lib/vh.h"
#include <cmath>
#include <climits>
#include <set>
#include <map>
#include <array>
#include <sstream>
#include <iostream>
#include <algorithm>
#include "delfem2/vec3.h"
#include "delfem2/mat3.h"
#include "delfem2/mat3_funcs.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/geo_tri.h"
#include "delfem2/geo_tet.h"
#include "delfem2/geodelaunay3_v3.h"
#include "delfem2/geosolidelm_v3.h"
#include "delfem2/dtet_v3.h"
namespace dfm2 = delfem2;
typedef long double ld;
typedef dfm2::CVec3d P3;
struct Quiet { std::ostringstream s; std::streambuf *o; Quiet() : o(std::cout.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); } };
static ld det3(const P3 &a, const P3 &b, const P3 &c, const P3 &o) {
  ld m[3][3]; const P3 *q[3] = {&a, &b, &c};
  for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) m[i][k] = (ld) q[i]->p[k] - (ld) o.p[k];
  return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
}
static ld vol6(const P3 &a, const P3 &b, const P3 &c, const P3 &d) { return det3(b, c, d, a); }
// centre and squared radius of the circumsphere by Cramer's rule
static bool sphere(const P3 q[4], ld c[3], ld &r2) {
  ld A[3][3], b[3];
  for (int i = 0; i < 3; ++i) { b[i] = 0; for (int k = 0; k < 3; ++k) { A[i][k] = (ld) q[i + 1].p[k] - (ld) q[0].p[k]; b[i] += A[i][k] * A[i][k] / 2; } }
  auto d = [](ld m[3][3]) { return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]); };
  ld D = d(A); if (D == 0) return false;
  r2 = 0;
  for (int k = 0; k < 3; ++k) { ld B[3][3]; for (int i = 0; i < 3; ++i) for (int l = 0; l < 3; ++l) B[i][l] = l == k ? b[i] : A[i][l]; ld x = d(B) / D; c[k] = x + q[0].p[k]; r2 += x * x; }
  return true;
}
struct State {
  std::vector<dfm2::CDynPointTet> P; std::vector<dfm2::CDynTet> T; std::vector<P3> C; std::vector<int> buf;
};
static void start(State &s, double len) {
  s = State();
  s.P.resize(4); s.T.resize(1); s.C.resize(1);
  double q[4][3] = {{-len, len, -len}, {len, -len, -len}, {len, len, len}, {-len, -len, len}};
  for (unsigned i = 0; i < 4; ++i) { s.P[i].p = P3(q[i][0], q[i][1], q[i][2]); s.P[i].e = 0; s.P[i].poel = i; s.T[0].v[i] = i; s.T[0].s[i] = UINT_MAX; }
  s.C[0] = dfm2::CircumCenter(s.P[0].p, s.P[1].p, s.P[2].p, s.P[3].p);
}
// returns whether the point could be placed strictly inside one element and well away from degeneracy
static bool insert(vh::Ctx &ctx, State &s, const P3 &p, bool fresh) {
  for (auto &q: s.P) if ((q.p - p).norm() < 1e-3) return false;
  unsigned in = UINT_MAX;
  for (unsigned t = 0; t < s.T.size(); ++t) {
    if (!s.T[t].isActive()) continue;
    P3 q[4]; for (int k = 0; k < 4; ++k) q[k] = s.P[s.T[t].v[k]].p;
    ld V = vol6(q[0], q[1], q[2], q[3]);
    ld v[4] = {vol6(p, q[1], q[2], q[3]), vol6(q[0], p, q[2], q[3]), vol6(q[0], q[1], p, q[3]), vol6(q[0], q[1], q[2], p)};
    ld m = std::min(std::min(v[0], v[1]), std::min(v[2], v[3]));
    if (m > 1e-6L * V && m > 1e-9L) { in = t; break; }
  }
  if (in == UINT_MAX) return false;
  // general position: not nearly on a circumsphere, and no flat new element (the circumcentres are computed with the squared volume)
  std::map<std::array<unsigned, 3>, std::pair<int, std::array<unsigned, 3>>> faces;
  size_t gone = 0;
  for (unsigned t = 0; t < s.T.size(); ++t) {
    if (!s.T[t].isActive()) continue;
    P3 q[4]; for (int k = 0; k < 4; ++k) q[k] = s.P[s.T[t].v[k]].p;
    ld c[3], r2; if (!sphere(q, c, r2)) return false;
    ld d2 = 0; for (int k = 0; k < 3; ++k) d2 += (c[k] - p.p[k]) * (c[k] - p.p[k]);
    if (std::fabs((double) ((d2 - r2) / r2)) < 1e-4) return false;
    if (d2 > r2) continue;
    gone++;
    for (int f = 0; f < 4; ++f) { std::array<unsigned, 3> a; for (int k = 0; k < 3; ++k) a[k] = s.T[t].v[dfm2::noelTetFace[f][k]]; auto b = a; std::sort(b.begin(), b.end()); auto &e = faces[b]; e.first++; e.second = a; }
  }
  size_t made = 0;
  for (auto &f: faces) if (f.second.first == 1) { made++; auto &a = f.second.second; 
    P3 q[4] = {p, s.P[a[0]].p, s.P[a[1]].p, s.P[a[2]].p}; double l = 0;
    for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) l = std::max(l, (q[i] - q[j]).norm());
    if (vol6(q[0], q[1], q[2], q[3]) < 2e-5L * l * l * l) return false;
  }
  unsigned ip = (unsigned) s.P.size();
  s.P.resize(ip + 1);
  s.P[ip].p = p; s.P[ip].e = UINT_MAX; s.P[ip].poel = UINT_MAX;
  std::vector<int> tmp;
  size_t n0 = s.T.size();
  dfm2::AddPointTetDelaunay(ip, in, s.P, s.T, s.C, fresh ? tmp : s.buf);
  auto &bb = fresh ? tmp : s.buf;
  for (size_t i = 0; i < bb.size(); ++i) if (!CK(bb[i] == -1, "buffer_reset", "entry %zu is %d", i, bb[i])) break;
  size_t act = 0; for (auto &t: s.T) act += t.isActive();
  (void) n0;
  if (made < gone) ctx.count("fewer_elements_after");
  ctx.count("inserted"); ctx.count("elements_replaced", gone); ctx.count("elements_made", made);
  size_t mx = 0; for (auto &t: s.T) if (t.isActive()) for (int k = 0; k < 4; ++k) mx += t.v[k] == ip;
  CK(mx == made, "new_elements", "the new point has %zu elements, its cavity %zu faces", mx, made);
  return true;
}
static bool check_state(vh::Ctx &ctx, const State &s, ld hull6) {
  ld sum = 0; std::map<std::array<unsigned, 3>, std::vector<std::pair<unsigned, int>>> faces;
  std::vector<char> used(s.P.size(), 0);
  for (unsigned t = 0; t < s.T.size(); ++t) {
    if (!s.T[t].isActive()) { ctx.count("inactive_elements"); continue; }
    for (int k = 0; k < 4; ++k) { if (!CK(s.T[t].v[k] < s.P.size(), "vertex_index", "element %u", t)) return false; used[s.T[t].v[k]] = 1; }
    ld v = vol6(s.P[s.T[t].v[0]].p, s.P[s.T[t].v[1]].p, s.P[s.T[t].v[2]].p, s.P[s.T[t].v[3]].p);
    if (!CK(v > 0, "positive_volume", "element %u has volume %.3Lg", t, v / 6)) return false;
    sum += v;
    for (int f = 0; f < 4; ++f) { std::array<unsigned, 3> a; for (int k = 0; k < 3; ++k) a[k] = s.T[t].v[dfm2::noelTetFace[f][k]]; std::sort(a.begin(), a.end()); faces[a].push_back({t, f}); }
  }
  if (!CK(std::fabs((double) (sum - hull6)) < 1e-9 * (double) hull6, "volume", "covered %.17Lg of %.17Lg", sum / 6, hull6 / 6)) return false;
  for (auto &f: faces) {
    auto &v = f.second;
    if (!CK(v.size() <= 2, "face_manifold", "face in %zu elements", v.size())) return false;
    for (size_t k = 0; k < v.size(); ++k) {
      unsigned adj = v.size() == 2 ? v[1 - k].first : UINT_MAX;
      if (!CK(s.T[v[k].first].s[v[k].second] == adj, "adjacency", "element %u face %d says %u, shared with %u", v[k].first, v[k].second, s.T[v[k].first].s[v[k].second], adj)) return false;
    }
  }
  for (unsigned i = 0; i < s.P.size(); ++i) {
    if (!CK(used[i], "point_present", "point %u is in no element", i)) return false;
    if (!CK(s.P[i].e < s.T.size() && s.P[i].poel < 4 && s.T[s.P[i].e].v[s.P[i].poel] == i, "point_element", "point %u element %u corner %u", i, s.P[i].e, s.P[i].poel)) return false;
  }
  size_t pairs = 0;
  for (unsigned t = 0; t < s.T.size(); ++t) {
    if (!s.T[t].isActive()) continue;
    P3 q[4]; for (int k = 0; k < 4; ++k) q[k] = s.P[s.T[t].v[k]].p;
    ld c[3], r2; if (!sphere(q, c, r2)) continue;
    for (unsigned i = 0; i < s.P.size(); ++i) {
      bool own = false; for (int k = 0; k < 4; ++k) own |= s.T[t].v[k] == i;
      if (own) continue;
      ld d2 = 0; for (int k = 0; k < 3; ++k) d2 += (c[k] - s.P[i].p.p[k]) * (c[k] - s.P[i].p.p[k]);
      if (!CK(d2 > r2 * (1 - 1e-5L), "empty_sphere", "point %u inside the sphere of element %u: %.17Lg < %.17Lg", i, t, d2, r2)) return false;
      pairs++;
    }
    double R = std::sqrt((double) r2), e = 0;
    for (int k = 0; k < 3; ++k) e = std::max(e, std::fabs((double) (c[k] - s.C[t].p[k])));
    if (!CK(e < 1e-4 * (1 + R), "centre", "stored centre of element %u off by %.3g (radius %.3g)", t, e, R)) return false;
    CK(dfm2::IsInsideCircumSphere(P3((double) c[0], (double) c[1], (double) c[2]), s.T[t], s.C[t], s.P), "inside_sphere", "the centre is outside of its own sphere");
  }
  ctx.count("sphere_tests", pairs); ctx.count("states");
  Quiet qq;
  CK(dfm2::CheckTet(s.T, s.P), "own_check", "CheckTet");
  return true;
}
static P3 cloud(vh::Ctx &ctx, int kind, double L, const std::vector<double> &par) {
  auto U = [&](double a) { return ctx.rng.uni(-a, a); };
  switch (kind) {
    case 0: return P3(U(L), U(L), U(L)) * .4;
    case 1: { P3 d(ctx.rng.gauss(), ctx.rng.gauss(), ctx.rng.gauss()); d.normalize(); return d * (.4 * L * (1 + U(.02))); } // near a sphere
    case 2: return P3(ctx.rng.irange(-3, 3) * .12 * L + U(.01), ctx.rng.irange(-3, 3) * .12 * L + U(.01), ctx.rng.irange(-3, 3) * .12 * L + U(.01)); // near a grid
    case 3: if (ctx.rng.chance(.5)) return P3(U(.4 * L), U(.01), -.2 * L + U(.01)); else return P3(U(.01), U(.4 * L), .2 * L + U(.01)); // two lines
    case 4: { double x = U(.4 * L); return P3(x, U(.4 * L), par[0] * x + U(.01)); } // near a plane
    default: { int k = ctx.rng.irange(0, 2); return P3(par[k * 3] + U(.06 * L), par[k * 3 + 1] + U(.06 * L), par[k * 3 + 2] + U(.06 * L)); } // clusters
  }
}
VH_FAMILY_CPU(insertion, 60, 700, 200) {
  State s; double L = ctx.rng.uni(1, 4);
  start(s, L);
  ld hull = vol6(s.P[0].p, s.P[1].p, s.P[2].p, s.P[3].p);
  int kind = ctx.rng.irange(0, 5); std::vector<double> par;
  for (int i = 0; i < 9; ++i) par.push_back(ctx.rng.uni(-.3, .3) * L);
  ctx.count(vh::fmt("cloud_%d", kind).c_str());
  int n = ctx.rng.irange(5, 60); bool fresh = ctx.rng.chance(.4);
  vh::Hash h;
  for (int i = 0; i < n; ++i) {
    int k = ctx.rng.chance(.15) ? 0 : kind;
    P3 p = cloud(ctx, k, L, par);
    if (k == 3 && ctx.rng.chance(.1)) p = P3(ctx.rng.uni(-.05, .05), ctx.rng.uni(-.05, .05), ctx.rng.uni(-.05, .05)) * L; // between the lines
    if (!insert(ctx, s, p, fresh)) { ctx.count("not_general"); continue; }
    h.d(p.x).d(p.y).d(p.z);
    if (ctx.failed) return;
    if (i < 6 || i + 1 == n || ctx.rng.chance(.2)) if (!check_state(ctx, s, hull)) return;
  }
  if (!check_state(ctx, s, hull)) return;
  ctx.sig(h.h);
  // walks
  for (int r = 0; r < 12; ++r) {
    unsigned t = (unsigned) ctx.rng.irange(0, (int) s.T.size() - 1);
    if (!s.T[t].isActive()) continue;
    int de = ctx.rng.irange(0, 11);
    unsigned a = s.T[t].v[dfm2::dEdge2Noel[de][0]], b = s.T[t].v[dfm2::dEdge2Noel[de][1]];
    std::set<unsigned> ref; bool inner = true;
    for (unsigned u = 0; u < s.T.size(); ++u) {
      if (!s.T[u].isActive()) continue;
      int c = 0; for (int k = 0; k < 4; ++k) c += s.T[u].v[k] == a || s.T[u].v[k] == b;
      if (c == 2) { ref.insert(u); for (int k = 0; k < 4; ++k) if (s.T[u].v[k] != a && s.T[u].v[k] != b && s.T[u].s[k] == UINT_MAX) inner = false; }
    }
    dfm2::ElemAroundEdge ee; 
    ee.nod = ee.nou = 0; ee.is_inner = !inner;
    dfm2::MakeElemAroundEdge(ee, (int) t, de, s.T);
    CK(ee.is_inner == inner, "edge_inner", "edge %u-%u: %d expected %d", a, b, (int) ee.is_inner, (int) inner);
    if (inner) {
      ctx.count("inner_edges");
      std::set<unsigned> g; for (auto &x: ee.e) g.insert(x.first);
      CK(g == ref && (size_t) ee.size() == ref.size() && ee.nod == a && ee.nou == b, "edge_ring", "edge %u-%u has %zu elements, walked %d", a, b, ref.size(), ee.size());
      CK(ee.n.size() == ee.e.size() + 1 && ee.n.front() == ee.n.back(), "edge_ring_points", "%zu points for %zu elements", ee.n.size(), ee.e.size());
      for (size_t k = 0; k < ee.e.size() && k + 1 < ee.n.size(); ++k) { // the element k lies between its two ring points
        auto &q = s.T[ee.e[k].first]; std::set<unsigned> vs(q.v, q.v + 4);
        size_t prev = k == 0 ? ee.e.size() - 1 : k - 1;
        CK(vs.count(ee.n[k]) && vs.count(a) && vs.count(b), "edge_ring_points", "ring point %u not in element %u", ee.n[k], ee.e[k].first);
        std::set<unsigned> w(s.T[ee.e[prev].first].v, s.T[ee.e[prev].first].v + 4);
        CK(w.count(ee.n[prev]), "edge_ring_points", "ring point %u", ee.n[prev]);
        bool adj = false; for (int f = 0; f < 4; ++f) adj |= q.s[f] == ee.e[prev].first;
        CK(adj || ee.e.size() == 1, "edge_ring_order", "elements %u and %u are not neighbours", ee.e[prev].first, ee.e[k].first);
      }
    } else ctx.count("outer_edges");
    unsigned cn = (unsigned) ctx.rng.irange(0, 3), pv = s.T[t].v[cn];
    dfm2::ElemAroundPoint ep; ep.is_inner = false;
    dfm2::MakeElemAroundPoint(ep, t, cn, s.T);
    std::map<int, int> pr; bool pin = true;
    for (unsigned u = 0; u < s.T.size(); ++u) { if (!s.T[u].isActive()) continue; for (int k = 0; k < 4; ++k) if (s.T[u].v[k] == pv) { pr[(int) u] = k; for (int f = 0; f < 4; ++f) if (f != k && s.T[u].s[f] == UINT_MAX) pin = false; } }
    CK(ep.e == pr, "point_star", "point %u has %zu elements, found %d", pv, pr.size(), ep.size());
    CK(ep.is_inner == pin, "point_inner", "point %u: %d expected %d", pv, (int) ep.is_inner, (int) pin);
    ctx.count(pin ? "inner_points" : "outer_points");
    // the relation between neighbours
    for (int f = 0; f < 4; ++f) {
      unsigned u = s.T[t].s[f]; if (u == UINT_MAX) continue;
      int rel = dfm2::GetRelationshipTet(s.T[t].v, s.T[u].v);
      if (!CK(rel >= 0 && rel < 12, "relation", "none for neighbours")) continue;
      for (int k = 0; k < 4; ++k) CK((k == f) == (s.T[t].v[k] != s.T[u].v[dfm2::tetRel[rel][k]]), "relation", "corner %d face %d", k, f);
      int inv = dfm2::GetRelationshipTet(s.T[u].v, s.T[t].v);
      CK(inv == (int) dfm2::invTetRel[rel], "inverse_relation", "%d and %d", rel, inv);
    }
  }
  // the link from points to elements can be rebuilt
  auto P2 = s.P;
  for (auto &p: P2) { p.e = 12345; p.poel = 9; }
  dfm2::MakeOneTetSurNo(s.T, P2);
  for (unsigned i = 0; i < P2.size(); ++i) if (!CK(P2[i].e < s.T.size() && P2[i].poel < 4 && s.T[P2[i].e].v[P2[i].poel] == i, "rebuilt_link", "point %u element %u", i, P2[i].e)) return;
  bool ina = false; for (auto &t: s.T) ina |= !t.isActive();
  ctx.count(ina ? "rebuilt_with_inactive" : "rebuilt");
}
// many thin elements around the hidden diagonal of two lines, then one point that removes them all
VH_FAMILY_CPU(two_lines, 20, 200, 200) {
  State s; double L = 3; start(s, L);
  ld hull = vol6(s.P[0].p, s.P[1].p, s.P[2].p, s.P[3].p);
  int m = ctx.rng.irange(5, 9); vh::Hash h;
  double hgt = ctx.rng.uni(.5, .8), w = ctx.rng.uni(.6, .9);
  std::vector<P3> q;
  for (int i = 0; i < m; ++i) {
    double a = -w + 2 * w * i / (m - 1);
    auto J = [&]() { return ctx.rng.uni(-.004, .004); };
    q.push_back(P3(a + J(), J(), -hgt + J())); q.push_back(P3(J(), a + J(), hgt + J()));
  }
  ctx.rng.shuffle(q);
  q.push_back(P3(.013, -.017, .011) * ctx.rng.uni(.5, 1.5));
  for (auto &p: q) { h.d(p.x); if (insert(ctx, s, p, false)) { if (ctx.failed) return; } if (!check_state(ctx, s, hull)) return; }
  ctx.sig(h.h);
  auto P2 = s.P;
  bool ina = false; for (auto &t: s.T) ina |= !t.isActive();
  ctx.count(ina ? "rebuilt_with_inactive" : "rebuilt");
  dfm2::MakeOneTetSurNo(s.T, P2);
  for (unsigned i = 0; i < P2.size(); ++i) if (!CK(P2[i].e < s.T.size() && P2[i].poel < 4 && s.T[P2[i].e].v[P2[i].poel] == i, "rebuilt_link", "point %u", i)) return;
  for (int k = 0; k < 10; ++k) { P3 p = cloud(ctx, 0, L, {}); insert(ctx, s, p, ctx.rng.chance(.5)); if (ctx.failed || !check_state(ctx, s, hull)) return; }
}

VH_FAMILY(spheres, 400, 4000) {
  P3 q[4]; double sc = std::pow(10., ctx.rng.uni(-1, 1)); P3 o(ctx.rng.uni(-1, 1), ctx.rng.uni(-1, 1), ctx.rng.uni(-1, 1));
  for (auto &p: q) p = o + P3(ctx.rng.uni(-1, 1), ctx.rng.uni(-1, 1), ctx.rng.uni(-1, 1)) * sc;
  if (vol6(q[0], q[1], q[2], q[3]) < 0) std::swap(q[2], q[3]);
  ld v6 = vol6(q[0], q[1], q[2], q[3]);
  if (v6 < .05 * sc * sc * sc) return;
  ctx.sig(vh::Hash().d(q[0].x).d(q[1].x).d(q[2].x).h);
  ld c[3], r2; sphere(q, c, r2); double R = std::sqrt((double) r2);
  auto cc = dfm2::CircumCenter(q[0], q[1], q[2], q[3]);
  for (int k = 0; k < 3; ++k) CKN(cc.p[k], (double) c[k], 1e-8 * (R + 1), "circumcentre", "scale %g", sc);
  CKN(dfm2::Circumradius(q[0], q[1], q[2], q[3]), R, 1e-8 * R, "circumradius", "scale %g", sc);
  CKN(dfm2::SquareCircumradius(q[0], q[1], q[2], q[3]), (double) r2, 1e-8 * (double) r2, "square_circumradius", "scale %g", sc);
  std::vector<dfm2::CDynPointTet> P(4); std::vector<dfm2::CDynTet> T(1);
  for (unsigned i = 0; i < 4; ++i) { P[i].p = q[i]; T[0].v[i] = i; T[0].s[i] = UINT_MAX; }
  CKN(dfm2::TetVolume(0, T, P), (double) v6 / 6, 1e-10 * sc * sc * sc, "volume", "scale %g", sc);
  double lmin = 1e30, lmax = 0, sum = 0;
  for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) { double l = (q[i] - q[j]).norm(); lmin = std::min(lmin, l); lmax = std::max(lmax, l); }
  CKN(dfm2::LongestEdgeLength(0, P, T), lmax, 1e-10 * lmax, "longest_edge", "scale %g", sc);
  CKN(dfm2::ShortestEdgeLength(0, P, T), lmin, 1e-10 * lmax, "shortest_edge", "scale %g", sc);
  P3 nsum(0, 0, 0);
  for (unsigned f = 0; f < 4; ++f) {
    const P3 &a = q[dfm2::noelTetFace[f][0]], &b = q[dfm2::noelTetFace[f][1]], &d = q[dfm2::noelTetFace[f][2]];
    P3 n(b - a); n = P3((b - a).y * (d - a).z - (b - a).z * (d - a).y, (b - a).z * (d - a).x - (b - a).x * (d - a).z, (b - a).x * (d - a).y - (b - a).y * (d - a).x);
    double A = n.norm() / 2; sum += A;
    CKN(dfm2::TriArea(0, (int) f, T, P), A, 1e-10 * sc * sc, "face_area", "face %u", f);
    P3 g, u; dfm2::Normal(g, 0, f, T, P); dfm2::UnitNormal(u, 0, (int) f, T, P);
    CK((g - n).norm() < 1e-9 * sc * sc && (u - n * (1 / n.norm())).norm() < 1e-8, "face_normal", "face %u", f);
    CK(n.dot(a - q[f]) > 0, "outward", "face %u points inwards", f);
    nsum += g;
  }
  CK(nsum.norm() < 1e-9 * sc * sc, "closed", "face normals do not sum to zero");
  double rin = (double) v6 / 2 / sum;
  CKN(dfm2::Criterion_Asp(0, P, T), R / rin, 1e-7 * R / rin, "aspect", "scale %g", sc);
  CK(dfm2::Criterion_Asp(0, P, T) > 3 - 1e-9, "aspect_least", "below that of the regular tetrahedron");
  // in-sphere predicate of five points
  for (int r = 0; r < 6; ++r) {
    P3 d(ctx.rng.gauss(), ctx.rng.gauss(), ctx.rng.gauss()); d.normalize();
    double k = ctx.rng.chance(.5) ? ctx.rng.uni(.05, .98) : ctx.rng.uni(1.02, 3);
    P3 p = P3((double) c[0], (double) c[1], (double) c[2]) + d * (R * k);
    if (R > 20 * sc) continue;
    double g = dfm2::DetDelaunay3D(q[0], q[1], q[2], q[3], p);
    CK((g > 0) == (k > 1), "insphere_sign", "point at %g radii gives %.3g (scale %g)", k, g, sc);
    CK(dfm2::IsInsideCircumSphere(p, T[0], cc, P) == (k < 1), "inside_sphere", "point at %g radii", k);
    ctx.count(k < 1 ? "in_sphere" : "out_of_sphere");
  }
  // smallest sphere through three points
  {
    P3 e1 = q[1] - q[0], e2 = q[2] - q[0];
    P3 n(e1.y * e2.z - e1.z * e2.y, e1.z * e2.x - e1.x * e2.z, e1.x * e2.y - e1.y * e2.x);
    if (n.norm() > .1 * sc * sc) {
      double a = e1.dot(e1), b = e2.dot(e2), x = e1.dot(e2), D = 2 * (a * b - x * x);
      P3 ce = q[0] + e1 * ((a * b - x * b) / D) + e2 * ((a * b - x * a) / D);
      double r = (ce - q[0]).norm();
      if (r < 5 * sc) for (int i = 0; i < 6; ++i) {
        P3 d(ctx.rng.gauss(), ctx.rng.gauss(), ctx.rng.gauss()); d.normalize();
        double k = ctx.rng.chance(.5) ? ctx.rng.uni(.05, .98) : ctx.rng.uni(1.02, 3);
        int g = dfm2::DetDelaunay<double>(q[0], q[1], q[2], ce + d * (r * k));
        CK(g == (k < 1 ? 0 : 2), "smallest_sphere", "point at %g radii gives %d", k, g);
        ctx.count("smallest_sphere");
      }
    }
  }
}

VH_FAMILY(solids, 300, 3000) {
  double sc = std::pow(10., ctx.rng.uni(-1, 1));
  auto J = [&](double a) { return P3(ctx.rng.uni(-a, a), ctx.rng.uni(-a, a), ctx.rng.uni(-a, a)); };
  // random affine image with positive determinant
  P3 A[3]; double dt;
  do { for (int i = 0; i < 3; ++i) { A[i] = J(.5); A[i].p[i] += 1; } dt = (double) det3(A[0], A[1], A[2], P3(0, 0, 0)); } while (dt < .3);
  P3 o = J(2);
  auto M = [&](double x, double y, double z) { return (A[0] * x + A[1] * y + A[2] * z) * sc + o; };
  double jit = ctx.rng.chance(.5) ? 0 : .15;
  ctx.sig(vh::Hash().d(A[0].x).d(A[1].y).d(o.x).d(jit).h);
  P3 py[5] = {M(0, 0, 0), M(1, 0, 0), M(1, 1, 0), M(0, 1, 0), M(.3, .4, 1)};
  P3 we[6] = {M(0, 0, 0), M(1, 0, 0), M(0, 1, 0), M(0, 0, 1), M(1, 0, 1), M(0, 1, 1)};
  for (auto &p: py) p += J(jit) * sc;
  for (auto &p: we) p += J(jit) * sc;
  // (the base of a wedge is numbered so that it is positive when the triangle 0, 1, 2 faces away from 3, 4, 5)
  // volumes from the closed surface; quadrilateral sides are the mean of their two splits
  auto face4 = [&](const P3 &a, const P3 &b, const P3 &c, const P3 &d) { P3 z(0, 0, 0); return (double) (det3(a, b, c, z) + det3(a, c, d, z) + det3(a, b, d, z) + det3(b, c, d, z)) / 2; };
  auto face3 = [&](const P3 &a, const P3 &b, const P3 &c) { return (double) det3(a, b, c, P3(0, 0, 0)); };
  double vp = (face4(py[0], py[3], py[2], py[1]) + face3(py[0], py[1], py[4]) + face3(py[1], py[2], py[4]) + face3(py[2], py[3], py[4]) + face3(py[3], py[0], py[4])) / 6;
  double vw = (face3(we[0], we[2], we[1]) + face3(we[3], we[4], we[5]) + face4(we[0], we[1], we[4], we[3]) + face4(we[1], we[2], we[5], we[4]) + face4(we[2], we[0], we[3], we[5])) / 6;
  double s3 = sc * sc * sc;
  CKN(dfm2::Volume_Pyramid(py[0], py[1], py[2], py[3], py[4]), vp, 1e-9 * (s3 + 1), "pyramid_volume", "scale %g jitter %g", sc, jit);
  CKN(-dfm2::Volume_Wedge(we[0], we[1], we[2], we[3], we[4], we[5]), vw, 1e-9 * (s3 + 1), "wedge_volume", "scale %g jitter %g", sc, jit);
  if (jit == 0) { CKN(vp, dt * s3 / 3, 1e-9 * (s3 + 1), "reference", "pyramid"); CKN(vw, dt * s3 / 2, 1e-9 * (s3 + 1), "reference", "wedge"); ctx.count("affine_solids"); }
  ctx.count("solids");
  // positions at corners and inside, and the way back
  double c5[5][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {.37, .61, 1}};
  for (int i = 0; i < 5; ++i) CK((dfm2::positionBarycentricCoord_Pyramid(c5[i][0], c5[i][1], c5[i][2], py[0], py[1], py[2], py[3], py[4]) - py[i]).norm() < 1e-12 * (sc + 3), "pyramid_corner", "corner %d", i);
  double c6[6][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 0}, {1, 0, 1}, {0, 1, 1}, {0, 0, 1}};
  for (int i = 0; i < 6; ++i) CK((dfm2::positionBarycentricCoord_Wedge(c6[i][0], c6[i][1], c6[i][2], we[0], we[1], we[2], we[3], we[4], we[5]) - we[i]).norm() < 1e-12 * (sc + 3), "wedge_corner", "corner %d", i);
  if (jit > 0) return;
  double r0 = ctx.rng.uni(.2, .8), r1 = ctx.rng.uni(.2, .8), r2 = ctx.rng.uni(.1, .6);
  { // the origin is put at a known place
    P3 x = dfm2::positionBarycentricCoord_Pyramid(r0, r1, r2, py[0], py[1], py[2], py[3], py[4]); P3 q[5]; for (int i = 0; i < 5; ++i) q[i] = py[i] - x;
    double s0 = r0 + ctx.rng.uni(-.1, .1), s1 = r1 + ctx.rng.uni(-.1, .1), s2 = r2 + ctx.rng.uni(-.1, .1);
    dfm2::barycentricCoord_Origin_Pyramid(s0, s1, s2, q[0], q[1], q[2], q[3], q[4]);
    CK(std::fabs(s0 - r0) < 1e-6 && std::fabs(s1 - r1) < 1e-6 && std::fabs(s2 - r2) < 1e-6, "pyramid_inverse", "(%g %g %g) expected (%g %g %g)", s0, s1, s2, r0, r1, r2);
    if (r0 + r1 > 1) { r0 = 1 - r0; r1 = 1 - r1; }
    P3 y = dfm2::positionBarycentricCoord_Wedge(r0, r1, r2, we[0], we[1], we[2], we[3], we[4], we[5]); P3 w[6]; for (int i = 0; i < 6; ++i) w[i] = we[i] - y;
    s0 = r0 + ctx.rng.uni(-.1, .1), s1 = r1 + ctx.rng.uni(-.1, .1), s2 = r2 + ctx.rng.uni(-.1, .1);
    dfm2::barycentricCoord_Origin_Wedge(s0, s1, s2, w[0], w[1], w[2], w[3], w[4], w[5]);
    CK(std::fabs(s0 - r0) < 1e-6 && std::fabs(s1 - r1) < 1e-6 && std::fabs(s2 - r2) < 1e-6, "wedge_inverse", "(%g %g %g) expected (%g %g %g)", s0, s1, s2, r0, r1, r2);
    ctx.count("inverse_maps");
  }
}
