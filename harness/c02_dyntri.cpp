// C02 : edit histories on dynamic triangle meshes against a model (set of oriented triangles)
#include "vh.h"
#include "trimesh.h"
#include "delfem2/dtri2_v2dtri.h"
#include "delfem2/dtri3_v3dtri.h"
#include "delfem2/msh_primitive.h"

namespace dfm2 = delfem2;
using dfm2::CDynTri;
using dfm2::CDynPntSur;

static std::vector<unsigned> flat(const std::vector<CDynTri> &t) {
  std::vector<unsigned> f;
  for (auto &x: t) { f.push_back(x.v[0]); f.push_back(x.v[1]); f.push_back(x.v[2]); }
  return f;
}

// complete consistency of adjacency and point links, judged from the element list alone.
// walls: edges across which adjacency was removed on purpose
static bool consistent(vh::Ctx &ctx, const std::vector<CDynPntSur> &po, const std::vector<CDynTri> &tri, const std::string &h,
                       bool links = true) {
  auto f = flat(tri);
  for (unsigned v: f) if (v >= po.size()) { ctx.fail("vertex_index_out_of_range", h); return false; }
  for (auto &t: tri)
    if (t.v[0] == t.v[1] || t.v[1] == t.v[2] || t.v[2] == t.v[0]) { ctx.fail("degenerate_element", h); return false; }
  auto em = tmx::edges(f);
  for (auto &e: em) if (e.second.size() > 1) { ctx.fail("edge_used_twice_in_one_direction", h + vh::fmt(" edge %u-%u", e.first.first, e.first.second)); return false; }
  for (unsigned i = 0; i < tri.size(); ++i)
    for (int k = 0; k < 3; ++k) {
      unsigned a = tri[i].v[(k + 1) % 3], b = tri[i].v[(k + 2) % 3];
      auto it = em.find({b, a});
      unsigned expect = it == em.end() ? UINT_MAX : it->second[0];
      if (tri[i].s2[k] != expect) {
        ctx.fail("adjacency_wrong", h + vh::fmt(" tri %u edge %d: stored %u, element list says %u", i, k, tri[i].s2[k], expect));
        return false;
      }
    }
  ctx.count("adjacency_entries_checked", tri.size() * 3);
  if (links) {
    std::vector<char> used(po.size(), 0);
    for (unsigned v: f) used[v] = 1;
    for (unsigned ip = 0; ip < po.size(); ++ip) {
      if (used[ip]) {
        bool ok = po[ip].e < tri.size() && po[ip].d < 3 && tri[po[ip].e].v[po[ip].d] == ip;
        if (!ok) { ctx.fail("point_link_wrong", h + vh::fmt(" point %u -> e=%u d=%u", ip, po[ip].e, po[ip].d)); return false; }
      } else if (po[ip].e != UINT_MAX) { ctx.fail("isolated_point_linked", h + vh::fmt(" point %u e=%u ntri=%zu", ip, po[ip].e, tri.size())); return false; }
    }
    ctx.count("point_links_checked", po.size());
  }
  ctx.count("monitor_checks");
  return true;
}

static std::set<unsigned> ring(const std::vector<unsigned> &f, unsigned v) {
  std::set<unsigned> r;
  for (size_t i = 0; i < f.size() / 3; ++i)
    for (int k = 0; k < 3; ++k) if (f[i * 3 + k] == v) { r.insert(f[i * 3 + (k + 1) % 3]); r.insert(f[i * 3 + (k + 2) % 3]); }
  return r;
}
static bool on_boundary(const tmx::EdgeMap &em, const std::vector<unsigned> &f, unsigned v) {
  for (size_t i = 0; i < f.size() / 3; ++i)
    for (int k = 0; k < 3; ++k)
      if (f[i * 3 + k] == v) {
        unsigned a = f[i * 3 + (k + 1) % 3], b = f[i * 3 + (k + 2) % 3];
        if (!em.count({a, v}) || !em.count({v, b})) return true;
      }
  return false;
}

// queries around points against the element list
static void queries(vh::Ctx &ctx, const std::vector<CDynPntSur> &po, const std::vector<CDynTri> &tri, const std::string &h) {
  auto &r = ctx.rng;
  auto f = flat(tri);
  if (f.empty()) return;
  auto em = tmx::edges(f);
  for (int q = 0; q < 6; ++q) {
    unsigned a = r.pick(f), b = r.pick(f);
    if (r.chance(0.6)) { // a real edge
      unsigned t = r.irange(0, (int) tri.size() - 1);
      int k = r.irange(0, 2);
      a = tri[t].v[k];
      b = tri[t].v[(k + 1) % 3];
    }
    if (a == b) continue;
    unsigned it = UINT_MAX, i0 = 9, i1 = 9;
    bool res = dfm2::FindEdge_LookAroundPoint(it, i0, i1, a, b, po, tri);
    bool exp = em.count({a, b}) > 0;
    if (!ctx.check(res == exp, "find_edge_wrong", h + vh::fmt(" %u->%u found=%d exists=%d", a, b, res, exp))) return;
    if (res) ctx.check(it < tri.size() && i0 < 3 && i1 < 3 && i1 == (i0 + 1) % 3 && tri[it].v[i0] == a && tri[it].v[i1] == b, "find_edge_location", h);
    if (exp) {
      unsigned jt = UINT_MAX, je = 9;
      dfm2::FindEdge_LookAllTriangles(jt, je, a, b, tri);
      ctx.check(jt < tri.size() && je < 3 && tri[jt].v[je] == a && tri[jt].v[(je + 1) % 3] == b, "find_edge_all_location", h);
    }
    ctx.count("edge_queries");
    std::vector<std::pair<unsigned, unsigned>> around;
    dfm2::GetTriArrayAroundPoint(around, a, po, tri);
    std::set<unsigned> got, exps;
    for (auto &x: around) {
      ctx.check(x.first < tri.size() && x.second < 3 && tri[x.first].v[x.second] == a, "around_point_member", h);
      got.insert(x.first);
    }
    ctx.check(got.size() == around.size(), "around_point_duplicate", h);
    for (unsigned t = 0; t < tri.size(); ++t) for (int k = 0; k < 3; ++k) if (tri[t].v[k] == a) exps.insert(t);
    if (!on_boundary(em, f, a)) {
      ctx.check(got == exps, "around_point_incomplete", h);
      std::vector<unsigned> nb;
      dfm2::FindPointAroundPoint(nb, a, po, tri);
      auto rg = ring(f, a);
      ctx.check(std::set<unsigned>(nb.begin(), nb.end()) == rg && nb.size() == rg.size(), "points_around_point", h);
      ctx.count("point_ring_queries");
    }
  }
  // jagged tables of this module
  {
    std::vector<int> ei, e, pi(po.size() + 1, 0), p;
    dfm2::JArray_MakeElSuP(ei, e, tri, (unsigned) po.size());
    dfm2::JArray_PSuP(pi, p, tri, (unsigned) po.size(), ei, e);
    bool ok = ei.size() == po.size() + 1 && ei[0] == 0 && (size_t) ei.back() == e.size();
    ctx.check(ok, "elsup_shape", h);
    if (!ok) return;
    unsigned ip = r.irange(0, (int) po.size() - 1);
    if (r.chance(0.3)) ip = 0;
    std::multiset<unsigned> got(e.begin() + ei[ip], e.begin() + ei[ip + 1]), exps;
    for (unsigned t = 0; t < tri.size(); ++t) for (int k = 0; k < 3; ++k) if (tri[t].v[k] == ip) exps.insert(t);
    ctx.check(got == exps, "elsup_content", h);
    ok = pi.size() == po.size() + 1 && pi[0] == 0 && (size_t) pi.back() == p.size();
    ctx.check(ok, "psup_shape", h);
    if (!ok) return;
    std::multiset<unsigned> gp(p.begin() + pi[ip], p.begin() + pi[ip + 1]);
    auto rg = ring(f, ip);
    ctx.check(gp == std::multiset<unsigned>(rg.begin(), rg.end()), "psup_content", h + vh::fmt(" point %u got %zu expected %zu", ip, gp.size(), rg.size()));
  }
  {
    std::vector<std::vector<int>> holes;
    dfm2::extractHoles(holes, (int) po.size(), tri);
    std::multiset<int> got;
    for (auto &hh: holes) for (int x: hh) got.insert(x);
    std::set<int> exps;
    tmx::Topo tp = tmx::topo(f);
    for (auto &b: tp.boundary) { exps.insert(b.first); exps.insert(b.second); }
    ctx.check(got == std::multiset<int>(exps.begin(), exps.end()), "hole_points", h + vh::fmt(" got %zu expected %zu", got.size(), exps.size()));
    // number of loops when the boundary is a union of simple loops
    std::map<unsigned, int> outdeg;
    bool simple = true;
    for (auto &b: tp.boundary) if (++outdeg[b.first] > 1) simple = false;
    if (simple) {
      std::map<unsigned, unsigned> nx;
      for (auto &b: tp.boundary) nx[b.first] = b.second;
      std::set<unsigned> seen;
      size_t nl = 0;
      for (auto &b: nx) {
        if (seen.count(b.first)) continue;
        nl++;
        unsigned c = b.first;
        while (!seen.count(c)) { seen.insert(c); c = nx[c]; }
      }
      ctx.check(nl == holes.size(), "hole_count", h + vh::fmt(" got %zu expected %zu", holes.size(), nl));
    }
  }
}

struct Model {
  tmx::TriSet s;
  void add(unsigned a, unsigned b, unsigned c) { s.insert(tmx::canon(a, b, c)); }
  bool del(unsigned a, unsigned b, unsigned c) {
    auto it = s.find(tmx::canon(a, b, c));
    if (it == s.end()) return false;
    s.erase(it);
    return true;
  }
};

// --- edit history, purely topological -------------------------------------------------------------
// geo2: planar coordinates; when given, flips are only asked for where they are geometrically valid
static void history(vh::Ctx &ctx, std::vector<unsigned> tri0, size_t np, int nops, std::vector<dfm2::CVec2d> *xy, bool closed) {
  auto &r = ctx.rng;
  std::vector<CDynPntSur> po;
  std::vector<CDynTri> tri;
  dfm2::InitializeMesh(po, tri, tri0.data(), tri0.size() / 3, np);
  std::string h = "init";
  if (!consistent(ctx, po, tri, h)) return;
  if (tmx::triset(flat(tri)) != tmx::triset(tri0)) { ctx.fail("initialize_changes_elements"); return; }
  Model m;
  m.s = tmx::triset(tri0);
  long euler = tmx::topo(tri0).euler();
  double area0 = 0;
  auto area = [&](const CDynTri &t) { return tmx::area2((*xy)[t.v[0]].p, (*xy)[t.v[1]].p, (*xy)[t.v[2]].p); };
  if (xy) for (auto &t: tri) area0 += area(t);
  vh::Hash sg;
  sg.vu(tri0);
  for (int op = 0; op < nops; ++op) {
    int kind = r.irange(0, 99);
    if (tri.empty()) break;
    unsigned it = r.irange(0, (int) tri.size() - 1), ie = r.irange(0, 2);
    auto before = flat(tri);
    auto po_before = po;
    auto tri_before = tri;
    CDynTri T = tri[it];
    unsigned a = T.v[ie], b = T.v[(ie + 1) % 3], c = T.v[(ie + 2) % 3];
    auto opposite = [&]() { // opposite vertex across edge ie
      const CDynTri &n = tri[T.s2[ie]];
      for (int k = 0; k < 3; ++k) if (n.v[k] != b && n.v[k] != c) return n.v[k];
      return UINT_MAX;
    };
    if (kind < 25) {
      h = vh::fmt("op%d insert_elem %u", op, it);
      unsigned ip = (unsigned) po.size();
      po.emplace_back();
      if (xy) xy->push_back(((*xy)[a] + (*xy)[b] + (*xy)[c]) / 3.0);
      if (!dfm2::InsertPoint_Elem(ip, it, po, tri)) { ctx.fail("insert_elem_refused", h); return; }
      m.del(a, b, c);
      m.add(ip, a, b); m.add(ip, b, c); m.add(ip, c, a);
      ctx.count("op_insert_elem");
      sg.u(1).u(it);
    } else if (kind < 45) {
      if (T.s2[ie] == UINT_MAX) continue; // documented for shared edges only
      unsigned d = opposite();
      h = vh::fmt("op%d insert_edge %u/%u", op, it, ie);
      unsigned ip = (unsigned) po.size();
      po.emplace_back();
      if (xy) xy->push_back(((*xy)[b] + (*xy)[c]) * 0.5);
      if (!dfm2::InsertPoint_ElemEdge(ip, it, ie, po, tri)) { ctx.fail("insert_edge_refused", h); return; }
      m.del(a, b, c);
      if (!m.del(d, c, b)) { ctx.fail("harness_model", h); return; }
      m.add(ip, a, b); m.add(ip, c, a); m.add(ip, b, d); m.add(ip, d, c);
      ctx.count("op_insert_edge");
      sg.u(2).u(it).u(ie);
    } else if (kind < 75) {
      h = vh::fmt("op%d flip %u/%u", op, it, ie);
      if (T.s2[ie] != UINT_MAX) {
        unsigned d = opposite();
        auto em = tmx::edges(before);
        if (em.count({a, d}) || em.count({d, a})) continue; // would duplicate an edge
        if (xy) { // convex quadrilateral only
          if (tmx::area2((*xy)[a].p, (*xy)[b].p, (*xy)[d].p) < 1e-9 || tmx::area2((*xy)[a].p, (*xy)[d].p, (*xy)[c].p) < 1e-9) continue;
        }
        if (!dfm2::FlipEdge(it, ie, po, tri)) { ctx.fail("flip_refused", h); return; }
        m.del(a, b, c);
        m.del(d, c, b);
        m.add(a, b, d);
        m.add(a, d, c);
        ctx.count("op_flip");
        sg.u(3).u(it).u(ie);
      } else {
        bool res = dfm2::FlipEdge(it, ie, po, tri);
        if (!ctx.check(!res, "flip_of_boundary_edge_reported_success", h)) return;
        ctx.count("op_flip_refused");
      }
    } else if (kind < 97) {
      if (T.s2[ie] == UINT_MAX) continue;
      if (tri.size() < 6) continue;
      unsigned d = opposite();
      h = vh::fmt("op%d collapse %u/%u", op, it, ie);
      const unsigned X = b, Z = c; // Z is removed, X stays
      bool res = dfm2::CollapseEdge_MeshDTri(it, ie, po, tri);
      if (res) {
        tmx::TriSet ns;
        for (auto &t: m.s) {
          unsigned q[3];
          bool hasX = false, hasZ = false;
          for (int k = 0; k < 3; ++k) { q[k] = t[k] == Z ? X : t[k]; hasX |= t[k] == X; hasZ |= t[k] == Z; }
          if (hasX && hasZ) continue;
          ns.insert(tmx::canon(q[0], q[1], q[2]));
        }
        // which end survives is left to the implementation: accept either
        tmx::TriSet ns2;
        for (auto &t: m.s) {
          unsigned q[3];
          bool hasX = false, hasZ = false;
          for (int k = 0; k < 3; ++k) { q[k] = t[k] == X ? Z : t[k]; hasX |= t[k] == X; hasZ |= t[k] == Z; }
          if (hasX && hasZ) continue;
          ns2.insert(tmx::canon(q[0], q[1], q[2]));
        }
        auto now = tmx::triset(flat(tri));
        if (now == ns) m.s = ns; else if (now == ns2) m.s = ns2;
        else m.s = ns;
        ctx.count("op_collapse");
        sg.u(4).u(it).u(ie);
        if (xy) { // keep planar data valid: move the surviving point is not done here, so stop area tracking
          area0 = NAN;
        }
      } else {
        ctx.count("op_collapse_refused");
        bool same = flat(tri) == before && po.size() == po_before.size();
        for (size_t i = 0; same && i < tri.size(); ++i) for (int k = 0; k < 3; ++k) same = same && tri[i].s2[k] == tri_before[i].s2[k];
        for (size_t i = 0; same && i < po.size(); ++i) same = same && po[i].e == po_before[i].e && (po[i].e == UINT_MAX || po[i].d == po_before[i].d);
        if (!ctx.check(same, "refused_collapse_changed_mesh", h)) return;
        // a collapse that is topologically harmless in every respect must be possible
        auto em = tmx::edges(before);
        auto rx = ring(before, X), rz = ring(before, Z);
        std::vector<unsigned> common;
        std::set_intersection(rx.begin(), rx.end(), rz.begin(), rz.end(), std::back_inserter(common));
        bool bnd = false;
        for (unsigned v: rx) bnd |= on_boundary(em, before, v);
        for (unsigned v: rz) bnd |= on_boundary(em, before, v);
        if (!bnd && common.size() == 2 && ring(before, a).size() > 3 && ring(before, d).size() > 3 && rx.size() > 3 && rz.size() > 3)
          if (!ctx.check(false, "harmless_collapse_refused", h + vh::fmt(" rings %zu %zu", rx.size(), rz.size()))) return;
      }
    } else {
      queries(ctx, po, tri, h);
      if (ctx.failed) return;
      continue;
    }
    if (!consistent(ctx, po, tri, h)) return;
    auto f = flat(tri);
    if (!ctx.check(tmx::triset(f) == m.s, "elements_differ_from_the_edit", h)) return;
    if (!ctx.check(tmx::topo(f).euler() == euler, "euler_characteristic_changed", h)) return;
    if (xy && area0 == area0) {
      double s = 0;
      bool pos = true;
      for (auto &t: tri) { double A = area(t); s += A; if (!(A > 0)) pos = false; }
      if (!ctx.check(pos, "inverted_element", h)) return;
      if (!ctx.near(s, area0, 1e-9 * (1 + area0), "covered_area_changed", h)) return;
    }
  }
  queries(ctx, po, tri, h);
  ctx.sig(sg);
  if (ctx.icase < 2) ctx.sample(vh::fmt("%zu triangles initially, %d edits, %zu triangles finally, closed=%d", tri0.size() / 3, nops, tri.size(), closed));
}

// planar grid with jitter and optional holes
static void grid_mesh(vh::Rng &r, std::vector<unsigned> &tri, std::vector<dfm2::CVec2d> &xy, int nx, int ny, bool holes) {
  xy.clear();
  tri.clear();
  for (int j = 0; j <= ny; ++j)
    for (int i = 0; i <= nx; ++i) xy.push_back(dfm2::CVec2d(i + r.uni(-.2, .2), j + r.uni(-.2, .2)));
  for (int j = 0; j < ny; ++j)
    for (int i = 0; i < nx; ++i) {
      // only whole interior cells are dropped, never two touching at a corner
      if (holes && i % 2 == 1 && j % 2 == 1 && r.chance(0.3) && i + 1 < nx && j + 1 < ny) continue;
      unsigned a = j * (nx + 1) + i, b = a + 1, c = a + nx + 2, d = a + nx + 1;
      if (r.chance(0.5)) { unsigned t[6] = {a, b, c, a, c, d}; tri.insert(tri.end(), t, t + 6); }
      else { unsigned t[6] = {a, b, d, b, c, d}; tri.insert(tri.end(), t, t + 6); }
    }
  // relabel randomly
  std::vector<unsigned> perm(xy.size());
  for (size_t i = 0; i < perm.size(); ++i) perm[i] = i;
  r.shuffle(perm);
  auto old = xy;
  for (size_t i = 0; i < perm.size(); ++i) xy[perm[i]] = old[i];
  for (auto &t: tri) t = perm[t];
  for (size_t i = 0; i < tri.size() / 3; ++i) {
    int s = r.irange(0, 2);
    std::rotate(tri.begin() + i * 3, tri.begin() + i * 3 + s, tri.begin() + i * 3 + 3);
  }
}

VH_FAMILY(planar_history, 1040, 16000) {
  auto &r = ctx.rng;
  std::vector<unsigned> tri;
  std::vector<dfm2::CVec2d> xy;
  grid_mesh(r, tri, xy, r.irange(1, 6), r.irange(1, 6), r.chance(0.5));
  history(ctx, tri, xy.size(), r.irange(10, 60), &xy, false);
}

VH_FAMILY(closed_history, 1040, 16000) {
  auto &r = ctx.rng;
  std::vector<unsigned> tri;
  std::vector<double> xyz;
  size_t np = 0;
  switch (r.irange(0, 3)) {
    case 0: tri = {0, 1, 2, 0, 2, 3, 0, 3, 1, 1, 3, 2}; np = 4; break;
    case 1: tri = {0, 1, 2, 0, 2, 3, 0, 3, 4, 0, 4, 1, 5, 2, 1, 5, 3, 2, 5, 4, 3, 5, 1, 4}; np = 6; break;
    case 2: dfm2::MeshTri3_Torus(xyz, tri, 1.0, 0.3, r.irange(4, 7), r.irange(4, 7)); np = xyz.size() / 3; break;
    case 3: dfm2::MeshTri3D_Icosahedron(xyz, tri); np = xyz.size() / 3; break;
  }
  if (r.chance(0.3)) { // second component and an unused point
    size_t n = tri.size();
    for (size_t i = 0; i < n; ++i) tri.push_back(tri[i] + (unsigned) np);
    np = np * 2 + 1;
  }
  tmx::Topo t = tmx::topo(tri);
  if (!t.closed || !t.oriented_manifold_edges) { ctx.fail("generator_not_closed"); return; }
  history(ctx, tri, np, r.irange(10, 60), nullptr, true);
}

// planar Delaunay refinement by the mesh class: insert in elements, restore Delaunay, stay valid
VH_FAMILY(planar_delaunay_history, 800, 12000) {
  auto &r = ctx.rng;
  std::vector<unsigned> tri;
  std::vector<dfm2::CVec2d> xy;
  grid_mesh(r, tri, xy, r.irange(1, 5), r.irange(1, 5), r.chance(0.3));
  dfm2::CMeshDynTri2D dm;
  std::vector<double> v;
  for (auto &p: xy) { v.push_back(p.x); v.push_back(p.y); }
  dm.Initialize(v.data(), (int) xy.size(), tri.data(), (int) tri.size() / 3);
  double a0 = 0;
  auto total = [&](double &mn) {
    double s = 0; mn = 1e9;
    for (auto &t: dm.aETri) { double A = tmx::area2(dm.aVec2[t.v[0]].p, dm.aVec2[t.v[1]].p, dm.aVec2[t.v[2]].p); s += A; mn = std::min(mn, A); }
    return s;
  };
  double mn;
  a0 = total(mn);
  long euler = tmx::topo(flat(dm.aETri)).euler();
  int n = r.irange(3, 25);
  for (int i = 0; i < n; ++i) {
    int it = r.irange(0, (int) dm.aETri.size() - 1);
    double r0 = r.uni(0.1, 0.6), r1 = r.uni(0.1, 0.9 - r0);
    size_t nt = dm.nTri(), npnt = dm.nPoint();
    auto T = dm.aETri[it];
    auto q = dm.aVec2[T.v[0]] * r0 + dm.aVec2[T.v[1]] * r1 + dm.aVec2[T.v[2]] * (1 - r0 - r1);
    int ip = dm.insertPointElem(it, r0, r1);
    ctx.check(ip == (int) npnt && dm.nTri() == nt + 2 && dm.nPoint() == npnt + 1, "insert_counts");
    ctx.near((dm.aVec2[ip] - q).norm(), 0, 1e-12, "inserted_position");
    std::string h = vh::fmt("insert %d", i);
    dm.DelaunayAroundPoint(ip);
    if (!consistent(ctx, dm.aEPo, dm.aETri, h)) return;
    double s = total(mn);
    if (!ctx.check(mn > 0, "inverted_element", h + vh::fmt(" min area %g", mn))) return;
    if (!ctx.near(s, a0, 1e-9 * (1 + a0), "covered_area_changed", h)) return;
    // around the new point the triangulation is locally Delaunay
    for (auto &t: dm.aETri)
      for (int k = 0; k < 3; ++k) {
        if (t.v[k] != (unsigned) ip || t.s2[k] == UINT_MAX) continue;
        auto &nb = dm.aETri[t.s2[k]];
        unsigned opp = UINT_MAX;
        for (int j = 0; j < 3; ++j) if (nb.v[j] != t.v[(k + 1) % 3] && nb.v[j] != t.v[(k + 2) % 3]) opp = nb.v[j];
        long double ic = tmx::incircle(dm.aVec2[t.v[0]].p, dm.aVec2[t.v[1]].p, dm.aVec2[t.v[2]].p, dm.aVec2[opp].p);
        double A = tmx::area2(dm.aVec2[t.v[0]].p, dm.aVec2[t.v[1]].p, dm.aVec2[t.v[2]].p);
        if (A > 1e-4)
          if (!ctx.check(ic < 1e-9, "not_locally_delaunay", h + vh::fmt(" incircle=%Lg area=%g", ic, A))) return;
        ctx.count("local_delaunay_edges");
      }
    ctx.check(tmx::topo(flat(dm.aETri)).euler() == euler, "euler_characteristic_changed", h);
  }
  double mi, ma;
  dfm2::MinMaxTriArea(mi, ma, dm.aVec2, dm.aETri);
  double emi = 1e300, ema = -1e300;
  for (auto &t: dm.aETri) { double A = tmx::area2(dm.aVec2[t.v[0]].p, dm.aVec2[t.v[1]].p, dm.aVec2[t.v[2]].p); emi = std::min(emi, A); ema = std::max(ema, A); }
  ctx.near(mi, emi, 1e-12, "min_area");
  ctx.near(ma, ema, 1e-12, "max_area");
  std::vector<double> im;
  dfm2::MakeInvMassLumped_Tri(im, 2.0, dm.aVec2, dm.aETri);
  double tm_ = 0;
  for (double x: im) if (x > 0) tm_ += 1 / x;
  ctx.near(tm_, 2.0 * a0, 1e-8 * (1 + a0), "lumped_mass_total");
  std::vector<double> ex;
  std::vector<unsigned> et;
  ex.assign(3, 7); et.assign(2, 9);
  dm.Export_StlVectors(ex, et);
  ctx.check(et == flat(dm.aETri) && ex.size() == dm.aVec2.size() * 2, "export_elements");
  for (size_t i = 0; i < dm.aVec2.size(); ++i) ctx.check(ex[i * 2] == dm.aVec2[i].x && ex[i * 2 + 1] == dm.aVec2[i].y, "export_points");
  ctx.sig(vh::Hash().vd(v).vu(flat(dm.aETri)));
}

// clean-up: drop flagged components, then unreferenced points wherever they are in the array
VH_FAMILY(cleanup, 1600, 20000) {
  auto &r = ctx.rng;
  std::vector<unsigned> tri;
  std::vector<dfm2::CVec2d> xy;
  int nc = r.irange(2, 4);
  for (int c = 0; c < nc; ++c) {
    std::vector<unsigned> t;
    std::vector<dfm2::CVec2d> x;
    grid_mesh(r, t, x, r.irange(1, 3), r.irange(1, 3), false);
    unsigned off = (unsigned) xy.size();
    for (auto &p: x) xy.push_back(dfm2::CVec2d(p.x + 10 * c, p.y));
    for (auto i: t) tri.push_back(i + off);
  }
  // random relabelling over all components, so that the deleted points are anywhere
  std::vector<unsigned> perm(xy.size());
  for (size_t i = 0; i < perm.size(); ++i) perm[i] = i;
  if (r.chance(0.8)) r.shuffle(perm);
  auto old = xy;
  for (size_t i = 0; i < perm.size(); ++i) xy[perm[i]] = old[i];
  for (auto &t: tri) t = perm[t];
  std::vector<CDynPntSur> po;
  std::vector<CDynTri> dt;
  dfm2::InitializeMesh(po, dt, tri.data(), tri.size() / 3, xy.size());
  std::vector<int> flg(dt.size(), 0);
  unsigned ker = r.irange(0, (int) dt.size() - 1);
  dfm2::FlagConnected(flg, dt, ker, 1);
  // brute-force component
  {
    std::vector<int> exp(dt.size(), 0);
    exp[ker] = 1;
    bool ch = true;
    auto em = tmx::edges(tri);
    while (ch) {
      ch = false;
      for (unsigned t = 0; t < dt.size(); ++t) if (exp[t])
          for (int k = 0; k < 3; ++k) {
            auto it = em.find({tri[t * 3 + (k + 1) % 3], tri[t * 3 + k]});
            if (it != em.end() && !exp[it->second[0]]) { exp[it->second[0]] = 1; ch = true; }
          }
    }
    ctx.check(exp == flg, "flag_connected_wrong");
  }
  int drop = r.irange(0, 1);
  std::multiset<std::array<double, 6>> keep;
  std::vector<char> used(xy.size(), 0);
  for (unsigned t = 0; t < dt.size(); ++t)
    if (flg[t] != drop) {
      auto c = tmx::canon(dt[t].v[0], dt[t].v[1], dt[t].v[2]);
      for (auto v: c) used[v] = 1;
    }
  auto geo = [&](const std::vector<CDynTri> &T, const std::vector<dfm2::CVec2d> &X) {
    std::multiset<std::array<double, 6>> s;
    for (auto &t: T) {
      std::array<std::array<double, 2>, 3> p;
      for (int k = 0; k < 3; ++k) p[k] = {X[t.v[k]].x, X[t.v[k]].y};
      std::rotate(p.begin(), std::min_element(p.begin(), p.end()), p.end());
      s.insert({p[0][0], p[0][1], p[1][0], p[1][1], p[2][0], p[2][1]});
    }
    return s;
  };
  std::vector<CDynTri> kept;
  for (unsigned t = 0; t < dt.size(); ++t) if (flg[t] != drop) kept.push_back(dt[t]);
  keep = geo(kept, xy);
  auto flg2 = flg;
  dfm2::DeleteTriFlag(dt, flg2, drop);
  ctx.check(dt.size() == kept.size() && flg2.size() == dt.size(), "delete_tri_count");
  ctx.check(geo(dt, xy) == keep, "delete_tri_changed_elements");
  if (!consistent(ctx, po, dt, "after DeleteTriFlag", false)) return;
  std::vector<unsigned> del;
  for (unsigned i = 0; i < xy.size(); ++i) if (!used[i]) del.push_back(i);
  size_t npk = xy.size() - del.size();
  bool flagway = r.chance(0.4);
  if (flagway) {
    std::vector<int> pf(xy.size(), 0);
    for (auto d: del) pf[d] = 7;
    dfm2::DeletePointsFlag(xy, po, dt, pf, 7);
  } else {
    r.shuffle(del);
    dfm2::DeleteUnrefPoints(xy, po, dt, del);
  }
  std::string h = flagway ? "DeletePointsFlag" : "DeleteUnrefPoints";
  ctx.check(xy.size() == npk && po.size() == npk, "delete_point_count", h);
  if (!consistent(ctx, po, dt, h)) return;
  ctx.check(geo(dt, xy) == keep, "delete_points_changed_elements", h);
  ctx.count("points_deleted", del.size());
  ctx.sig(vh::Hash().vu(tri).u(drop).u(ker).vu(perm));
}

// refinement of long edges inside a circle
VH_FAMILY(refine, 800, 12000) {
  auto &r = ctx.rng;
  std::vector<unsigned> tri;
  std::vector<dfm2::CVec2d> xy;
  int nx = r.irange(3, 6), ny = r.irange(3, 6);
  grid_mesh(r, tri, xy, nx, ny, false);
  dfm2::CMeshDynTri2D dm;
  std::vector<double> v;
  for (auto &p: xy) { v.push_back(p.x); v.push_back(p.y); }
  dm.Initialize(v.data(), (int) xy.size(), tri.data(), (int) tri.size() / 3);
  // circle away from the boundary: only shared edges are split
  double cx = nx * 0.5, cy = ny * 0.5, rad = std::min(nx, ny) * 0.5 - 1.1;
  double elen = r.uni(0.6, 1.3);
  std::vector<std::pair<unsigned, unsigned>> plan;
  dfm2::CCmdRefineMesh cmd;
  std::vector<double> val(xy.size());
  dm.RefinementPlan_EdgeLongerThan_InsideCircle(cmd, elen, cx, cy, rad);
  if (!consistent(ctx, dm.aEPo, dm.aETri, "refine", true)) return;
  double s = 0, s0 = 0;
  for (size_t i = 0; i < tri.size() / 3; ++i) s0 += tmx::area2(xy[tri[i * 3]].p, xy[tri[i * 3 + 1]].p, xy[tri[i * 3 + 2]].p);
  bool pos = true;
  for (auto &t: dm.aETri) { double A = tmx::area2(dm.aVec2[t.v[0]].p, dm.aVec2[t.v[1]].p, dm.aVec2[t.v[2]].p); s += A; pos &= A > 0; }
  ctx.check(pos, "inverted_element");
  ctx.near(s, s0, 1e-9 * (1 + s0), "covered_area_changed");
  ctx.check(dm.aVec2.size() == xy.size() + cmd.aCmdEdge.size(), "refine_point_count");
  // every planned edge was long and near the circle; every long edge of an element centred in the circle was planned
  std::set<std::pair<int, int>> exp, got;
  for (size_t i = 0; i < tri.size() / 3; ++i) {
    auto &a = xy[tri[i * 3]], &b = xy[tri[i * 3 + 1]], &c = xy[tri[i * 3 + 2]];
    double gx = (a.x + b.x + c.x) / 3, gy = (a.y + b.y + c.y) / 3;
    double dd = hypot(gx - cx, gy - cy);
    if (fabs(dd - rad) < 1e-4) return; // tie
    if (dd > rad) continue;
    for (int k = 0; k < 3; ++k) {
      int p = tri[i * 3 + k], q = tri[i * 3 + (k + 1) % 3];
      if (hypot(xy[p].x - xy[q].x, xy[p].y - xy[q].y) > elen) exp.insert({std::min(p, q), std::max(p, q)});
    }
  }
  for (auto &e: cmd.aCmdEdge) got.insert({std::min(e.ipo0, e.ipo1), std::max(e.ipo0, e.ipo1)});
  ctx.check(got == exp && got.size() == cmd.aCmdEdge.size(), "refinement_plan");
  std::vector<double> f(dm.aVec2.size() * 2, 0.0);
  for (size_t i = 0; i < xy.size(); ++i) { f[i * 2] = xy[i].x; f[i * 2 + 1] = xy[i].y; }
  cmd.Interpolate(f.data(), (int) dm.aVec2.size(), 2);
  for (auto &e: cmd.aCmdEdge) {
    if (!ctx.check(e.ipo_new >= 0 && e.ipo_new < (int) dm.aVec2.size(), "new_point_index")) return;
    double mx = 0.5 * (xy[e.ipo0].x + xy[e.ipo1].x), my = 0.5 * (xy[e.ipo0].y + xy[e.ipo1].y);
    ctx.near(dm.aVec2[e.ipo_new].x, mx, 1e-12, "midpoint_x");
    ctx.near(dm.aVec2[e.ipo_new].y, my, 1e-12, "midpoint_y");
    ctx.near(f[e.ipo_new * 2], mx, 1e-12, "interpolated_value");
    ctx.near(f[e.ipo_new * 2 + 1], my, 1e-12, "interpolated_value");
    bool used = false;
    for (auto &t: dm.aETri) for (int k = 0; k < 3; ++k) used |= t.v[k] == (unsigned) e.ipo_new;
    ctx.check(used, "new_point_not_in_mesh");
  }
  ctx.count("edges_refined", cmd.aCmdEdge.size());
  if (cmd.aCmdEdge.size()) ctx.sig(vh::Hash().vd(v).d(elen));
}

// surface mesh class in 3D
VH_FAMILY(surface_history, 600, 10000) {
  auto &r = ctx.rng;
  std::vector<unsigned> tri;
  std::vector<double> xyz;
  if (r.chance(0.5)) dfm2::MeshTri3_Torus(xyz, tri, 1.0, 0.35, r.irange(5, 9), r.irange(5, 9));
  else dfm2::MeshTri3D_Sphere(xyz, tri, 1.0, r.irange(5, 8), r.irange(4, 8));
  tmx::Topo t0 = tmx::topo(tri);
  dfm2::CMeshDynTri3D dm;
  dm.Initialize(xyz.data(), (int) xyz.size() / 3, 3, tri.data(), (int) tri.size() / 3);
  auto vol = [&]() {
    double s = 0;
    for (auto &t: dm.aETri) {
      auto &a = dm.aVec3[t.v[0]], &b = dm.aVec3[t.v[1]], &c = dm.aVec3[t.v[2]];
      s += (a.x * (b.y * c.z - b.z * c.y) + a.y * (b.z * c.x - b.x * c.z) + a.z * (b.x * c.y - b.y * c.x)) / 6;
    }
    return s;
  };
  double v0 = vol();
  int n = r.irange(2, 12);
  for (int i = 0; i < n; ++i) {
    size_t nt = dm.nTri(), np = dm.nPoint();
    int it = r.irange(0, (int) nt - 1);
    double r0 = r.uni(.2, .4), r1 = r.uni(.2, .4);
    auto T = dm.aETri[it];
    auto q = dm.aVec3[T.v[0]] * r0 + dm.aVec3[T.v[1]] * r1 + dm.aVec3[T.v[2]] * (1 - r0 - r1);
    unsigned ip = dm.insertPointElem(it, r0, r1);
    ctx.check(ip == np && dm.nTri() == nt + 2, "insert_counts");
    ctx.near((dm.aVec3[ip] - q).norm(), 0, 1e-12, "inserted_position");
    if (!consistent(ctx, dm.aEPo, dm.aETri, "insert3")) return;
    ctx.near(vol(), v0, 1e-9, "enclosed_volume_changed_by_insertion");
  }
  int nc = r.irange(0, 6);
  for (int i = 0; i < nc; ++i) {
    int it = r.irange(0, (int) dm.nTri() - 1);
    size_t nt = dm.nTri();
    dm.DeleteTriEdge(it, r.irange(0, 2));
    ctx.check(dm.nTri() == nt || dm.nTri() + 2 == nt, "collapse_counts");
    if (!consistent(ctx, dm.aEPo, dm.aETri, "collapse3")) return;
  }
  tmx::Topo t1 = tmx::topo(flat(dm.aETri));
  ctx.check(t1.euler() == t0.euler() && t1.closed == t0.closed, "euler_characteristic_changed");
  ctx.sig(vh::Hash().vd(xyz).vu(flat(dm.aETri)));
}

// planar sheets embedded in space: insertion + Delaunay restoration of the 3D mesh class, also around old and boundary points
VH_FAMILY(sheet3_delaunay_history, 800, 12000) {
  auto &r = ctx.rng;
  std::vector<unsigned> tri;
  std::vector<dfm2::CVec2d> xy;
  grid_mesh(r, tri, xy, r.irange(1, 5), r.irange(1, 5), r.chance(0.3));
  double n[3] = {r.gauss(), r.gauss(), r.gauss()}, l = sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
  for (double &x: n) x /= l;
  double u[3] = {n[1], -n[0], 0};
  if (fabs(n[2]) > 0.9) { u[0] = 0; u[1] = n[2]; u[2] = -n[1]; }
  l = sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2]);
  for (double &x: u) x /= l;
  double w[3] = {n[1] * u[2] - n[2] * u[1], n[2] * u[0] - n[0] * u[2], n[0] * u[1] - n[1] * u[0]};
  std::vector<double> v;
  for (auto &p: xy) for (int k = 0; k < 3; ++k) v.push_back(p.x * u[k] + p.y * w[k] + 3 * n[k]);
  dfm2::CMeshDynTri3D dm;
  dm.Initialize(v.data(), (int) xy.size(), 3, tri.data(), (int) tri.size() / 3);
  auto q2 = [&](unsigned i) {
    std::array<double, 2> a;
    a[0] = dm.aVec3[i].x * u[0] + dm.aVec3[i].y * u[1] + dm.aVec3[i].z * u[2];
    a[1] = dm.aVec3[i].x * w[0] + dm.aVec3[i].y * w[1] + dm.aVec3[i].z * w[2];
    return a;
  };
  double a0 = 0;
  for (size_t i = 0; i < tri.size() / 3; ++i) a0 += tmx::area2(xy[tri[i * 3]].p, xy[tri[i * 3 + 1]].p, xy[tri[i * 3 + 2]].p);
  long euler = tmx::topo(flat(dm.aETri)).euler();
  int nop = r.irange(3, 20);
  for (int i = 0; i < nop; ++i) {
    unsigned ip;
    if (r.chance(0.6)) ip = dm.insertPointElem(r.irange(0, (int) dm.nTri() - 1), r.uni(.15, .4), r.uni(.15, .4));
    else ip = r.irange(0, (int) dm.nPoint() - 1);
    std::string h = vh::fmt("op %d point %u", i, ip);
    dm.DelaunayAroundPoint(ip);
    if (!consistent(ctx, dm.aEPo, dm.aETri, h)) return;
    double s = 0, mn = 1e9;
    for (auto &t: dm.aETri) {
      double A = tmx::area2(q2(t.v[0]).data(), q2(t.v[1]).data(), q2(t.v[2]).data());
      s += A;
      mn = std::min(mn, A);
    }
    if (!ctx.check(mn > 0, "inverted_element", h + vh::fmt(" min area %g", mn))) return;
    if (!ctx.near(s, a0, 1e-9 * (1 + a0), "covered_area_changed", h)) return;
    for (auto &t: dm.aETri)
      for (int k = 0; k < 3; ++k) {
        if (t.v[k] != ip || t.s2[k] == UINT_MAX) continue;
        auto &nb = dm.aETri[t.s2[k]];
        unsigned opp = UINT_MAX;
        for (int j = 0; j < 3; ++j) if (nb.v[j] != t.v[(k + 1) % 3] && nb.v[j] != t.v[(k + 2) % 3]) opp = nb.v[j];
        auto A = q2(t.v[0]), B = q2(t.v[1]), C = q2(t.v[2]), D = q2(opp);
        long double ic = tmx::incircle(A.data(), B.data(), C.data(), D.data());
        if (tmx::area2(A.data(), B.data(), C.data()) > 1e-4)
          if (!ctx.check(ic < 1e-9, "not_locally_delaunay", h + vh::fmt(" incircle=%Lg", ic))) return;
        ctx.count("local_delaunay_edges");
      }
    if (!ctx.check(tmx::topo(flat(dm.aETri)).euler() == euler, "euler_characteristic_changed", h)) return;
  }
  ctx.sig(vh::Hash().vd(v).vu(flat(dm.aETri)));
}

// Delaunay restoration around arbitrary (old, boundary) points of planar meshes
VH_FAMILY(planar_delaunay_any_point, 1200, 16000) {
  auto &r = ctx.rng;
  std::vector<unsigned> tri;
  std::vector<dfm2::CVec2d> xy;
  grid_mesh(r, tri, xy, r.irange(1, 5), r.irange(1, 5), r.chance(0.3));
  std::vector<CDynPntSur> po;
  std::vector<CDynTri> dt;
  dfm2::InitializeMesh(po, dt, tri.data(), tri.size() / 3, xy.size());
  double a0 = 0;
  for (auto &t: dt) a0 += tmx::area2(xy[t.v[0]].p, xy[t.v[1]].p, xy[t.v[2]].p);
  for (int i = 0; i < 12; ++i) {
    unsigned ip = r.irange(0, (int) xy.size() - 1);
    dfm2::DelaunayAroundPoint(ip, po, dt, xy);
    std::string h = vh::fmt("op %d point %u", i, ip);
    if (!consistent(ctx, po, dt, h)) return;
    double s = 0, mn = 1e9;
    for (auto &t: dt) { double A = tmx::area2(xy[t.v[0]].p, xy[t.v[1]].p, xy[t.v[2]].p); s += A; mn = std::min(mn, A); }
    if (!ctx.check(mn > 0, "inverted_element", h + vh::fmt(" min area %g", mn))) return;
    if (!ctx.near(s, a0, 1e-9 * (1 + a0), "covered_area_changed", h)) return;
    for (auto &t: dt)
      for (int k = 0; k < 3; ++k) {
        if (t.v[k] != ip || t.s2[k] == UINT_MAX) continue;
        auto &nb = dt[t.s2[k]];
        unsigned opp = UINT_MAX;
        for (int j = 0; j < 3; ++j) if (nb.v[j] != t.v[(k + 1) % 3] && nb.v[j] != t.v[(k + 2) % 3]) opp = nb.v[j];
        long double ic = tmx::incircle(xy[t.v[0]].p, xy[t.v[1]].p, xy[t.v[2]].p, xy[opp].p);
        if (tmx::area2(xy[t.v[0]].p, xy[t.v[1]].p, xy[t.v[2]].p) > 1e-4)
          if (!ctx.check(ic < 1e-9, "not_locally_delaunay", h + vh::fmt(" incircle=%Lg", ic))) return;
        ctx.count("local_delaunay_edges");
      }
  }
  ctx.sig(vh::Hash().vu(tri).vu(flat(dt)));
}
