// C26: editing histories of a 2D CAD shape against a shadow boundary model, and meshing of the shape.
#include "../lib/vh.h"
#include "../lib/trimesh.h"
#include <unistd.h>
#include <cmath>
#include <iostream>
#include <sstream>
#include <fstream>
#include <set>
#include "delfem2/cad2.h"
#include "delfem2/cad2_mesher.h"
#include <map>
#include "delfem2/cad2_io_dxf.h"
#include "delfem2/cad2_io_svg.h"
#include "delfem2/cad2_mesh_deformation.h"
namespace dfm2 = delfem2;
using dfm2::CVec2d;
typedef dfm2::CCad2D_EdgeGeo EG;

// shadow: per face a cyclic list of edges with absolute geometry
struct SE { unsigned ie; int type; CVec2d p0, c0, c1, p1; };
struct SF { std::vector<SE> loop; std::vector<std::pair<unsigned, CVec2d>> iso; };
struct Shadow { std::vector<SF> f; unsigned nv = 0, ne = 0; };

static CVec2d at(const SE &e, double t) {
  double s = 1 - t;
  if (e.type == EG::LINE) { return e.p0 * s + e.p1 * t; }
  if (e.type == EG::BEZIER_QUADRATIC) { return e.p0 * (s * s) + e.c0 * (2 * s * t) + e.p1 * (t * t); }
  return e.p0 * (s * s * s) + e.c0 * (3 * s * s * t) + e.c1 * (3 * s * t * t) + e.p1 * (t * t * t);
}
static double area_of(const SF &f) {  // exact for polynomials up to cubic: Gauss-free closed sampling with Simpson on cross product
  double a = 0;
  for (auto &e: f.loop) {
    // integrate (x y' - y x')/2 with 4-point Gauss (degree 7)
    static const double g[4] = {-0.8611363115940526, -0.3399810435848563, 0.3399810435848563, 0.8611363115940526}, w[4] = {0.3478548451374538, 0.6521451548625461, 0.6521451548625461, 0.3478548451374538};
    for (int k = 0; k < 4; ++k) {
      double t = 0.5 + 0.5 * g[k], s = 1 - t;
      CVec2d p = at(e, t), d;
      if (e.type == EG::LINE) { d = e.p1 - e.p0; }
      else if (e.type == EG::BEZIER_QUADRATIC) { d = (e.c0 - e.p0) * (2 * s) + (e.p1 - e.c0) * (2 * t); }
      else { d = (e.c0 - e.p0) * (3 * s * s) + (e.c1 - e.c0) * (6 * s * t) + (e.p1 - e.c1) * (3 * t * t); }
      a += 0.25 * w[k] * (p.x * d.y - p.y * d.x);
    }
  }
  return a;
}
static void set_type(vh::Ctx &ctx, dfm2::CCad2D &cad, SE &e, int type, double amp) {
  EG &g = cad.aEdge[e.ie];
  CVec2d d = e.p1 - e.p0, n(-d.y, d.x);
  auto off = [&](double t) { return e.p0 + d * (t + ctx.rng.uni(-0.1, 0.1)) + n * ctx.rng.uni(-amp, amp); };
  e.type = type;
  if (type == EG::LINE) { g.SetLine(); }
  if (type == EG::BEZIER_QUADRATIC) { e.c0 = off(0.5); g.SetQuadraticBezierCurve(e.c0); }
  if (type == EG::BEZIER_CUBIC) { e.c0 = off(0.33); e.c1 = off(0.67); g.SetCubicBezierCurve(e.c0, e.c1); }
  ctx.count(vh::fmt("type_%d", type));
}
static bool close(const CVec2d &a, const CVec2d &b, double tol = 1e-9) { return std::hypot(a.x - b.x, a.y - b.y) <= tol; }

static bool check(vh::Ctx &ctx, const dfm2::CCad2D &cad, const Shadow &s, const char *op) {
  if (!CK(cad.Check(), "self check fails", "%s", op)) { return false; }
  if (!CK(cad.nVtx() == s.nv && cad.topo.num_vertex == s.nv && cad.nEdge() == s.ne && cad.topo.edges.size() == s.ne && cad.topo.faces.size() == s.f.size(), "numbers of vertices, edges and faces", "after %s: %zu %zu %zu vs %u %u %zu", op, cad.nVtx(), cad.nEdge(), cad.topo.faces.size(), s.nv, s.ne, s.f.size())) { return false; }
  std::vector<int> used(s.ne, 0);
  dfm2::CBoundingBox2<double> bb;
  for (unsigned f = 0; f < s.f.size(); ++f) {
    auto el = cad.topo.EdgeIndexes_Face(f);
    if (!CK(el.size() == s.f[f].loop.size(), "number of edges of a face", "after %s face %u: %zu vs %zu", op, f, el.size(), s.f[f].loop.size())) { return false; }
    size_t n = el.size();
    for (size_t i = 0; i < n; ++i) {
      const SE &e = s.f[f].loop[i];
      used[el[i].first]++;
      if (!CK(el[i].first == e.ie && el[i].second, "edges of a face are not in boundary order", "after %s face %u pos %zu: %u vs %u", op, f, i, el[i].first, e.ie)) { return false; }
      const EG &g = cad.aEdge[e.ie];
      auto ev = cad.topo.VertexIndexs_EdgeEndPoints(e.ie), nx = cad.topo.VertexIndexs_EdgeEndPoints(el[(i + 1) % n].first);
      CK(ev.second == nx.first, "boundary edges are not connected", "after %s face %u pos %zu", op, f, i);
      CK(close(cad.aVtx[ev.first].pos, e.p0) && close(cad.aVtx[ev.second].pos, e.p1), "vertex position of an edge", "after %s edge %u", op, e.ie);
      CK(close(g.p0, e.p0) && close(g.p1, e.p1), "end points of an edge differ from its vertices", "after %s edge %u (%g %g)-(%g %g) vs (%g %g)-(%g %g)", op, e.ie, g.p0.x, g.p0.y, g.p1.x, g.p1.y, e.p0.x, e.p0.y, e.p1.x, e.p1.y);
      if (!CK((int) g.type_edge == e.type && g.param.size() == (e.type == 0 ? 0u : e.type == 1 ? 4u : 2u), "type of an edge", "after %s edge %u: %d vs %d", op, e.ie, (int) g.type_edge, e.type)) { return false; }
      if (e.type == EG::BEZIER_CUBIC) { CK(close(g.p0 + CVec2d(g.param[0], g.param[1]), e.c0) && close(g.p1 + CVec2d(g.param[2], g.param[3]), e.c1), "control points of a cubic edge", "after %s edge %u", op, e.ie); }
      if (e.type == EG::BEZIER_QUADRATIC) { CK(close(g.p0 + CVec2d(g.param[0], g.param[1]), e.c0), "control point of a quadratic edge", "after %s edge %u", op, e.ie); }
      bb.Add(e.p0.x, e.p0.y);
      ctx.count("edges_checked");
    }
    // area and inversion
    std::vector<EG> lp; for (auto &e: s.f[f].loop) { lp.push_back(cad.aEdge[e.ie]); }
    double ref = area_of(s.f[f]);
    CKN(dfm2::AreaLoop(lp), ref, 1e-9 * (1 + std::fabs(ref)), "area of a loop", "after %s face %u", op, f);
    auto inv = dfm2::InvertLoop(lp);
    CKN(dfm2::AreaLoop(inv), -ref, 1e-9 * (1 + std::fabs(ref)), "area of an inverted loop", "after %s face %u", op, f);
    for (size_t i = 0; i < n; ++i) {
      const EG &g = inv[n - 1 - i];
      SE b{0, (int) g.type_edge, g.p0, {}, {}, g.p1};
      if (b.type == 1) { b.c0 = g.p0 + CVec2d(g.param[0], g.param[1]); b.c1 = g.p1 + CVec2d(g.param[2], g.param[3]); }
      if (b.type == 2) { b.c0 = g.p0 + CVec2d(g.param[0], g.param[1]); }
      for (double t: {0., 0.3, 0.8}) { CK(close(at(b, t), at(s.f[f].loop[i], 1 - t), 1e-8), "inverted edge has another shape", "after %s edge %zu t %g", op, i, t); }
    }
    CK(dfm2::RemoveEdgeWithZeroLength(lp).size() == lp.size(), "an edge with length is removed", "after %s", op);
    // incidence queries
    std::set<unsigned> vs; for (auto &e: s.f[f].loop) { vs.insert(cad.topo.VertexIndexs_EdgeEndPoints(e.ie).first); } for (auto &p: s.f[f].iso) { vs.insert(p.first); CK(close(cad.aVtx[p.first].pos, p.second), "position of an isolated vertex", "after %s", op); }
    auto fv = cad.topo.VertexIndexs_Face(f);
    CK(std::set<unsigned>(fv.begin(), fv.end()) == vs && fv.size() == vs.size(), "vertices of a face", "after %s face %u: %zu vs %zu", op, f, fv.size(), vs.size());
    for (unsigned v: vs) { auto r = cad.topo.FindFaceIndexes_IncludeVeretx(v); CK(r == std::vector<unsigned>{f}, "faces including a vertex", "after %s vertex %u face %u: %zu faces", op, v, f, r.size()); }
    for (auto &e: s.f[f].loop) { auto r = cad.topo.FindFaceIndexes_IncludeEdge(e.ie); CK(r == std::vector<unsigned>{f}, "faces including an edge", "after %s edge %u face %u: %zu faces", op, e.ie, f, r.size()); }
  }
  for (unsigned e = 0; e < s.ne; ++e) { CK(used[e] == 1, "an edge is not used exactly once", "after %s edge %u: %d", op, e, used[e]); }
  auto b = cad.BB();
  if (s.ne) { CK(b.x_min <= bb.x_min + 1e-9 && b.x_max >= bb.x_max - 1e-9 && b.y_min <= bb.y_min + 1e-9 && b.y_max >= bb.y_max - 1e-9, "bounding box misses a vertex", "after %s", op); }
  ctx.count("states_checked");
  return !ctx.failed;
}

static bool seg_cross(CVec2d a, CVec2d b, CVec2d c, CVec2d d) {
  auto o = [](CVec2d p, CVec2d q, CVec2d r) { return (q.x - p.x) * (r.y - p.y) - (q.y - p.y) * (r.x - p.x); };
  return o(a, b, c) * o(a, b, d) <= 0 && o(c, d, a) * o(c, d, b) <= 0;
}
// discretized boundary is simple and has no near contacts
static bool simple(const std::vector<CVec2d> &p, double gap) {
  size_t n = p.size();
  if (n < 3) { return false; }
  for (size_t i = 0; i < n; ++i) {
    if (std::hypot(p[i].x - p[(i + 1) % n].x, p[i].y - p[(i + 1) % n].y) < gap) { return false; }
    for (size_t j = i + 1; j < n; ++j) {
      bool adj = j == i + 1 || (i == 0 && j == n - 1);
      if (adj) { continue; }
      if (seg_cross(p[i], p[(i + 1) % n], p[j], p[(j + 1) % n])) { return false; }
      auto dist = [&](CVec2d q, CVec2d a, CVec2d b) { CVec2d d = b - a; double t = ((q - a).dot(d)) / d.dot(d); t = std::max(0., std::min(1., t)); CVec2d r = a + d * t - q; return std::hypot(r.x, r.y); };
      if (dist(p[i], p[j], p[(j + 1) % n]) < gap || dist(p[j], p[i], p[(i + 1) % n]) < gap || dist(p[(i + 1) % n], p[j], p[(j + 1) % n]) < gap || dist(p[(j + 1) % n], p[i], p[(i + 1) % n]) < gap) { return false; }
    }
  }
  return true;
}
static bool inside(const std::vector<CVec2d> &p, CVec2d q) {
  bool in = false; size_t n = p.size();
  for (size_t i = 0, j = n - 1; i < n; j = i++) { if ((p[i].y > q.y) != (p[j].y > q.y) && q.x < (p[j].x - p[i].x) * (q.y - p[i].y) / (p[j].y - p[i].y) + p[i].x) { in = !in; }}
  return in;
}
static double dist_poly(const std::vector<CVec2d> &p, CVec2d q) {
  double m = 1e30; size_t n = p.size();
  for (size_t i = 0; i < n; ++i) { CVec2d a = p[i], d = p[(i + 1) % n] - a; double t = std::max(0., std::min(1., ((q - a).dot(d)) / d.dot(d))); m = std::min(m, (a + d * t - q).norm()); }
  return m;
}
static std::vector<CVec2d> sampled(const SF &f, int nd) { std::vector<CVec2d> r; for (auto &e: f.loop) { for (int i = 0; i < nd; ++i) { r.push_back(at(e, i / (double) nd)); }} return r; }

static void add_polygon(vh::Ctx &ctx, dfm2::CCad2D &cad, Shadow &s, bool convex) {
  int n = ctx.rng.irange(3, 7);
  double cx = 4. * (double) s.f.size() + ctx.rng.uni(-0.2, 0.2), cy = ctx.rng.uni(-1, 1), r = ctx.rng.uni(0.6, 1.2), ph = ctx.rng.uni(0, 6.28);
  std::vector<double> xy; SF f; std::vector<CVec2d> p;
  for (int i = 0; i < n; ++i) { double a = ph + (i + ctx.rng.uni(-0.2, 0.2)) * 6.283185307179586 / n, q = convex ? r : r * ctx.rng.uni(0.6, 1.3); p.emplace_back(cx + q * std::cos(a), cy + q * std::sin(a)); xy.push_back(p.back().x); xy.push_back(p.back().y); }
  for (int i = 0; i < n; ++i) { f.loop.push_back({s.ne + (unsigned) i, 0, p[(size_t) i], {}, {}, p[(size_t) ((i + 1) % n)]}); }
  if (ctx.rng.chance(0.6)) { cad.AddPolygon(xy); ctx.count("op_add_polygon"); }
  else {
    std::vector<EG> lp;
    for (auto &e: f.loop) {
      EG g; g.p0 = e.p0; g.p1 = e.p1; CVec2d d = e.p1 - e.p0, nn(-d.y, d.x);
      int t = convex ? 0 : ctx.rng.irange(0, 2); e.type = t;
      if (t == 1) { e.c0 = e.p0 + d * 0.3 + nn * ctx.rng.uni(-0.2, 0.2); e.c1 = e.p0 + d * 0.7 + nn * ctx.rng.uni(-0.2, 0.2); g.SetCubicBezierCurve(e.c0, e.c1); }
      if (t == 2) { e.c0 = e.p0 + d * 0.5 + nn * ctx.rng.uni(-0.2, 0.2); g.SetQuadraticBezierCurve(e.c0); }
      lp.push_back(g);
    }
    cad.AddFace(lp); ctx.count("op_add_face");
  }
  s.ne += (unsigned) n; s.nv += (unsigned) n; s.f.push_back(f);
}
// vertex positions move: the offsets of control points are kept
static void move_vertex(Shadow &s, const dfm2::CCad2D &cad, unsigned iv, CVec2d to) {
  for (auto &f: s.f) {
    for (auto &e: f.loop) {
      auto v = cad.topo.VertexIndexs_EdgeEndPoints(e.ie);
      if (v.first == iv) { e.c0 = e.c0 + (to - e.p0); e.p0 = to; }
      if (v.second == iv) { e.c1 = e.c1 + (to - e.p1); e.p1 = to; }
    }
    for (auto &p: f.iso) { if (p.first == iv) { p.second = to; }}
  }
}
static void edit(vh::Ctx &ctx, dfm2::CCad2D &cad, Shadow &s, int op, const char **name) {
  auto &f = s.f[(size_t) ctx.rng.irange(0, (int) s.f.size() - 1)];
  size_t k = (size_t) ctx.rng.irange(0, (int) f.loop.size() - 1);
  SE &e = f.loop[k];
  if (op == 0) {  // vertex on an edge
    *name = "AddVtxEdge";
    if (e.type != 0) { *name = "nothing"; return; }
    CVec2d d = e.p1 - e.p0, n(-d.y, d.x), q = e.p0 + d * ctx.rng.uni(0.3, 0.7) + n * ctx.rng.uni(-0.1, 0.1);
    cad.AddVtxEdge(q.x, q.y, e.ie);
    SE e2 = e; e2.ie = s.ne; e2.p0 = q; e.p1 = q;
    f.loop.insert(f.loop.begin() + (long) k + 1, e2);
    s.ne++; s.nv++; ctx.count("op_add_vertex_edge");
    if (ctx.rng.chance(0.2)) { cad.AddVtxEdge(0, 0, s.ne + 3); }  // ignored
  } else if (op == 1) {
    *name = "AddVtxFace";
    unsigned fi = (unsigned) (&f - s.f.data());
    CVec2d c(0, 0); for (auto &x: f.loop) { c = c + x.p0 * (1. / (double) f.loop.size()); }
    CVec2d q = c + CVec2d(ctx.rng.uni(-0.25, 0.25), ctx.rng.uni(-0.25, 0.25));
    auto pl = sampled(f, 8);
    if (!inside(pl, q) || dist_poly(pl, q) < 0.05) { *name = "nothing"; return; }
    for (auto &i: f.iso) { if ((i.second - q).norm() < 0.05) { *name = "nothing"; return; }}
    cad.AddVtxFace(q.x, q.y, fi);
    f.iso.push_back({s.nv, q}); s.nv++; ctx.count("op_add_vertex_face");
    if (ctx.rng.chance(0.2)) { cad.AddVtxFace(0, 0, (unsigned) s.f.size()); }  // ignored
  } else if (op == 2) {
    *name = "edge type";
    set_type(ctx, cad, e, ctx.rng.irange(0, 2), 0.25);
  } else if (op == 3) {
    *name = "drag vertex";
    dfm2::Cad2_Ui ui;
    unsigned iv = (unsigned) ctx.rng.irange(0, (int) s.nv - 1);
    CVec2d p = cad.aVtx[iv].pos, q = p + CVec2d(ctx.rng.uni(-0.05, 0.05), ctx.rng.uni(-0.05, 0.05));
    ui.Pick(p.x + 1e-4, p.y, 0.1, cad);
    if (!CK(ui.ivtx_picked < s.nv && (cad.aVtx[ui.ivtx_picked].pos - p).norm() < 0.0051, "picking at a vertex", "vertex %u: %u", iv, ui.ivtx_picked)) { return; }
    unsigned jv = ui.ivtx_picked;
    ui.DragPicked(cad, q.x, q.y, p.x, p.y);
    move_vertex(s, cad, jv, q); ctx.count("op_drag_vertex");
  } else if (op == 4) {
    *name = "drag edge";
    dfm2::Cad2_Ui ui;
    CVec2d p = at(e, 0.5), d(ctx.rng.uni(-0.05, 0.05), ctx.rng.uni(-0.05, 0.05));
    ui.Pick(p.x, p.y, 0.01, cad);
    if (ui.ivtx_picked < s.nv) { *name = "nothing"; return; }
    if (!CK(ui.iedge_picked < s.ne, "picking at an edge", "edge %u type %d: nothing picked", e.ie, e.type)) { return; }
    if (ui.iedge_picked != e.ie) { *name = "nothing"; return; }
    auto v = cad.topo.VertexIndexs_EdgeEndPoints(e.ie);
    CVec2d a = cad.aVtx[v.first].pos, b = cad.aVtx[v.second].pos;
    ui.DragPicked(cad, p.x + d.x, p.y + d.y, p.x, p.y);
    move_vertex(s, cad, v.first, a + d); move_vertex(s, cad, v.second, b + d); ctx.count("op_drag_edge");
  } else if (op == 5) {
    *name = "drag handle";
    if (e.type != EG::BEZIER_CUBIC) { *name = "nothing"; return; }
    dfm2::Cad2_Ui ui; ui.iedge_picked = e.ie;
    bool second = ctx.rng.chance(0.5);
    CVec2d h = second ? e.c1 : e.c0, o = second ? e.c0 : e.c1, q = h + CVec2d(ctx.rng.uni(-0.05, 0.05), ctx.rng.uni(-0.05, 0.05));
    if ((h - o).norm() < 0.02) { *name = "nothing"; return; }
    ui.Pick(h.x, h.y, 0.1, cad);
    if (!CK(ui.ipicked_elem == (second ? 2 : 1) && ui.iedge_picked == e.ie, "picking a handle", "%d", ui.ipicked_elem)) { return; }
    ui.DragPicked(cad, q.x, q.y, h.x, h.y);
    (second ? e.c1 : e.c0) = q; ctx.count("op_drag_handle");
  } else if (op == 6) {
    *name = "add face";
    if (s.f.size() >= 4) { *name = "nothing"; return; }
    add_polygon(ctx, cad, s, false);
  }
}
static void history(vh::Ctx &ctx, dfm2::CCad2D &cad, Shadow &s, int nop, vh::Hash &h) {
  add_polygon(ctx, cad, s, false);
  if (!check(ctx, cad, s, "first face")) { return; }
  for (int i = 0; i < nop; ++i) {
    int op = ctx.rng.irange(0, 6); const char *name = "?";
    edit(ctx, cad, s, op, &name);
    h.u((uint64_t) op);
    if (ctx.failed || !check(ctx, cad, s, name)) { return; }
  }
  for (auto &v: cad.aVtx) { h.d(v.pos.x).d(v.pos.y); }
}

VH_FAMILY(history_cad, 300, 12000) {
  dfm2::CCad2D cad; Shadow s; vh::Hash h;
  history(ctx, cad, s, ctx.rng.irange(3, 16), h);
  ctx.sig(h.h);
  if (ctx.failed) { return; }
  for (auto &f: s.f) for (auto &e: f.loop) {  // edge geometry
    const EG &g = cad.aEdge[e.ie];
    unsigned nd = (unsigned) ctx.rng.irange(1, 9);
    auto m = g.GenMesh(nd);
    if (!CK(m.size() == (nd - 1) * 3, "number of edge samples", "%zu for %u", m.size(), nd)) { return; }
    for (unsigned i = 0; i + 1 < nd; ++i) { double t = (i + 1.) / nd; CKN(m[i * 3 + 2], t, 1e-12, "edge sample parameter", "%u/%u", i, nd); CK(close(CVec2d(m[i * 3], m[i * 3 + 1]), at(e, t)), "edge sample off the curve", "type %d t %g", e.type, t); }
    double len = 0; CVec2d p = e.p0; for (int i = 1; i <= 400; ++i) { CVec2d q = at(e, i / 400.); len += (q - p).norm(); p = q; }
    CKN(g.ArcLength(), len, 0.02 * len + 1e-6, "arc length of an edge", "type %d", e.type);
    CVec2d q = at(e, 0.5) + CVec2d(ctx.rng.uni(-1, 1), ctx.rng.uni(-1, 1));
    double dm = 1e30; for (int i = 0; i <= 400; ++i) { dm = std::min(dm, (at(e, i / 400.) - q).norm()); }
    double dg = g.Distance(q.x, q.y);
    CK(dg >= dm - 0.01 * len && dg <= dm + 0.02 + 0.02 * len, "distance to an edge", "type %d: %g vs %g", e.type, dg, dm);
    ctx.count("edge_geometry");
  }
  // exchange format
  std::string path = vh::cfg().dir + vh::fmt("/c26_%d.dxf", (int) getpid());
  double sc = ctx.rng.pick(std::vector<double>{1, 2.5, 10});
  if (!CK(dfm2::WriteCAD_DXF(path, cad, sc), "DXF is not written", "%s", path.c_str())) { return; }
  std::ifstream in(path); std::vector<std::string> L; std::string l; while (std::getline(in, l)) { L.push_back(l); }
  // pairs of a group code and a value; sections opened, named and closed; lines only in the section of entities
  if (CK(L.size() % 2 == 0, "DXF consists of pairs of lines", "%zu lines", L.size())) {
    std::string sec; bool open = false, eof = false; std::map<std::string, std::pair<double, double>> ext; std::vector<std::string> secs; std::string var;
    for (size_t i = 0; i + 1 < L.size(); i += 2) {
      char *end = nullptr; long code = strtol(L[i].c_str(), &end, 10); while (*end == ' ' || *end == '\r') { ++end; }
      if (!CK(end != L[i].c_str() && *end == 0, "DXF group code is a number", "line %zu: %s", i, L[i].c_str())) { break; }
      const std::string &v = L[i + 1];
      if (!CK(!eof, "nothing follows the end of the DXF file", "line %zu", i)) { break; }
      if (code == 0 && v == "SECTION") { CK(!open, "DXF sections are closed", "%s", sec.c_str()); open = true; sec.clear(); }
      else if (code == 0 && v == "ENDSEC") { CK(open && !sec.empty(), "DXF sections are opened and named", "line %zu", i); open = false; }
      else if (code == 0 && v == "EOF") { CK(!open, "DXF sections are closed", "%s", sec.c_str()); eof = true; }
      else if (code == 2 && open && sec.empty()) { sec = v; secs.push_back(v); }
      else if (code == 0) { CK(open && sec == "ENTITIES", "DXF entities lie in their section", "%s", v.c_str()); }
      else if (code == 9) { var = v; }
      else if (sec == "HEADER" && (code == 10 || code == 20)) { (code == 10 ? ext[var].first : ext[var].second) = atof(v.c_str()); }
    }
    CK(eof, "DXF file has an end", "");
    CK((secs == std::vector<std::string>{"HEADER", "TABLES", "BLOCKS", "ENTITIES"}), "DXF sections in order", "%zu", secs.size());
    bool straight = true; double x0 = 1e30, y0 = 1e30, x1 = -1e30, y1 = -1e30;
    for (auto &f: s.f) for (auto &e: f.loop) { straight = straight && e.type == 0; for (auto q: {e.p0, e.p1}) { x0 = std::min(x0, q.x); x1 = std::max(x1, q.x); y0 = std::min(y0, q.y); y1 = std::max(y1, q.y); } }
    if (straight && x0 < x1) {
      CKN(ext["$EXTMIN"].first, x0 * sc, 1e-5, "DXF extents", ""); CKN(ext["$EXTMIN"].second, y0 * sc, 1e-5, "DXF extents", "");
      CKN(ext["$EXTMAX"].first, x1 * sc, 1e-5, "DXF extents", ""); CKN(ext["$EXTMAX"].second, y1 * sc, 1e-5, "DXF extents", "");
      ctx.count("dxf_extents");
    }
  }
  std::vector<std::array<double, 4>> got;
  for (size_t i = 0; i + 16 <= L.size(); ++i) { if (L[i] == "LINE") { std::array<double, 4> a{}; const char *code[4] = {"  10", "  20", "  11", "  21"}; for (int c = 0; c < 4; ++c) { for (size_t j = i; j + 1 < std::min(L.size(), i + 20); ++j) { if (L[j] == code[c]) { a[(size_t) c] = atof(L[j + 1].c_str()); break; }}} got.push_back(a); }}
  std::vector<std::array<double, 4>> ref;
  for (auto &f: s.f) for (auto &e: f.loop) { if (e.type == 0) { ref.push_back({e.p0.x * sc, e.p0.y * sc, e.p1.x * sc, e.p1.y * sc}); }}
  if (CK(got.size() == ref.size(), "number of DXF lines", "%zu vs %zu", got.size(), ref.size())) {
    for (size_t i = 0; i < ref.size(); ++i) for (size_t c = 0; c < 4; ++c) { CKN(got[i][c], ref[i][c], 1e-5, "DXF line", "%zu", i); }
    ctx.count("dxf_lines", (long) ref.size());
  }
}

static bool mesh_and_check(vh::Ctx &ctx, const dfm2::CCad2D &cad, const Shadow &s, dfm2::CMesher_Cad2D &ms, dfm2::CMeshDynTri2D &dm, bool *skipped) {
  *skipped = false;
  // boundary as the mesher is expected to divide it
  std::vector<std::vector<CVec2d>> poly(s.f.size());
  std::vector<unsigned> nd(s.ne);
  for (size_t f = 0; f < s.f.size(); ++f) for (auto &e: s.f[f].loop) {
    unsigned n;
    auto it = ms.mapIdEd_NDiv.find(e.ie);
    if (ms.edge_length <= 0) { n = 20; } else if (it != ms.mapIdEd_NDiv.end()) { n = it->second; } else { n = (unsigned) (cad.aEdge[e.ie].ArcLength() / ms.edge_length + 1); }
    nd[e.ie] = n;
    for (unsigned i = 0; i < n; ++i) { poly[f].push_back(at(e, i / (double) n)); }
  }
  for (size_t f = 0; f < s.f.size(); ++f) {
    if (!simple(poly[f], 1e-3)) { *skipped = true; ctx.count("mesh_skipped_not_simple"); return false; }
    for (auto &p: s.f[f].iso) { if (!inside(poly[f], p.second) || dist_poly(poly[f], p.second) < 5e-3) { *skipped = true; return false; } for (auto &q: s.f[f].iso) { if (&p != &q && (p.second - q.second).norm() < 5e-3) { *skipped = true; return false; }}}
    double a = 0; for (size_t i = 0; i < poly[f].size(); ++i) { auto &p = poly[f][i], &q = poly[f][(i + 1) % poly[f].size()]; a += 0.5 * (p.x * q.y - p.y * q.x); }
    if (a < 0.05) { *skipped = true; return false; }
  }
  ms.Meshing(dm, cad);
  size_t np = dm.aVec2.size(), nt = dm.aETri.size();
  if (!CK(ms.aFlgPnt.size() == np && ms.aFlgTri.size() == nt && ms.edge_point.size() == s.ne && ms.nvtx == s.nv && ms.nedge == s.ne && ms.nface == s.f.size(), "sizes of the mesh associations", "%zu %zu vs %zu %zu", ms.aFlgPnt.size(), ms.aFlgTri.size(), np, nt)) { return false; }
  std::vector<unsigned> tri; std::vector<double> area(s.f.size(), 0);
  std::vector<std::set<unsigned>> fpts(s.f.size());
  std::map<std::pair<unsigned, unsigned>, std::pair<int, unsigned>> de;
  for (size_t t = 0; t < nt; ++t) {
    unsigned f = ms.aFlgTri[t];
    if (!CK(f < s.f.size(), "triangle without a face", "%zu: %u", t, f)) { return false; }
    const auto *v = dm.aETri[t].v;
    for (int k = 0; k < 3; ++k) { if (!CK(v[k] < np, "triangle with a nonexistent point", "%zu", t)) { return false; } tri.push_back(v[k]); fpts[f].insert(v[k]); auto &x = de[{v[k], v[(k + 1) % 3]}]; x.first++; x.second = f; }
    double a = tmx::area2(dm.aVec2[v[0]].p, dm.aVec2[v[1]].p, dm.aVec2[v[2]].p);
    CK(a > 0, "inverted or flat triangle", "face %u area %g", f, a);
    area[f] += a;
  }
  // boundary edges of the mesh are exactly the division of the boundary
  std::set<std::pair<unsigned, unsigned>> bref;
  for (size_t f = 0; f < s.f.size(); ++f) {
    double a = 0; for (size_t i = 0; i < poly[f].size(); ++i) { auto &p = poly[f][i], &q = poly[f][(i + 1) % poly[f].size()]; a += 0.5 * (p.x * q.y - p.y * q.x); }
    CKN(area[f], a, 1e-8, "area of the mesh of a face", "face %zu", f);
    for (auto &e: s.f[f].loop) {
      if (!CK(ms.edge_point[e.ie].size() + 1 == nd[e.ie], "number of divisions of an edge", "edge %u: %zu vs %u", e.ie, ms.edge_point[e.ie].size() + 1, nd[e.ie])) { return false; }
      auto ev = cad.topo.VertexIndexs_EdgeEndPoints(e.ie); unsigned prev = ev.first;
      for (unsigned i = 0; i < ms.edge_point[e.ie].size(); ++i) {
        auto pr = ms.edge_point[e.ie][i];
        if (!CK(pr.first < np, "edge point index", "%u", pr.first)) { return false; }
        CKN(pr.second, (i + 1.) / nd[e.ie], 1e-12, "edge point parameter", "edge %u", e.ie);
        CK(close(dm.aVec2[pr.first], at(e, pr.second), 1e-9), "edge point off the edge", "edge %u point %u", e.ie, i);
        CK(ms.aFlgPnt[pr.first] == s.nv + e.ie, "association of a point on an edge", "%u: %u vs %u", pr.first, ms.aFlgPnt[pr.first], s.nv + e.ie);
        bref.insert({prev, pr.first}); prev = pr.first;
      }
      bref.insert({prev, ev.second});
    }
  }
  std::set<std::pair<unsigned, unsigned>> bgot;
  for (auto &x: de) { CK(x.second.first == 1, "a directed edge is used twice", "%u %u", x.first.first, x.first.second); if (!de.count({x.first.second, x.first.first})) { bgot.insert(x.first); }}
  CK(bgot == bref, "boundary of the mesh differs from the boundary of the shape", "%zu vs %zu edges", bgot.size(), bref.size());
  for (unsigned v = 0; v < s.nv; ++v) { CK(ms.aFlgPnt[v] == v && close(dm.aVec2[v], cad.aVtx[v].pos, 1e-12), "vertex of the shape in the mesh", "%u", v); }
  for (size_t f = 0; f < s.f.size(); ++f) { for (auto &p: s.f[f].iso) { CK(fpts[f].count(p.first) == 1, "isolated vertex is not in the mesh of its face", "vertex %u face %zu", p.first, f); }}
  size_t inner = 0;
  for (size_t p = 0; p < np; ++p) {
    unsigned g = ms.aFlgPnt[p];
    if (!CK(g < s.nv + s.ne + s.f.size(), "association out of range", "%zu: %u", p, g)) { return false; }
    if (g >= s.nv + s.ne) {
      unsigned f = g - s.nv - s.ne; inner++;
      CK(fpts[f].count((unsigned) p) == 1, "interior point is associated to another face", "%zu face %u", p, f);
      CK(inside(poly[f], dm.aVec2[p]), "interior point outside its face", "%zu", p);
    }
  }
  ctx.count("mesh_interior_points", (long) inner);
  // index queries
  for (unsigned e = 0; e < s.ne; ++e) {
    auto ev = cad.topo.VertexIndexs_EdgeEndPoints(e);
    std::vector<unsigned> r; for (auto &x: ms.edge_point[e]) { r.push_back(x.first); }
    CK(ms.IndPoint_IndEdge(e, false, cad) == r, "points on an edge", "edge %u", e);
    std::vector<unsigned> r2 = {ev.first}; r2.insert(r2.end(), r.begin(), r.end()); r2.push_back(ev.second);
    CK(ms.IndPoint_IndEdge(e, true, cad) == r2, "points on an edge with its ends", "edge %u", e);
  }
  std::vector<int> es, fs; for (unsigned e = 0; e < s.ne; ++e) { if (ctx.rng.chance(0.4)) { es.push_back((int) e); }} for (unsigned f = 0; f < s.f.size(); ++f) { if (ctx.rng.chance(0.5)) { fs.push_back((int) f); }}
  std::set<unsigned> q, z;
  for (int e: es) { auto ev = cad.topo.VertexIndexs_EdgeEndPoints((unsigned) e); q.insert(ev.first); q.insert(ev.second); for (auto &x: ms.edge_point[(size_t) e]) { q.insert(x.first); }}
  auto a1 = ms.IndPoint_IndEdgeArray(es, cad);
  CK(std::set<unsigned>(a1.begin(), a1.end()) == q && a1.size() == q.size(), "points on a set of edges", "%zu vs %zu", a1.size(), q.size());
  for (int f: fs) { z.insert(fpts[(size_t) f].begin(), fpts[(size_t) f].end()); }
  auto a2 = ms.IndPoint_IndFaceArray(fs, cad);
  CK(std::set<unsigned>(a2.begin(), a2.end()) == z && a2.size() == z.size(), "points of a set of faces", "%zu vs %zu", a2.size(), z.size());
  ctx.count("meshes"); ctx.count("mesh_triangles", (long) nt);
  return !ctx.failed;
}
VH_FAMILY(mesh_cad, 200, 8000) {
  dfm2::CCad2D cad; Shadow s; vh::Hash h;
  history(ctx, cad, s, ctx.rng.irange(0, 10), h);
  if (ctx.failed) { return; }
  dfm2::CMesher_Cad2D ms; dfm2::CMeshDynTri2D dm;
  int rounds = ctx.rng.irange(1, 2);  // the mesher object is reused
  for (int k = 0; k < rounds; ++k) {
    ms.edge_length = ctx.rng.pick(std::vector<double>{-1., 0.1, 0.15, 0.3, 0.7, 5.});
    ms.mapIdEd_NDiv.clear();
    if (ctx.rng.chance(0.3)) { ms.mapIdEd_NDiv[(unsigned) ctx.rng.irange(0, (int) s.ne - 1)] = (unsigned) ctx.rng.irange(1, 9); }
    bool sk; if (!mesh_and_check(ctx, cad, s, ms, dm, &sk) && !sk) { return; }
    if (ms.edge_length < 0) { ctx.count("mesh_default_division"); }
  }
  ctx.sig(h.d(ms.edge_length).h);
}
VH_FAMILY(bulging_face, 100, 4000) {
  // few vertices, edges bulging far beyond the vertices
  dfm2::CCad2D cad; Shadow s;
  double a = ctx.rng.uni(0.2, 0.6), b = ctx.rng.uni(1, 4), w = ctx.rng.uni(0.5, 2);
  std::vector<CVec2d> p = {CVec2d(0, 0), CVec2d(a, 0), CVec2d(a / 2, ctx.rng.uni(0.2, 0.4))};
  double th = ctx.rng.uni(0, 6.28), c = std::cos(th), sn = std::sin(th);
  auto R = [&](CVec2d q) { return CVec2d(c * q.x - sn * q.y, sn * q.x + c * q.y); };
  SF f; std::vector<EG> lp;
  for (unsigned i = 0; i < 3; ++i) {
    SE e{i, 0, R(p[i]), {}, {}, R(p[(i + 1) % 3])}; EG g; g.p0 = e.p0; g.p1 = e.p1;
    if (i == 0) { e.type = 1; e.c0 = R(CVec2d(-w, -b)); e.c1 = R(CVec2d(a + w, -b)); g.SetCubicBezierCurve(e.c0, e.c1); }
    f.loop.push_back(e); lp.push_back(g);
  }
  s.f.push_back(f); s.nv = s.ne = 3; cad.AddFace(lp);
  if (!check(ctx, cad, s, "bulging face")) { return; }
  dfm2::CMesher_Cad2D ms; dfm2::CMeshDynTri2D dm; ms.edge_length = ctx.rng.uni(0.1, 0.5); bool sk;
  mesh_and_check(ctx, cad, s, ms, dm, &sk);
  if (!sk) { ctx.count("bulging_meshes"); }
  ctx.sig(vh::Hash().d(a).d(b).d(w).d(th).h);
}
VH_FAMILY(deformation_weights, 80, 3000) {
  dfm2::CCad2D cad; Shadow s;
  bool convex = ctx.rng.chance(0.5);
  { int nf = ctx.rng.irange(1, 2); for (int i = 0; i < nf; ++i) {
    int n = ctx.rng.irange(4, 7); std::vector<double> xy; SF f; std::vector<CVec2d> p; double ph = ctx.rng.uni(0, 6.28);
    for (int k = 0; k < n; ++k) { double an = ph + (k + ctx.rng.uni(-0.2, 0.2)) * 6.283185307179586 / n, q = convex ? 1 : ctx.rng.uni(0.55, 1.2); p.emplace_back(4 * i + q * std::cos(an), q * std::sin(an)); xy.push_back(p.back().x); xy.push_back(p.back().y); }
    for (int k = 0; k < n; ++k) { f.loop.push_back({s.ne + (unsigned) k, 0, p[(size_t) k], {}, {}, p[(size_t) ((k + 1) % n)]}); }
    cad.AddPolygon(xy); s.ne += (unsigned) n; s.nv += (unsigned) n; s.f.push_back(f);
  }}
  dfm2::CMesher_Cad2D ms; dfm2::CMeshDynTri2D dm; ms.edge_length = ctx.rng.uni(0.15, 0.4); bool sk;
  if (!mesh_and_check(ctx, cad, s, ms, dm, &sk)) { return; }
  std::vector<double> xy; for (auto &v: dm.aVec2) { xy.push_back(v.x); xy.push_back(v.y); }
  size_t np = dm.aVec2.size();
  std::vector<std::vector<double>> W(s.nv);
  std::ostringstream os; std::streambuf *old = std::cout.rdbuf(os.rdbuf());
  for (unsigned v = 0; v < s.nv; ++v) { SetCadMeshDeformationWeightVtx(W[v], v, cad, ms, xy); }
  std::vector<std::vector<double>> We(s.ne);
  for (unsigned e = 0; e < s.ne; ++e) { SetCadMeshDeformationWeightEdge(We[e], e, cad, ms, xy); }
  std::cout.rdbuf(old);
  for (unsigned v = 0; v < s.nv; ++v) { if (!CK(W[v].size() == np, "number of weights", "%zu", W[v].size())) { return; }}
  for (size_t p = 0; p < np; ++p) {
    double sum = 0, x = 0, y = 0;
    for (unsigned v = 0; v < s.nv; ++v) { sum += W[v][p]; x += W[v][p] * cad.aVtx[v].pos.x; y += W[v][p] * cad.aVtx[v].pos.y; if (p < s.nv) { CKN(W[v][p], p == v ? 1. : 0., 1e-12, "weight at a vertex", "vertex %u at %zu", v, p); } if (convex) { CK(W[v][p] > -1e-9 && W[v][p] < 1 + 1e-9, "weight outside the unit interval", "%g", W[v][p]); }}
    CKN(sum, 1., 1e-8, "vertex weights do not sum to one", "point %zu of %zu", p, np);
    CKN(x, dm.aVec2[p].x, 1e-7, "vertex weights do not reproduce the position (x)", "point %zu flag %u", p, ms.aFlgPnt[p]);
    CKN(y, dm.aVec2[p].y, 1e-7, "vertex weights do not reproduce the position (y)", "point %zu flag %u", p, ms.aFlgPnt[p]);
    for (unsigned e = 0; e < s.ne; ++e) { auto ev = cad.topo.VertexIndexs_EdgeEndPoints(e); CKN(We[e][p], W[ev.first][p] + W[ev.second][p], 1e-7, "edge weight is not the sum of its vertices", "edge %u point %zu flag %u", e, p, ms.aFlgPnt[p]); }
    ctx.count("weights");
  }
  ctx.sig(vh::Hash().vd(xy).h);
}
