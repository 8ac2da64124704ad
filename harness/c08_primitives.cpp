// C08: distances, nearest points and intersections of primitives.
// Oracles: variational inequality of the convex projection, independent long-double predicates, quadrature, defining equations.
#include "../lib/vh.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/mat3.h"
#include "delfem2/geo_edge.h"
#include "delfem2/geo_line.h"
#include "delfem2/geo_plane.h"
#include "delfem2/geo_tri.h"
#include "delfem2/geo_tet.h"
#include "delfem2/geo_quad.h"
#include "delfem2/geo_aabb.h"
#include "delfem2/geo_polyline.h"
#include "delfem2/geodelaunay3_v3.h"
#include "delfem2/srch_bruteforce.h"
#include "delfem2/point_on_surface_mesh.h"
#include "delfem2/msh_topology_uniform.h"
namespace d = delfem2;
typedef d::CVec3d V3; typedef d::CVec2d V2; typedef long double LD;
typedef std::vector<double> VD; typedef std::vector<unsigned> VU;
struct L3 { LD x[3]; L3(LD a = 0, LD b = 0, LD c = 0) : x{a, b, c} {} explicit L3(const V3 &v) : x{v.p[0], v.p[1], v.p[2]} {}
  L3 operator-(const L3 &o) const { return L3(x[0] - o.x[0], x[1] - o.x[1], x[2] - o.x[2]); }
  L3 operator+(const L3 &o) const { return L3(x[0] + o.x[0], x[1] + o.x[1], x[2] + o.x[2]); }
  L3 operator*(LD s) const { return L3(x[0] * s, x[1] * s, x[2] * s); } };
static LD dot(const L3 &a, const L3 &b) { return a.x[0] * b.x[0] + a.x[1] * b.x[1] + a.x[2] * b.x[2]; }
static L3 cross(const L3 &a, const L3 &b) { return L3(a.x[1] * b.x[2] - a.x[2] * b.x[1], a.x[2] * b.x[0] - a.x[0] * b.x[2], a.x[0] * b.x[1] - a.x[1] * b.x[0]); }
static LD norm(const L3 &a) { return sqrtl(dot(a, a)); }
static LD vol6(const L3 &a, const L3 &b, const L3 &c, const L3 &e) { return dot(cross(b - a, c - a), e - a); }

static double g_scale;
// points with a variety of layouts; keeps the problem scale in g_scale
static V3 rv(vh::Rng &r, int kind, double sc) {
  switch (kind) {
    case 0: return V3(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)) * sc;
    case 1: return V3(r.irange(-2, 2), r.irange(-2, 2), r.irange(-2, 2)) * (0.5 * sc);
    case 2: return V3(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1e-3, 1e-3)) * sc;
    default: return V3(r.gauss(), r.gauss(), r.gauss()) * sc;
  }
}
static std::string S(const V3 &v) { return vh::fmt("(%.17g,%.17g,%.17g)", v.p[0], v.p[1], v.p[2]); }
// squared distance excess of p as the projection of q on conv(vs): max over vertices of (v-p).(q-p)
static double vi(const V3 &p, const V3 &q, const std::vector<V3> &vs) { double m = 0; for (auto &v : vs) m = std::max(m, (v - p).dot(q - p)); return m; }
// how far a query is placed: near a feature of the simplex or anywhere
static V3 query(vh::Ctx &ctx, const std::vector<V3> &vs, int kind, double sc) {
  auto &r = ctx.rng; int k = r.irange(0, 4);
  if (k == 0) return rv(r, kind, sc);
  if (k == 1) return rv(r, 0, 4 * sc);
  std::vector<double> w(vs.size()); double s = 0; // convex combination, some weights zero
  for (auto &x : w) { x = r.chance(0.4) ? 0 : r.u01(); s += x; } if (s == 0) { w[0] = 1; s = 1; }
  V3 p(0, 0, 0); for (size_t i = 0; i < vs.size(); ++i) p += vs[i] * (w[i] / s);
  if (k == 2) return p;                        // on the primitive
  if (k == 3) return p + rv(r, 0, 1e-3 * sc);  // just beside it
  return p + rv(r, 0, sc);
}
static double tri_area(const V3 &a, const V3 &b, const V3 &c) { return (double)(norm(cross(L3(b) - L3(a), L3(c) - L3(a))) / 2); }

VH_FAMILY(edge, 8000, 100000) {
  auto &r = ctx.rng; int kind = r.irange(0, 3); double sc = r.pick(std::vector<double>{1, 1, 10, 0.1});
  V3 a = rv(r, kind, sc), b = rv(r, kind, sc); double len = (b - a).norm(); if (r.chance(0.02)) b = a;
  V3 q = query(ctx, {a, b}, kind, sc); double S0 = sc * 4 + q.norm(), tol = 1e-9 * S0 * S0;
  double t = -1; V3 n = d::Nearest_Edge_Point(t, q, a, b);
  CK(t >= 0 && t <= 1, "edge parameter range", "t=%g", t);
  CK((n - (a * (1 - t) + b * t)).norm() <= 1e-9 * S0, "edge point matches its parameter", "%s %s t=%g", S(a).c_str(), S(b).c_str(), t);
  CK(vi(n, q, {a, b}) <= tol, "nearest point on edge", "excess %g a=%s b=%s q=%s", vi(n, q, {a, b}), S(a).c_str(), S(b).c_str(), S(q).c_str());
  CK((d::Nearest_Edge_Point(q, a, b) - n).norm() <= 1e-12 * S0, "edge overloads agree", "%g", 0.);
  CK(std::fabs(d::Distance_Edge_Point(q, a, b) - (n - q).norm()) <= 1e-9 * S0, "edge distance", "%g", 0.);
  double t2 = -1; V3 o = d::Nearest_Origin_Edge(t2, a - q, b - q);
  CK((o + q - n).norm() <= 1e-9 * S0 && std::fabs(t2 - t) * len <= 1e-9 * S0, "nearest to origin on edge", "%g %g", t2, t);
  double n3[3]; d::Nearest_Edge3_Point3(n3, q.p, a.p, b.p);
  CK(vi(V3(n3[0], n3[1], n3[2]), q, {a, b}) <= tol, "Nearest_Edge3_Point3", "a=%s b=%s q=%s", S(a).c_str(), S(b).c_str(), S(q).c_str());
  { V2 a2(a.p[0], a.p[1]), b2(b.p[0], b.p[1]), q2(q.p[0], q.p[1]); V2 m = d::Nearest_Edge_Point(q2, a2, b2);
    CK((a2 - m).dot(q2 - m) <= tol && (b2 - m).dot(q2 - m) <= tol && std::fabs(d::Distance_Edge_Point(q2, a2, b2) - (m - q2).norm()) <= 1e-9 * S0, "nearest point on 2D edge", "%g", 0.); }
  { // an edge against a line
    V3 lo = rv(r, kind, sc), ld = rv(r, kind, 1); if (ld.norm() > 1e-2 && len > 1e-3 * sc) {
      V3 ps, pl; d::Nearest_Edge3_Line3(ps, pl, a, b, lo, ld);
      L3 u = L3(b) - L3(a), w(ld), ww = L3(a) - L3(lo); LD uu = dot(u, u), uw = dot(u, w), w2 = dot(w, w), den = uu * w2 - uw * uw; // true parameter: minimise the point-line distance over the edge
      LD s = den > 1e-12L * uu * w2 ? (uw * dot(w, ww) - w2 * dot(u, ww)) / den : 0.5L; s = std::min<LD>(1, std::max<LD>(0, s));
      L3 e = L3(a) + u * s; L3 f = L3(lo) + w * (dot(e - L3(lo), w) / w2); LD best = norm(e - f);
      if (den > 1e-3L * uu * w2) { CK(std::fabs((double)((ps - pl).norm() - best)) <= 1e-7 * S0, "edge-line distance", "%g expected %Lg a=%s b=%s o=%s d=%s", (ps - pl).norm(), best, S(a).c_str(), S(b).c_str(), S(lo).c_str(), S(ld).c_str());
        double tt = -1; V3 c = d::Nearest_Edge_Point(tt, ps, a, b); CK((c - ps).norm() <= 1e-7 * S0, "edge-line point on the edge", "%g", (c - ps).norm());
        CK((d::Nearest_Line3_Point3<V3>(pl, lo, ld) - pl).norm() <= 1e-7 * (S0 + lo.norm()), "edge-line point on the line", "%g", 0.); ctx.count("edge_line"); } } }
  ctx.count(t <= 0 ? "edge_start" : t >= 1 ? "edge_end" : "edge_inner"); ctx.sig(vh::Hash().d(t).u(kind));
}

VH_FAMILY(edgepair3, 8000, 100000) {
  auto &r = ctx.rng; int kind = r.irange(0, 3); double sc = r.pick(std::vector<double>{1, 1, 10});
  V3 p0 = rv(r, kind, sc), p1 = rv(r, kind, sc), q0 = rv(r, kind, sc), q1 = rv(r, kind, sc); bool par = r.chance(0.15);
  V3 u = p1 - p0; if (u.norm() < 0.05 * sc) return;
  if (par) { V3 off = rv(r, 0, sc); double s0 = r.uni(-2, 2), s1 = s0 + r.pick(std::vector<double>{-1.5, -0.5, 0.5, 1.5, 3}); q0 = p0 + u * s0 + off; q1 = p0 + u * s1 + off; }
  V3 v = q1 - q0; if (v.norm() < 0.05 * sc) return; double cr = u.cross(v).norm();
  if (!par && cr < 0.05 * u.norm() * v.norm()) return; if (par && cr >= 1e-10) { // rounding of the parallel copy: make it exactly parallel on the lattice
    p0 = V3(r.irange(-4, 4), r.irange(-4, 4), r.irange(-4, 4)); V3 k(r.irange(-2, 2), r.irange(-2, 2), r.irange(-2, 2)); if (k.norm() == 0) return; int la = r.irange(1, 4); p1 = p0 + k * la;
    V3 of(r.irange(-3, 3), r.irange(-3, 3), r.irange(-3, 3)); int b0 = r.irange(-8, 8), b1 = b0 + r.pick(std::vector<int>{-6, -3, -1, 1, 2, 5}); q0 = p0 + of + k * b0; q1 = p0 + of + k * b1; u = p1 - p0; v = q1 - q0; }
  double rp, rq, dist = d::Distance_Edge3_Edge3(p0, p1, q0, q1, rp, rq); V3 a = p0 + u * rp, b = q0 + v * rq; double S0 = sc * 10 + 20;
  CK(std::fabs((a - b).norm() - dist) <= 1e-7 * S0 * (1 + std::fabs(rp) + std::fabs(rq)), "edge-edge distance matches its parameters", "%g %g", (a - b).norm(), dist);
  CK(std::fabs((a - b).dot(u)) <= 1e-7 * S0 * S0 * (1 + std::fabs(rp)) && std::fabs((a - b).dot(v)) <= 1e-7 * S0 * S0 * (1 + std::fabs(rq)), "common perpendicular", "%g %g p=%s %s q=%s %s", (a - b).dot(u), (a - b).dot(v), S(p0).c_str(), S(p1).c_str(), S(q0).c_str(), S(q1).c_str());
  // contact by proximity: the closest points of the two lines lie on both edges and are within delta
  double delta = dist * r.pick(std::vector<double>{0.5, 0.9, 1.1, 2}) + 1e-3; bool exp; double margin;
  if (!par) { margin = std::min({std::fabs(rp), std::fabs(rp - 1), std::fabs(rq), std::fabs(rq - 1)}); exp = rp >= 0 && rp <= 1 && rq >= 0 && rq <= 1 && dist <= delta; }
  else { double uu = u.dot(u), s0 = (q0 - p0).dot(u) / uu, s1 = (q1 - p0).dot(u) / uu; double lo = std::max(0., std::min(s0, s1)), hi = std::min(1., std::max(s0, s1)); margin = std::fabs(hi - lo); exp = hi > lo && dist <= delta; }
  if (margin > 1e-6 && std::fabs(delta - dist) > 1e-6) {
    bool got = d::IsContact_Edge3_Edge3_Proximity(0, 1, 2, 3, p0, p1, q0, q1, delta);
    CK(got == exp, "edge-edge proximity contact", "got %d expected %d parallel=%d dist=%g delta=%g rp=%g rq=%g p=%s %s q=%s %s", got, exp, par, dist, delta, rp, rq, S(p0).c_str(), S(p1).c_str(), S(q0).c_str(), S(q1).c_str());
    ctx.count(par ? (exp ? "ee_parallel_contact" : "ee_parallel_free") : exp ? "ee_contact" : "ee_free");
    CK(!d::IsContact_Edge3_Edge3_Proximity(0, 1, 1, 3, p0, p1, q0, q1, delta), "edges sharing a point are no contact", "%g", 0.); }
  ctx.sig(vh::Hash().d(dist).u(kind));
}

VH_FAMILY(edge2, 10000, 120000) {
  auto &r = ctx.rng; int kind = r.irange(0, 1); auto g = [&]() { V3 v = rv(r, kind, 1); return V2(v.p[0], v.p[1]); };
  V2 a = g(), b = g(), c = g(), e = g(); if (r.chance(0.2)) { c = a + (b - a) * r.u01() + V2(r.uni(-.05, .05), r.uni(-.05, .05)); }
  auto ar = [](V2 x, V2 y, V2 z) { return ((LD)y.p[0] - x.p[0]) * ((LD)z.p[1] - x.p[1]) - ((LD)y.p[1] - x.p[1]) * ((LD)z.p[0] - x.p[0]); };
  LD s[4] = {ar(a, b, c), ar(a, b, e), ar(c, e, a), ar(c, e, b)}; bool clear = true; for (LD x : s) if (fabsl(x) < 1e-6L) clear = false;
  if (clear) { bool exp = (s[0] > 0) != (s[1] > 0) && (s[2] > 0) != (s[3] > 0);
    CK(d::IsIntersect_Edge2_Edge2(a, b, c, e) == exp, "2D segments intersect", "expected %d (%g,%g)-(%g,%g) (%g,%g)-(%g,%g)", exp, a.p[0], a.p[1], b.p[0], b.p[1], c.p[0], c.p[1], e.p[0], e.p[1]);
    double dd = d::Distance_Edge2_Edge2(a, b, c, e); // -1 when they cross
    if (exp) CK(dd == -1, "2D segment distance of crossing segments", "%g", dd);
    else { double m = 1e9; for (int i = 0; i <= 400; ++i) { double t = i / 400.0; m = std::min(m, d::Distance_Edge_Point(V2(a + (b - a) * t), c, e)); }
      CK(dd <= m + 1e-9 && dd >= m - 0.01, "2D segment distance", "%g sampled %g", dd, m); }
    ctx.count(exp ? "seg2_cross" : "seg2_apart"); }
  // box against edge: exact by clipping
  V2 mn(std::min(c.p[0], e.p[0]), std::min(c.p[1], e.p[1])), mx(std::max(c.p[0], e.p[0]), std::max(c.p[1], e.p[1]));
  auto clip = [&](double pad) { double t0 = 0, t1 = 1; for (int k = 0; k < 2; ++k) { double o = a.p[k], dd = b.p[k] - o, l = mn.p[k] - pad, h = mx.p[k] + pad; if (l > h) return false; if (dd == 0) { if (o < l || o > h) return false; continue; }
      double x = (l - o) / dd, y = (h - o) / dd; if (x > y) std::swap(x, y); t0 = std::max(t0, x); t1 = std::min(t1, y); } return t0 <= t1; };
  bool big = clip(1e-6), small = clip(-1e-6);
  if (big == small && (b - a).norm() > 1e-3) { bool got = d::IsIntersect_AABB2_Edge2(mn, mx, a, b); CK(got == big, "box-segment overlap", "got %d expected %d box (%g,%g)-(%g,%g) seg (%g,%g)-(%g,%g)", got, big, mn.p[0], mn.p[1], mx.p[0], mx.p[1], a.p[0], a.p[1], b.p[0], b.p[1]); ctx.count(big ? "aabb2_hit" : "aabb2_miss"); }
  { // circumscribed circle
    LD A = ar(a, b, c); if (fabsl(A) > 1e-2L) { V2 ce; d::CenterCircumcircle(a, b, c, ce); double r0 = (a - ce).norm(), r1 = (b - ce).norm(), r2 = (c - ce).norm();
      CK(std::fabs(r0 - r1) < 1e-7 * (1 + r0) && std::fabs(r0 - r2) < 1e-7 * (1 + r0), "circumcentre equidistant", "%g %g %g", r0, r1, r2);
      CK(std::fabs(d::SquareCircumradius(a, b, c) - r0 * r0) < 1e-6 * (1 + r0 * r0), "circumradius", "%g %g", d::SquareCircumradius(a, b, c), r0 * r0);
      if (A > 0) { double re = (e - ce).norm(); if (std::fabs(re - r0) > 1e-3 * r0) { int k = d::DetDelaunay(a, b, c, e); CK(k == (re < r0 ? 0 : 2), "in-circle classification", "%d %g %g", k, re, r0); } } ctx.count("circumcircle"); } }
  CK(std::fabs((double)(ar(a, b, c) / 2 - (LD)d::Area_Tri2(a, b, c))) < 1e-12, "2D triangle area", "%g", 0.);
  if ((c - b).norm() > 1e-2) CK(std::fabs(d::TriHeight(a, b, c) * (c - b).norm() / 2 - (double)ar(a, b, c) / 2) < 1e-9, "triangle height", "%g", d::TriHeight(a, b, c));
  ctx.sig(vh::Hash().d(a.p[0]).d(e.p[1]));
}

VH_FAMILY(line_plane, 8000, 100000) {
  auto &r = ctx.rng; int kind = r.irange(0, 3); double sc = r.pick(std::vector<double>{1, 10}); double S0 = 10 * sc;
  V3 q = rv(r, kind, sc), o = rv(r, kind, sc), dir = rv(r, kind, 1), o2 = rv(r, kind, sc), dir2 = rv(r, kind, 1); if (dir.norm() < 0.05 || dir2.norm() < 0.05) return;
  double t = 1e9; V3 n = d::Nearest_Line3_Point3(t, q, o, dir), n2 = d::Nearest_Line3_Point3<V3>(q, o, dir);
  CK((n - (o + dir * t)).norm() <= 1e-9 * S0 && (n - n2).norm() <= 1e-9 * S0 && std::fabs((n - q).dot(dir)) <= 1e-8 * S0, "foot of perpendicular on line", "%g", (n - q).dot(dir));
  CK(std::fabs(d::FindNearestPointParameter_Line_Point(q, o, V3(o + dir)) - t) <= 1e-8 * (1 + std::fabs(t)), "line parameter", "%g %g", t, 0.);
  if (dir.cross(dir2).norm() > 0.05 * dir.norm() * dir2.norm()) {
    double D, ta, tb, sc2; V3 A, B, A2, B2; d::Nearest_Line3_Line3(D, A, B, ta, tb, o, dir, o2, dir2); d::Nearest_Line3_Line3(sc2, A2, B2, o, dir, o2, dir2);
    V3 a = A / D, b = B / D; double e = 1e-6 * S0 * (1 + std::fabs(ta / D) + std::fabs(tb / D));
    CK((a - (o + dir * (ta / D))).norm() <= e && (b - (o2 + dir2 * (tb / D))).norm() <= e, "line-line points on their lines", "%g", 0.);
    CK(std::fabs((a - b).dot(dir)) <= e && std::fabs((a - b).dot(dir2)) <= e, "line-line common perpendicular", "%g %g", (a - b).dot(dir), (a - b).dot(dir2));
    CK((A2 / sc2 - a).norm() <= e && (B2 / sc2 - b).norm() <= e, "line-line overloads agree", "%g", 0.); ctx.count("line_line"); }
  { V3 p = d::Nearest_Plane3_Point3(q, o, dir); CK(std::fabs((p - o).dot(dir.normalized())) <= 1e-9 * S0 && (q - p).cross(dir.normalized()).norm() <= 1e-9 * S0, "nearest point on plane", "%s", S(p).c_str()); }
  if (std::fabs(dir.dot(dir2)) > 0.05 * dir.norm() * dir2.norm()) { V3 p = d::Intersection_Plane3_Line3(o, dir, o2, dir2);
    CK(std::fabs((p - o).dot(dir)) <= 1e-6 * S0 && (p - o2).cross(dir2).norm() <= 1e-6 * S0, "plane-line intersection", "%s", S(p).c_str()); ctx.count("plane_line"); }
  { V3 a = rv(r, kind, sc), b = rv(r, kind, sc), c = rv(r, kind, sc); double ar = tri_area(a, b, c);
    if (ar > 1e-3 * sc * sc) { double r0, r1; V3 p = d::Nearest_Origin3_PlaneTri3(r0, r1, a, b, c); V3 nn = (b - a).cross(c - a).normalized(); double e = 1e-6 * S0 * S0 * S0 / ar;
      CK((p - (a * r0 + b * r1 + c * (1 - r0 - r1))).norm() <= e && p.cross(nn).norm() <= e && std::fabs((p - a).dot(nn)) <= e, "nearest point of a triangle plane to the origin", "%g %g", p.cross(nn).norm(), (p - a).dot(nn));
      L3 la(a), lb(b), lc(c), lo(o), le = L3(o) + L3(dir); LD v0 = vol6(lo, le, lb, lc), v1 = vol6(lo, le, lc, la), v2 = vol6(lo, le, la, lb), vt = v0 + v1 + v2;
      if (fabsl(vt) > 1e-2L * ar * dir.norm()) { V3 x; double s0, s1, s2; bool hit = d::Intersection_Plane3_Line3(x, s0, s1, s2, 0., o, dir, a, b, c); LD m = std::min({v0 / vt, v1 / vt, v2 / vt});
        if (fabsl(m) > 1e-7L) CK(hit == (m > 0), "line-triangle intersection flag", "%d %Lg", hit, m);
        CK((x - (a * s0 + b * s1 + c * s2)).norm() <= 1e-6 * S0 && (x - o).cross(dir.normalized()).norm() <= 1e-5 * S0 * (1 + x.norm() / sc) && std::fabs((x - a).dot(nn)) <= 1e-5 * S0 * (1 + x.norm() / sc), "line-triangle intersection point", "%s", S(x).c_str());
        double u0, u1; bool h2 = d::IntersectRay_Tri3(u0, u1, o, dir, a, b, c, 0.); if (fabsl(m) > 1e-7L) CK(h2 == (m > 0) && std::fabs(u0 - (double)(v0 / vt)) < 1e-6 * (1 + std::fabs(u0)) && std::fabs(u1 - (double)(v1 / vt)) < 1e-6 * (1 + std::fabs(u1)), "IntersectRay_Tri3", "%d %g %g expected %Lg %Lg", h2, u0, u1, v0 / vt, v1 / vt);
        V3 ip; bool h3 = d::isRayIntersectingTriangle(o, V3(o + dir), a, b, c, ip); double tt = (x - o).dot(dir); if (fabsl(m) > 1e-5L && std::fabs(tt) > 1e-5) { CK(h3 == (m > 0 && tt > 0), "isRayIntersectingTriangle", "%d m=%Lg t=%g", h3, m, tt); if (h3) CK((ip - x).norm() <= 1e-5 * S0 * (1 + x.norm() / sc), "ray-triangle point", "%g", (ip - x).norm()); }
        ctx.count(m > 0 ? "line_tri_hit" : "line_tri_miss"); } } }
  { V3 nrm = dir2.normalized(); double rad = r.uni(0.1, 2) * sc; V3 p0, q0; d::Nearest_Line_Circle(p0, q0, o, dir, o2, nrm, rad);
    if ((p0 - o2 - nrm * (p0 - o2).dot(nrm)).norm() > 1e-3 * sc) { V3 h = p0 - o2 - nrm * (p0 - o2).dot(nrm); V3 e = o2 + h * (rad / h.norm()); double mag = 1e-7 * (S0 + p0.norm());
      CK((e - q0).norm() <= mag * 100, "point on circle nearest to the line point", "%g", (e - q0).norm()); CK((p0 - o).cross(dir.normalized()).norm() <= mag * 10, "line-circle: point on the line", "%g", (p0 - o).cross(dir.normalized()).norm()); } }
  ctx.sig(vh::Hash().d(t).u(kind));
}

VH_FAMILY(triangle, 12000, 150000) {
  auto &r = ctx.rng; int kind = r.irange(0, 3); double sc = r.pick(std::vector<double>{1, 1, 10});
  V3 a = rv(r, kind, sc), b = rv(r, kind, sc), c = rv(r, kind, sc); if (r.chance(0.1)) c = a + (b - a) * r.uni(-0.5, 1.5) + rv(r, 0, 0.02 * sc);
  double ar = tri_area(a, b, c); if (ar < 1e-3 * sc * sc) return; V3 q = query(ctx, {a, b, c}, kind, sc); double S0 = sc * 4 + q.norm();
  { double r0, r1; V3 n = d::Nearest_Origin3_Tri3(r0, r1, V3(a - q), V3(b - q), V3(c - q)) + q; double e = vi(n, q, {a, b, c});
    CK(e <= 1e-7 * S0 * S0, "nearest point on triangle", "excess %g a=%s b=%s c=%s q=%s", e, S(a).c_str(), S(b).c_str(), S(c).c_str(), S(q).c_str());
    CK((n - (a * r0 + b * r1 + c * (1 - r0 - r1))).norm() <= 1e-7 * S0 && r0 >= -1e-9 && r1 >= -1e-9 && r0 + r1 <= 1 + 1e-9, "triangle nearest point matches its coordinates", "r=%g %g off %g", r0, r1, (n - (a * r0 + b * r1 + c * (1 - r0 - r1))).norm());
    int z = (r0 > 1e-9) + (r1 > 1e-9) + (1 - r0 - r1 > 1e-9); ctx.count(z == 1 ? "tri_vertex" : z == 2 ? "tri_edge" : "tri_face"); ctx.sig(vh::Hash().d(r0).d(r1)); }
  { double p[3], r0, r1; d::Nearest_Triangle3_Point3(p, r0, r1, q.p, a.p, b.p, c.p); V3 n(p[0], p[1], p[2]); double r2 = 1 - r0 - r1; // the face region is widened by 1e-4 in barycentric coordinates
    double tru = (double)0; { double s0, s1; tru = d::Nearest_Origin3_Tri3(s0, s1, V3(a - q), V3(b - q), V3(c - q)).norm(); }
    CK(r0 >= -1.1e-4 && r1 >= -1.1e-4 && r2 >= -1.1e-4 && (n - (a * r0 + b * r1 + c * r2)).norm() <= 1e-6 * S0, "Nearest_Triangle3_Point3 coordinates", "r=%g %g %g off %g q=%s", r0, r1, r2, (n - (a * r0 + b * r1 + c * r2)).norm(), S(q).c_str());
    CK(std::fabs((n - q).norm() - tru) <= 1e-3 * sc + 1e-7 * S0, "Nearest_Triangle3_Point3 distance", "%g expected %g a=%s b=%s c=%s q=%s", (n - q).norm(), tru, S(a).c_str(), S(b).c_str(), S(c).c_str(), S(q).c_str()); }
  { double w0, w1, ds = d::DistanceFaceVertex(a, b, c, q, w0, w1); V3 m = a * w0 + b * w1 + c * (1 - w0 - w1); double e = 1e-5 * S0 * S0 * S0 / ar; V3 nn = (b - a).cross(c - a).normalized();
    CK(std::fabs((m - q).norm() - ds) <= e && std::fabs(ds - std::fabs((q - a).dot(nn))) <= e, "face-vertex distance", "%g %g", ds, (q - a).dot(nn));
    V3 pj = d::ProjectPointOnTriangle(q, a, b, c); CK((pj - (q - nn * (q - a).dot(nn))).norm() <= 1e-7 * S0, "projection on the triangle plane", "%s q=%s a=%s", S(pj).c_str(), S(q).c_str(), S(a).c_str());
    V3 pv = d::ProjectPointOnTriangle(a, a, b, c); CK((pv - a).norm() <= 1e-7 * S0, "projection of a corner", "%s", S(pv).c_str());
    double w2 = 1 - w0 - w1, mm = std::min({w0, w1, w2}); if (std::fabs(mm) > 1e-4) CK(d::isPointInsideTriangle(V3(q - nn * (q - a).dot(nn)), a, b, c) == (mm > 0), "point in triangle", "%g", mm); }
  CKN(d::Area_Tri3(a, b, c), ar, 1e-12 * S0 * S0, "triangle area", "%g", ar); CKN(d::SquareTriArea(a, b, c), ar * ar, 1e-12 * S0 * S0 * S0 * S0, "squared triangle area", "%g", ar);
  { V3 n1; d::Normal_Tri3(n1, a, b, c); V3 n2 = d::UnitNormal_Tri3(a, b, c), n3; double aa; d::UnitNormalAreaTri3(n3, aa, a, b, c); V3 ref = (b - a).cross(c - a);
    CK((n1 - ref).norm() <= 1e-12 * S0 * S0 && (n2 - ref.normalized()).norm() <= 1e-12 && (n3 - ref.normalized()).norm() <= 1e-12 && std::fabs(aa - ar) <= 1e-10 * S0 * S0, "triangle normals", "%g", aa); }
  { // solid angle seen from q: spherical excess
    V3 u = (a - q), v = (b - q), w = (c - q); double vol = u.dot(v.cross(w)); if (u.norm() > 0.05 * sc && v.norm() > 0.05 * sc && w.norm() > 0.05 * sc && std::fabs(vol) > 2e-3 * u.norm() * v.norm() * w.norm()) {
      auto dih = [](const L3 &x, const L3 &y, const L3 &z) { L3 p = cross(x, y), s = cross(x, z); return acosl(std::min<LD>(1, std::max<LD>(-1, dot(p, s) / (norm(p) * norm(s))))); };
      L3 U(u), V(v), W(w); LD om = dih(U, V, W) + dih(V, W, U) + dih(W, U, V) - M_PIl; double exp = vol > 0 ? (double)om : (double)(4 * M_PIl - om); double got = d::SolidAngleTri(u, v, w);
      CK(std::fabs(got - exp) <= 1e-6, "solid angle", "%g expected %g u=%s v=%s w=%s", got, exp, S(u).c_str(), S(v).c_str(), S(w).c_str()); ctx.count(om > M_PIl ? "solid_angle_wide" : "solid_angle"); } }
  { // inertia by exact quadrature (degree 2: edge midpoints / tetra rule)
    auto M = [](const std::vector<V3> &ps, const std::vector<double> &w) { std::array<double, 9> m{}; for (size_t i = 0; i < ps.size(); ++i) { double n2 = ps[i].dot(ps[i]); for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) m[x * 3 + y] += w[i] * ((x == y ? n2 : 0) - ps[i].p[x] * ps[i].p[y]); } return m; };
    auto near = [&](const std::array<double, 9> &x, const std::array<double, 9> &y, double tol) { for (int i = 0; i < 9; ++i) if (!(std::fabs(x[i] - y[i]) <= tol)) return false; return true; };
    double l = (b - a).norm(); CK(near(d::Mat3_IrotLineSeg<V3>(a, b), M({a, (a + b) * 0.5, b}, {l / 6, l * 4 / 6, l / 6}), 1e-9 * S0 * S0 * S0), "inertia of a segment", "a=%s b=%s", S(a).c_str(), S(b).c_str());
    CK(near(d::Mat3_IrotTri<V3>(a, b, c), M({(a + b) * 0.5, (b + c) * 0.5, (c + a) * 0.5}, {ar / 3, ar / 3, ar / 3}), 1e-9 * S0 * S0 * S0 * S0), "inertia of a triangle", "%g", ar);
    double v6 = a.dot(b.cross(c)), A = 0.58541019662496852, B = 0.1381966011250105; CK(near(d::Mat3_IrotTriSolid<V3>(a, b, c), M({a * A + b * B + c * B, a * B + b * A + c * B, a * B + b * B + c * A, (a + b + c) * B}, VD(4, v6 / 24)), 1e-8 * std::pow(S0, 5)), "inertia of a tetrahedron with the origin", "%g", v6); }
}

VH_FAMILY(tripair, 6000, 80000) {
  auto &r = ctx.rng; int kind = r.irange(0, 1) * 3; V3 t[6]; for (auto &x : t) x = rv(r, kind, 1);
  if (r.chance(0.3)) { V3 c = (t[0] + t[1] + t[2]) / 3.0; V3 e = (t[3] + t[4] + t[5]) / 3.0; for (int i = 3; i < 6; ++i) t[i] = t[i] - e + c + rv(r, 0, 0.1); }
  L3 l[6]; for (int i = 0; i < 6; ++i) l[i] = L3(t[i]); if (tri_area(t[0], t[1], t[2]) < 1e-2 || tri_area(t[3], t[4], t[5]) < 1e-2) return;
  bool tie = false; auto sgn = [&](LD v) { if (fabsl(v) < 1e-7L) tie = true; return v > 0; };
  auto edge_tri = [&](int p, int q, int a) { if (sgn(vol6(l[a], l[a + 1], l[a + 2], l[p])) == sgn(vol6(l[a], l[a + 1], l[a + 2], l[q]))) return false; bool s0 = sgn(vol6(l[p], l[q], l[a], l[a + 1])), s1 = sgn(vol6(l[p], l[q], l[a + 1], l[a + 2])), s2 = sgn(vol6(l[p], l[q], l[a + 2], l[a])); return s0 == s1 && s1 == s2; };
  bool exp = false; for (int i = 0; i < 3; ++i) { exp |= edge_tri(i, (i + 1) % 3, 3); exp |= edge_tri(3 + i, 3 + (i + 1) % 3, 0); } if (tie) return;
  VD xyz; for (auto &x : t) for (int k = 0; k < 3; ++k) xyz.push_back(x.p[k]); VU tri = {0, 1, 2, 3, 4, 5}; V3 P0, P1; bool got = d::isIntersectTriPair<double>(P0, P1, 0, 1, tri, xyz);
  CK(got == exp, "triangle pair intersection", "got %d expected %d %s", got, exp, vh::str(xyz).c_str());
  if (got && exp) for (const V3 *p : {&P0, &P1}) for (int k = 0; k < 2; ++k) { double s0, s1; double e = d::Nearest_Origin3_Tri3(s0, s1, V3(t[k * 3] - *p), V3(t[k * 3 + 1] - *p), V3(t[k * 3 + 2] - *p)).norm(); CK(e <= 1e-6, "intersection segment lies on both triangles", "%g", e); }
  ctx.count(exp ? "tripair_hit" : "tripair_miss"); VU sh = {0, 1, 2, 3, 4, 5}; { int a = r.irange(0, 2), b = r.irange(3, 5); sh[b] = a; ctx.count(vh::fmt("tripair_shared_%d%d", a, b)); } CK(!d::isIntersectTriPair<double>(P0, P1, 0, 1, sh, xyz), "triangles sharing a vertex are skipped", "%g", 0.); ctx.sig(vh::Hash().vd(xyz));
}

VH_FAMILY(tet, 5000, 60000) {
  auto &r = ctx.rng; int kind = r.pick(std::vector<int>{0, 1, 3}); V3 p[4], q[4]; for (auto &x : p) x = rv(r, kind, 1); for (auto &x : q) x = rv(r, 0, 1); LD v6 = vol6(L3(p[0]), L3(p[1]), L3(p[2]), L3(p[3])); if (fabsl(v6) < 1e-2L) return; double tol = 1e-9 / std::fabs((double)v6);
  CKN(d::Volume_Tet(p[0], p[1], p[2], p[3]), (double)(v6 / 6), 1e-12, "tet volume", "%g", 0.); CKN(d::Volume_OrgTet(p[1], p[2], p[3]), (double)(vol6(L3(), L3(p[1]), L3(p[2]), L3(p[3])) / 6), 1e-12, "tet volume from the origin", "%g", 0.);
  { std::vector<V3> pv(p, p + 4); CKN(d::Volume_Tet(0, 1, 2, 3, pv), (double)(v6 / 6), 1e-12, "tet volume by index", "%g", 0.); }
  CKN(d::Height_Tet(p[0], p[1], p[2], p[3]) * tri_area(p[0], p[1], p[2]) / 3, (double)(v6 / 6), 1e-10, "height of a tet", "%g", 0.);
  { double r0, r1, r2; d::barycentricCoord_Origin_Tet(r0, r1, r2, p[0], p[1], p[2], p[3]); CK((p[0] * r0 + p[1] * r1 + p[2] * r2 + p[3] * (1 - r0 - r1 - r2)).norm() <= tol * 100, "barycentric coordinates of the origin", "%g %g %g", r0, r1, r2); }
  { auto F = d::DeformationGradientOfTet(p[0], p[1], p[2], p[3], q[0], q[1], q[2], q[3]); double dF[4][3]; d::DiffDeformationGradientOfTet(dF, p[0], p[1], p[2], p[3]); double e = 0, e2 = 0;
    for (int k = 1; k < 4; ++k) for (int i = 0; i < 3; ++i) { double s = 0; for (int j = 0; j < 3; ++j) s += F[i * 3 + j] * (p[k].p[j] - p[0].p[j]); e = std::max(e, std::fabs(s - (q[k].p[i] - q[0].p[i]))); }
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double s = 0; for (int k = 0; k < 4; ++k) s += q[k].p[i] * dF[k][j]; e2 = std::max(e2, std::fabs(s - F[i * 3 + j])); }
    CK(e <= tol * 10, "deformation gradient maps edges", "%g", e); CK(e2 <= tol * 10, "derivative of the deformation gradient", "%g", e2); }
  { double mx = 0, mn = 1e9; for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) { double s = (p[i] - p[j]).dot(p[i] - p[j]); mx = std::max(mx, s); mn = std::min(mn, s); } CKN(d::LongestSquaredEdgeLengthOfTet(p[0], p[1], p[2], p[3]), mx, 1e-12, "longest edge", "%g", mx); CKN(d::ShortestSquaredEdgeLengthOfTet(p[0], p[1], p[2], p[3]), mn, 1e-12, "shortest edge", "%g", mn); }
  { V3 o[4] = {p[0], p[1], p[2], p[3]}; if ((o[1] - o[0]).cross(o[2] - o[0]).dot(o[3] - o[0]) < 0) std::swap(o[2], o[3]); V3 c = d::CircumCenter(o[0], o[1], o[2], o[3]); double R = d::Circumradius(o[0], o[1], o[2], o[3]), m = 0; for (auto &x : p) m = std::max(m, std::fabs((x - c).norm() - R)); CK(m <= 1e-6 * (1 + R * R), "circumsphere through the four points", "%g R=%g", m, R); CKN(d::SquareCircumradius(o[0], o[1], o[2], o[3]), R * R, 1e-6 * (1 + R * R), "squared circumradius", "%g", R); }
  ctx.count("tet"); ctx.sig(vh::Hash().d((double)v6));
}

// bilinear patches: rectangle with mild shear and twist
VH_FAMILY(quad, 4000, 50000) {
  auto &r = ctx.rng; double ex = r.uni(0.5, 2), ey = r.uni(0.5, 2), tw = r.chance(0.4) ? 0 : 0.15; V3 q[4] = {V3(0, 0, 0), V3(ex, 0, 0), V3(ex, ey, 0), V3(0, ey, 0)}; for (auto &x : q) x += rv(r, 0, tw * 0.7);
  double th = r.uni(0, 6.28), c = cos(th), s = sin(th); V3 off = rv(r, 0, 1); for (auto &x : q) x = V3(c * x.p[0] - s * x.p[2], x.p[1], s * x.p[0] + c * x.p[2]) + off;
  auto P = [&](double a, double b) { return q[0] * ((1 - a) * (1 - b)) + q[1] * (a * (1 - b)) + q[2] * (a * b) + q[3] * ((1 - a) * b); };
  V3 nn = (q[1] - q[0]).cross(q[3] - q[0]).normalized(); double qa = r.uni(-0.6, 1.6), qb = r.uni(-0.6, 1.6); if (r.chance(0.4)) { qa = r.uni(0.05, 0.95); qb = r.uni(0.05, 0.95); } V3 src = P(qa, qb) + nn * r.uni(-0.5, 0.5);
  { double s0 = -9, s1 = -9; V3 n = d::Nearst_Origin3_Quad3(s0, s1, V3(q[0] - src), V3(q[1] - src), V3(q[2] - src), V3(q[3] - src)) + src;
    double best = 1e9; int N = 60; for (int i = 0; i <= N; ++i) for (int j = 0; j <= N; ++j) best = std::min(best, (P((double)i / N, (double)j / N) - src).norm());
    CK(s0 >= -1.1e-4 && s0 <= 1 + 1.1e-4 && s1 >= -1.1e-4 && s1 <= 1 + 1.1e-4 && (P(s0, s1) - n).norm() <= 1e-6, "nearest point on quad matches its parameters", "s=%g %g off %g", s0, s1, (P(s0, s1) - n).norm());
    CK((n - src).norm() <= best + 1e-4, "nearest point on quad", "%g, sampled %g", (n - src).norm(), best); ctx.count(s0 > 1e-3 && s0 < 1 - 1e-3 && s1 > 1e-3 && s1 < 1 - 1e-3 ? "quad_face" : "quad_edge"); }
  { V3 dir = nn * (r.chance(0.5) ? 1. : -1.) + rv(r, 0, 0.3); V3 o = P(qa, qb) - dir * r.uni(0.3, 2); V3 x; double s0, s1; bool got = d::intersection_Point_Quad(x, s0, s1, o, dir, q[0], q[1], q[2], q[3]);
    double m = std::min({qa, qb, 1 - qa, 1 - qb}); if (std::fabs(m) > (tw > 0 ? 0.1 : 1e-3)) { CK(got == (m > 0), "line-quad intersection flag", "got %d for parameters %g %g twist %g", got, qa, qb, tw); if (got && m > 0) CK((x - P(s0, s1)).norm() <= 1e-6 && (x - o).cross(dir.normalized()).norm() <= 1e-4, "line-quad intersection point", "%g", (x - o).cross(dir.normalized()).norm()); ctx.count(m > 0 ? "quad_hit" : "quad_miss"); } }
  ctx.sig(vh::Hash().d(qa).d(qb));
}

VH_FAMILY(polyline, 4000, 50000) {
  auto &r = ctx.rng; int n = r.irange(2, 12); std::vector<V2> P(n); int kind = r.irange(0, 2); V2 c(0, 0);
  for (auto &p : P) { if (kind == 0) p = V2(r.uni(-1, 1), r.uni(-1, 1)); else if (kind == 1) p = V2(r.irange(-3, 3), r.irange(-3, 3)); else { c = c + V2(r.uni(0, 0.4), r.uni(-0.3, 0.3)); p = c; } }
  if (kind != 1) for (int i = 0; i + 1 < n; ++i) if (r.chance(0.03)) P[i + 1] = P[i];
  double len = 0, area = 0; for (int i = 0; i + 1 < n; ++i) { len += (P[i + 1] - P[i]).norm(); area += (P[i].p[0] * P[i + 1].p[1] - P[i].p[1] * P[i + 1].p[0]) / 2; }
  CKN(d::Length_Polyline(P), len, 1e-9, "polyline length", "%g", len); CKN(d::Area_Polyline2(P), area, 1e-9, "area swept by a polyline", "%g", area);
  { auto bb = d::AABB_Polyline(P); double m[4] = {1e9, 1e9, -1e9, -1e9}; for (auto &p : P) for (int k = 0; k < 2; ++k) { m[k] = std::min(m[k], p.p[k]); m[k + 2] = std::max(m[k + 2], p.p[k]); } CK(bb[0] == m[0] && bb[1] == m[1] && bb[2] == m[2] && bb[3] == m[3], "polyline bounding box", "%g %g %g %g", bb[0], bb[1], bb[2], bb[3]); }
  V2 q(r.uni(-4, 4), r.uni(-4, 4)); if (r.chance(0.3)) q = P[r.irange(0, n - 1)]; double best = 1e9; int ib = -1; for (int i = 0; i < n; ++i) if ((P[i] - q).norm() < best) { best = (P[i] - q).norm(); ib = i; }
  { unsigned k = d::FindNearestPointInPoints(P, q); CK(k < (unsigned)n && (P[k] - q).norm() <= best * (1 + 1e-6) + 1e-9, "nearest vertex", "%u expected %d", k, ib); }
  double bd = 1e9; for (int i = 0; i + 1 < n; ++i) bd = std::min(bd, d::Distance_Edge_Point(q, P[i], P[i + 1]));
  double t = d::Nearest_Polyline(P, q); CK(t >= 0 && t <= n - 1, "polyline parameter range", "%g of %d points %s", t, n, "");
  if (t >= 0 && t <= n - 1) { V2 x = d::Sample_Polyline(P, t); CK((x - q).norm() <= bd + 1e-7, "nearest point on polyline", "%g expected %g", (x - q).norm(), bd);
    V2 tg = d::Tangent_Polyline(P, t); int ie = std::min((int)t, n - 2); CK((tg - (P[ie + 1] - P[ie])).norm() <= 1e-12, "polyline tangent", "t=%g", t); (void)ie;
    double al = d::ArcLengthPointInPolyline(P, q); double acc = 0; bool found = false; for (int i = 0; i + 1 < n && !found; ++i) { double l = (P[i + 1] - P[i]).norm(); if (al <= acc + l + 1e-9) { V2 y = l > 0 ? V2(P[i] + (P[i + 1] - P[i]) * ((al - acc) / l)) : P[i]; CK((y - q).norm() <= bd + 1e-6 * (1 + bd), "arc length of the nearest point", "%g expected %g", (y - q).norm(), bd); found = true; } acc += l; } CK(found, "arc length within the polyline", "%g of %g", al, len); }
  { double tt = r.uni(-1, n + 1); V2 x = d::Sample_Polyline(P, tt); double cl = std::min(std::max(tt, 0.), n - 1.); int ie = std::min((int)cl, n - 2); CK((x - (P[ie] * (1 - (cl - ie)) + P[ie + 1] * (cl - ie))).norm() <= 1e-9, "polyline sample", "t=%g", tt);
    V2 tg = d::Tangent_Polyline(P, tt); CK((tg - (P[ie + 1] - P[ie])).norm() <= 1e-12, "polyline tangent", "t=%g n=%d", tt, n); }
  if (len > 1e-3) { double l = len * r.uni(0.02, 0.7); auto Q = d::Polyline_Resample_Polyline(P, l); // points every l along the line
    CK((int)Q.size() - 1 <= len / l + 1e-6 && (int)Q.size() >= len / l - 1e-6, "number of resampled points", "%zu len/l=%g", Q.size(), len / l); size_t k = 0; double acc = 0; int i = 0; bool ok = (Q[0] - P[0]).norm() == 0; for (k = 1; k < Q.size() && ok; ++k) { while (i + 1 < n - 1 && acc + (P[i + 1] - P[i]).norm() < k * l) { acc += (P[i + 1] - P[i]).norm(); ++i; } double s = (P[i + 1] - P[i]).norm(); V2 e = P[i] + (P[i + 1] - P[i]) * (s > 0 ? (k * l - acc) / s : 0); if ((e - Q[k]).norm() > 1e-7) ok = false; }
    CK(ok, "resampled points are equally spaced along the polyline", "point %zu", k); }
  { std::vector<V2> C = P; C.push_back(P[0]); LD th = 0; bool near = false; for (size_t i = 0; i + 1 < C.size(); ++i) { V2 a = C[i] - q, b = C[i + 1] - q; if (d::Distance_Edge_Point(q, C[i], C[i + 1]) < 1e-6) near = true; th += atan2l((LD)a.p[0] * b.p[1] - (LD)a.p[1] * b.p[0], (LD)a.p[0] * b.p[0] + (LD)a.p[1] * b.p[1]); }
    if (!near) { double w = d::WindingNumber_Polyline2(C, q); CK(std::fabs(w - (double)th) <= 1e-7 && std::fabs(w / (2 * M_PI) - std::round(w / (2 * M_PI))) < 1e-7, "winding of a closed polyline", "%g", w); ctx.count("winding"); } }
  { auto T = P; double dx = r.uni(-1, 1), dy = r.uni(-1, 1), an = r.uni(-3, 3); d::Translate(T, dx, dy); d::Rotate(T, an); double m = 0; for (int i = 0; i < n; ++i) { double x = P[i].p[0] + dx, y = P[i].p[1] + dy; m = std::max(m, (T[i] - V2(cos(an) * x - sin(an) * y, sin(an) * x + cos(an) * y)).norm()); } CK(m <= 1e-12, "rigid motion of a polyline", "%g", m); }
  { auto T = P; unsigned iv = r.irange(0, n - 1); double dm = r.u01(); d::Smooth_Polyline(T, iv, dm); CK((T[0] - P[0]).norm() == 0 && (T[n - 1] - P[n - 1]).norm() == 0, "smoothing keeps the end points", "%u", iv); }
  ctx.count("polyline"); ctx.sig(vh::Hash().d(t).u(n));
}

VH_FAMILY(aabb, 6000, 60000) {
  auto &r = ctx.rng; int kind = r.irange(0, 1); double pad = r.pick(std::vector<double>{0, 0.1, 0.5}); V3 p[6]; V3 o = rv(r, 0, 1.3); for (auto &x : p) x = rv(r, kind, 1) + o; int n = r.irange(3, 6); bool exp = true, tie = false;
  for (int k = 0; k < 3; ++k) { double mn = 1e9, mx = -1e9; for (int i = 0; i < n; ++i) { mn = std::min(mn, p[i].p[k]); mx = std::max(mx, p[i].p[k]); } if (mn > pad || mx < -pad) exp = false; if (std::fabs(mn - pad) < 1e-12 || std::fabs(mx + pad) < 1e-12) tie = true; } if (tie) return;
  bool got = n == 3 ? d::IsContact_Orgin_AabbOfPoint3(p[0], p[1], p[2], pad) : n == 4 ? d::IsContact_Orgin_AabbOfPoint4(p[0], p[1], p[2], p[3], pad) : n == 5 ? d::IsContact_Orgin_AabbOfPoint5(p[0], p[1], p[2], p[3], p[4], pad) : d::IsContact_Orgin_AabbOfPoint6(p[0], p[1], p[2], p[3], p[4], p[5], pad);
  CK(got == exp, "origin in padded box of points", "n=%d got %d", n, got); ctx.count(exp ? "aabb_in" : "aabb_out"); ctx.sig(vh::Hash().d(p[0].p[0]));
}

// whole-mesh scans: triangle soup, tet grid and height field
VH_FAMILY(mesh_scan, 500, 6000) {
  auto &r = ctx.rng; int nt = r.irange(1, 25); VD xyz; VU tri; for (int i = 0; i < nt; ++i) { V3 c = rv(r, 0, 1), q3[3]; do for (auto &q : q3) q = c + rv(r, 0, 0.5); while (tri_area(q3[0], q3[1], q3[2]) < 2e-2); for (int k = 0; k < 3; ++k) { for (int m = 0; m < 3; ++m) xyz.push_back(q3[k].p[m]); tri.push_back(i * 3 + k); } }
  auto X = [&](unsigned i) { return V3(xyz[i * 3], xyz[i * 3 + 1], xyz[i * 3 + 2]); }; for (int i = 0; i < nt; ++i) if (tri_area(X(i * 3), X(i * 3 + 1), X(i * 3 + 2)) < 1e-2) return;
  V3 q = rv(r, 0, 1.5); double best = 1e9; for (int i = 0; i < nt; ++i) { double a, b; best = std::min(best, d::Nearest_Origin3_Tri3(a, b, V3(X(i * 3) - q), V3(X(i * 3 + 1) - q), V3(X(i * 3 + 2) - q)).norm()); }
  { auto pe = d::Nearest_Point_MeshTri3D<double>(q, xyz, tri); auto p = pe.PositionOnMeshTri3(xyz, tri); CK(pe.Check(xyz, tri, 1e-6) && std::fabs((V3(p[0], p[1], p[2]) - q).norm() - best) < 1e-6, "nearest point on a triangle mesh", "%g expected %g", (V3(p[0], p[1], p[2]) - q).norm(), best);
    VU part; double bp = 1e9; for (int i = 0; i < nt; ++i) if (r.chance(0.5)) { part.push_back(i); double a, b; bp = std::min(bp, d::Nearest_Origin3_Tri3(a, b, V3(X(i * 3) - q), V3(X(i * 3 + 1) - q), V3(X(i * 3 + 2) - q)).norm()); }
    if (!part.empty()) { std::vector<int> VIp(part.begin(), part.end()); auto pp = d::Nearest_Point_MeshTri3DPart<double>(q, xyz, tri, VIp); auto x = pp.PositionOnMeshTri3(xyz, tri); CK(std::find(part.begin(), part.end(), pp.itri) != part.end() && std::fabs((V3(x[0], x[1], x[2]) - q).norm() - bp) < 1e-6, "nearest point on part of a mesh", "%g expected %g", (V3(x[0], x[1], x[2]) - q).norm(), bp); } }
  { V3 dir = r.chance(0.3) ? rv(r, 3, 1) : V3(V3(X(0) + X(1) + X(2)) * (1. / 3) - q + rv(r, 0, 0.1)); if (dir.norm() > 0.1) { dir.normalize(); std::set<unsigned> exp, sure; std::map<double, unsigned> depth; for (int i = 0; i < nt; ++i) { L3 a(X(i * 3)), b(X(i * 3 + 1)), c(X(i * 3 + 2)), o(q), e = o + L3(dir); LD v0 = vol6(b, c, o, e), v1 = vol6(c, a, o, e), v2 = vol6(a, b, o, e), vt = v0 + v1 + v2, m = std::min({v0 / vt, v1 / vt, v2 / vt}); if (m > -1e-6L) exp.insert(i); if (m > 1e-6L) sure.insert(i); }
      auto ps = d::IntersectionLine_MeshTri3<double>(q, dir, tri, xyz, 0.); std::set<unsigned> got; for (auto &p : ps) { got.insert(p.itri); auto x = p.PositionOnMeshTri3(xyz, tri); CK((V3(x[0], x[1], x[2]) - q).cross(dir.normalized()).norm() < 1e-6, "hit lies on the line", "%g", 0.); }
      CK(std::includes(exp.begin(), exp.end(), got.begin(), got.end()) && std::includes(got.begin(), got.end(), sure.begin(), sure.end()), "line hits all and only the triangles it crosses", "%zu expected %zu", got.size(), sure.size());
      std::map<double, d::PointOnSurfaceMesh<double>> mp; d::IntersectionRay_MeshTri3(mp, q, dir, tri, xyz, 0.); std::set<unsigned> fw; for (auto &kv : mp) { auto x = kv.second.PositionOnMeshTri3(xyz, tri); CK((q + dir * kv.first - V3(x[0], x[1], x[2])).norm() < 1e-6 * (1 + dir.norm() * std::fabs(kv.first)), "ray depth matches the hit", "%g", kv.first); CK(kv.first >= 0, "ray depth is not negative", "%g", kv.first); fw.insert(kv.second.itri); }
      std::set<unsigned> efw; for (unsigned i : sure) { V3 n = (X(i * 3 + 1) - X(i * 3)).cross(X(i * 3 + 2) - X(i * 3)); if ((X(i * 3) - q).dot(n) / dir.dot(n) > 1e-9) efw.insert(i); } CK(std::includes(fw.begin(), fw.end(), efw.begin(), efw.end()), "ray reports all triangles ahead", "%zu expected %zu", fw.size(), efw.size()); ctx.count("ray_hits", fw.size()); } }
  { // tetrahedra: a grid of 6-tet cubes
    int n = r.irange(1, 3); VD tx; std::vector<int> tet; auto id = [&](int i, int j, int k) { return (i * (n + 1) + j) * (n + 1) + k; }; for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) for (int k = 0; k <= n; ++k) { tx.push_back(i + r.uni(-.1, .1)); tx.push_back(j + r.uni(-.1, .1)); tx.push_back(k + r.uni(-.1, .1)); }
    int pm[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}}; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) for (int s = 0; s < 6; ++s) { int c[3] = {i, j, k}, v[4]; v[0] = id(c[0], c[1], c[2]); for (int m = 0; m < 3; ++m) { c[pm[s][m]]++; v[m + 1] = id(c[0], c[1], c[2]); } if (s >= 3) std::swap(v[2], v[3]); for (int m : v) tet.push_back(m); }
    auto T = [&](int i) { return V3(tx[i * 3], tx[i * 3 + 1], tx[i * 3 + 2]); }; V3 p(r.uni(0.2, n - 0.2), r.uni(0.2, n - 0.2), r.uni(0.2, n - 0.2)); bool out = r.chance(0.2); if (out) p = V3(n + 1, r.uni(-1, n), 0.5);
    auto ps = d::Nearest_Point_MeshTet3D<double>(p, tx, tet); CK((ps.ielem >= 0) == !out, "tet containing a point", "ielem=%d", ps.ielem); if (ps.ielem >= 0) { CK((ps.getPos_Tet(tx, tet) - p).norm() < 1e-9 && ps.isInside(-1e-3), "position in the tet", "%g", (ps.getPos_Tet(tx, tet) - p).norm()); ctx.count("tet_hit"); }
    // faces on the surface
    std::map<std::vector<int>, std::pair<int, int>> fc; static const int nf[4][3] = {{1, 2, 3}, {0, 3, 2}, {0, 1, 3}, {0, 2, 1}}; std::map<std::vector<int>, int> cnt; for (size_t e = 0; e < tet.size() / 4; ++e) for (int f = 0; f < 4; ++f) { std::vector<int> k = {tet[e * 4 + nf[f][0]], tet[e * 4 + nf[f][1]], tet[e * 4 + nf[f][2]]}; std::sort(k.begin(), k.end()); cnt[k]++; fc[k] = {(int)e, f}; }
    std::vector<int> fs; for (auto &kv : cnt) if (kv.second == 1) { fs.push_back(fc[kv.first].first); fs.push_back(fc[kv.first].second); }
    double bb = 1e9; for (auto &kv : cnt) if (kv.second == 1) { double a, b; bb = std::min(bb, d::Nearest_Origin3_Tri3(a, b, V3(T(kv.first[0]) - p), V3(T(kv.first[1]) - p), V3(T(kv.first[2]) - p)).norm()); }
    auto pf = d::Nearest_Point_MeshTetFace3D<double>(p, tx, tet, fs); int e = fs[pf.itri * 2], f = fs[pf.itri * 2 + 1]; V3 x = T(tet[e * 4 + nf[f][0]]) * pf.r0 + T(tet[e * 4 + nf[f][1]]) * pf.r1 + T(tet[e * 4 + nf[f][2]]) * (1 - pf.r0 - pf.r1);
    CK(std::fabs((x - p).norm() - bb) < 1e-7, "nearest point on the surface of a tet mesh", "%g expected %g", (x - p).norm(), bb);
    VU tu(tet.begin(), tet.end()), fu(fs.begin(), fs.end()); auto y = pf.PositionOnFaceOfMeshTet(tx, tu, fu); CK((V3(y[0], y[1], y[2]) - x).norm() < 1e-9, "position on a tet face", "%g", 0.);
    // walk through the face adjacency (element, relation) to the tet that contains the point
    if (!out) { std::vector<int> rel(tet.size() * 2, -1); std::map<std::vector<int>, std::vector<std::pair<int, int>>> adj; for (size_t ee = 0; ee < tet.size() / 4; ++ee) for (int ff = 0; ff < 4; ++ff) { std::vector<int> k = {tet[ee * 4 + nf[ff][0]], tet[ee * 4 + nf[ff][1]], tet[ee * 4 + nf[ff][2]]}; std::sort(k.begin(), k.end()); adj[k].push_back({(int)ee, ff}); } for (auto &kv : adj) if (kv.second.size() == 2) { rel[kv.second[0].first * 8 + kv.second[0].second * 2] = kv.second[1].first; rel[kv.second[1].first * 8 + kv.second[1].second * 2] = kv.second[0].first; }
      auto pw = d::Nearest_Point_MeshTet3D<double>(p, r.irange(0, (int)tet.size() / 4 - 1), tx, tet, rel); if (pw.ielem >= 0) { CK((pw.getPos_Tet(tx, tet) - p).norm() < 1e-9 && pw.isInside(-1e-3), "walk ends in the tet that contains the point", "%d", pw.ielem); ctx.count("tet_walk"); } } }
  { // height field
    unsigned nx = r.irange(2, 6), ny = r.irange(2, 6); std::vector<float> H(nx * ny); for (auto &h : H) h = (float)r.uni(-1, 1); double src[3] = {r.uni(0.05, nx - 1.05), r.uni(0.05, ny - 1.05), 5}, dir[3] = {0, 0, -1}; if (r.chance(0.5)) { dir[0] = r.uni(-.3, .3); dir[1] = r.uni(-.3, .3); }
    std::vector<d::PointOnSurfaceMesh<double>> ps; d::IntersectionLine_Hightfield(ps, src, dir, nx, ny, H); V3 s(src), dd(dir); if (dir[0] == 0 && dir[1] == 0) { CK(!ps.empty(), "vertical line hits the height field", "%u x %u", nx, ny); }
    for (auto &p : ps) { auto x = p.PositionOnGrid2(nx, ny, 1.0, H); CK((V3(x[0], x[1], x[2]) - s).cross(dd.normalized()).norm() < 1e-5, "height field hit lies on the line", "itri=%u off %g", p.itri, (V3(x[0], x[1], x[2]) - s).cross(dd.normalized()).norm()); } ctx.count("height_hits", ps.size());
    unsigned ne = 0; for (unsigned iy = 0; iy + 1 < ny; ++iy) for (unsigned ix = 0; ix + 1 < nx; ++ix) for (int k = 0; k < 2; ++k) { auto G = [&](unsigned a, unsigned b) { return L3(a, b, H[b * nx + a]); }; L3 a = G(ix, iy), b = k == 0 ? G(ix + 1, iy) : G(ix + 1, iy + 1), c = k == 0 ? G(ix + 1, iy + 1) : G(ix, iy + 1), o(s), e = o + L3(dd); LD v0 = vol6(b, c, o, e), v1 = vol6(c, a, o, e), v2 = vol6(a, b, o, e), vt = v0 + v1 + v2; if (std::min({v0 / vt, v1 / vt, v2 / vt}) > 0) { ++ne; bool f = false; for (auto &p : ps) if (p.itri == (iy * nx + ix) * 2 + k) f = true; CK(f, "height field triangle crossed by the line is reported", "%u %u %d", ix, iy, k); } } (void)ne; }
  ctx.sig(vh::Hash().vd(xyz));
}
