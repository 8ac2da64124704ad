// C10: continuous collision of linearly moving vertex-face and edge-edge pairs against an independent interval oracle
#include "vh.h"
#include <array>
#include <map>
#include <set>
#include <cfloat>
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/geo_edge.h"
#include "delfem2/geo_tri.h"
#include "delfem2/geo_ccd.h"
#include "delfem2/srch_bvh.h"
#include "delfem2/srch_bv3_aabb.h"
#include "delfem2/srch_bv3_sphere.h"
#include "delfem2/srch_selfintersection_bvh.h"
#include "delfem2/cloth_selfcollision.cpp"
namespace d = delfem2; using V3 = d::CVec3d; using LD = long double;
struct L3 { LD x, y, z; L3 operator-(const L3 &b) const { return {x - b.x, y - b.y, z - b.z}; } L3 operator+(const L3 &b) const { return {x + b.x, y + b.y, z + b.z}; } L3 operator*(LD s) const { return {x * s, y * s, z * s}; } };
static L3 L(const V3 &a) { return {a.p[0], a.p[1], a.p[2]}; } static LD dot(L3 a, L3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; } static L3 cr(L3 a, L3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static LD nrm(L3 a) { return std::sqrt(dot(a, a)); }
struct Pair { V3 s[4], e[4]; }; // 0-2 triangle, 3 vertex  |  0,1 edge, 2,3 edge
static L3 at(const Pair &q, int i, LD t) { return L(q.s[i]) * (1 - t) + L(q.e[i]) * t; }
static LD vol(const Pair &q, LD t) { L3 a = at(q, 0, t), b = at(q, 1, t), c = at(q, 2, t), e = at(q, 3, t); return dot(cr(b - a, c - a), e - a); }
// all roots of the coplanarity cubic in [0,1] (dense sampling of the exact polynomial + bisection); min_slope reports how well separated they are
struct Roots { std::vector<LD> t; bool clear = true; };
static Roots coplanar_times(const Pair &q) { Roots r; const int N = 400; LD v[N + 1], mx = 0; for (int i = 0; i <= N; ++i) { v[i] = vol(q, (LD)i / N); mx = std::max(mx, std::fabs(v[i])); }
  if (std::fabs(v[0]) < 1e-7L * mx || std::fabs(v[N]) < 1e-7L * mx || mx < 1e-9L) r.clear = false;
  for (int i = 0; i < N; ++i) { if (v[i] * v[i + 1] <= 0) { LD a = (LD)i / N, b = (LD)(i + 1) / N; for (int k = 0; k < 70; ++k) { LD m = (a + b) / 2; (vol(q, m) * v[i] > 0 ? a : b) = m; } r.t.push_back((a + b) / 2); }
    else if (std::min(std::fabs(v[i]), std::fabs(v[i + 1])) < 1e-5L * mx) { bool near = false; for (int j = std::max(0, i - 1); j < std::min(N, i + 2); ++j) near |= v[j] * v[j + 1] <= 0; if (!near) r.clear = false; } }
  for (size_t i = 1; i < r.t.size(); ++i) if (r.t[i] - r.t[i - 1] < 1e-2L) r.clear = false; return r; }
// coordinates of the contact at time t: minimal slack of the parameters inside their range
static LD fv_slack(const Pair &q, LD t) { L3 a = at(q, 0, t), b = at(q, 1, t), c = at(q, 2, t), e = at(q, 3, t), n = cr(b - a, c - a); LD nn = dot(n, n); if (nn < 1e-8L) return NAN; LD w0 = dot(cr(b - e, c - e), n) / nn, w1 = dot(cr(c - e, a - e), n) / nn; return std::min({w0, w1, 1 - w0 - w1}); }
static LD ee_slack(const Pair &q, LD t) { L3 a = at(q, 0, t), u = at(q, 1, t) - a, c = at(q, 2, t), w = at(q, 3, t) - c, n = cr(u, w), r = c - a; LD nn = dot(n, n); if (nn < 1e-6L * dot(u, u) * dot(w, w) || nn < 1e-8L) return NAN; LD s = dot(cr(r, w), n) / nn, v = dot(cr(r, u), n) / nn; return std::min({s, 1 - s, v, 1 - v}); }
// distance lower bound at sampled times, for pairs staying apart
static V3 rv(vh::Rng &r, double s) { return V3(s * r.uni(-1, 1), s * r.uni(-1, 1), s * r.uni(-1, 1)); }
static Pair make(vh::Rng &r, bool fv) { Pair q; int kind = r.irange(0, 5); double sp = r.pick({0.3, 1., 2.});
  for (int i = 0; i < 4; ++i) { q.s[i] = rv(r, 1); q.e[i] = q.s[i] + rv(r, sp); }
  if (kind <= 2) { // aimed: the pair meets at time t with coordinates inside
    double t = r.uni(0.05, 0.95), w0 = r.uni(0.05, 0.9), w1 = r.uni(0.02, 0.97 - w0); V3 m[4]; for (int i = 0; i < 4; ++i) m[i] = q.s[i] * (1 - t) + q.e[i] * t;
    V3 off = fv ? V3(m[0] * w0 + m[1] * w1 + m[2] * (1 - w0 - w1) - m[3]) : V3(m[0] * w0 + m[1] * (1 - w0)) - V3(m[2] * w1 + m[3] * (1 - w1)); for (int i = fv ? 3 : 2; i < 4; ++i) { q.s[i] += off; q.e[i] += off; } }
  else if (kind == 3) { V3 tr = rv(r, 2); for (int i = 0; i < 4; ++i) { q.e[i] = q.s[i]; } for (int i = fv ? 3 : 2; i < 4; ++i) q.e[i] += tr; } // rigid translation: linear in time
  else if (kind == 4) { V3 far = rv(r, 1) + V3(4, 0, 0); for (int i = fv ? 3 : 2; i < 4; ++i) { q.s[i] += far; q.e[i] += far; } }
  return q; }
// many crossings: a vertex passing the plane of a turning triangle several times, in and out of it
static Pair wiggle(vh::Rng &r, bool fv) { for (int it = 0; it < 400; ++it) { Pair q = make(r, fv); for (int i = 0; i < 4; ++i) q.e[i] = q.s[i] * -1. + rv(r, 0.7); auto R = coplanar_times(q); if (R.clear && R.t.size() >= 2) return q; } return make(r, fv); }
static void one(vh::Ctx &ctx, const Pair &q, bool fv) {
  std::vector<double> sg; for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) { sg.push_back(q.s[i].p[k]); sg.push_back(q.e[i].p[k]); } ctx.sig(vh::Hash().vd(sg).h);
  Roots R = coplanar_times(q); if (!R.clear) { ctx.count("grazing_skipped"); return; }
  { double r[3] = {-1, -1, -1}; unsigned n = d::FindCoplanerInterps(r, q.s[0], q.s[1], q.s[2], q.s[3], q.e[0], q.e[1], q.e[2], q.e[3]); if (CK(n == R.t.size(), "number of coplanar times", "%u expected %zu", n, R.t.size())) for (unsigned i = 0; i < n; ++i) CK(std::fabs(r[i] - R.t[i]) < 1e-4L, "coplanar time", "%g expected %Lg", r[i], R.t[i]);
    double t; bool b = d::FindCoplanerInterp(t, q.s[0], q.s[1], q.s[2], q.s[3], q.e[0], q.e[1], q.e[2], q.e[3]); CK(b == !R.t.empty() && (!b || (t >= 0 && t <= 1 && std::fabs(t - R.t[0]) < 1e-4L)), "first coplanar time", "%d %g", (int)b, t); }
  bool hit = false, unclear = false; LD first = -1; for (LD t : R.t) { LD s = fv ? fv_slack(q, t) : ee_slack(q, t); LD tol = 2e-2L; if (!(std::fabs(s) > tol)) { // the root is known to 3e-5 only: judge if the slack keeps its sign around it
      LD sa = fv ? fv_slack(q, t - 1e-4L) : ee_slack(q, t - 1e-4L), sb = fv ? fv_slack(q, t + 1e-4L) : ee_slack(q, t + 1e-4L); if (!(std::fabs(s) > 1e-4L && sa * s > 0 && sb * s > 0)) { unclear = true; break; } } if (s > 0) { hit = true; if (first < 0) first = t; } }
  if (unclear) { ctx.count("boundary_skipped"); return; }
  bool got, got2;
  if (fv) { got = d::IsContact_FV_CCD2(0, 1, 2, 3, q.s[0], q.s[1], q.s[2], q.s[3], q.e[0], q.e[1], q.e[2], q.e[3]); d::CBV3_Sphere<double> bb; d::CBV3d_AABB ab; for (int i = 0; i < 3; ++i) { ab.AddPoint(q.s[i].p, 1e-6); ab.AddPoint(q.e[i].p, 1e-6); } (void)bb; got2 = d::IsContact_FV_CCD(0, 1, 2, 3, q.s[0], q.s[1], q.s[2], q.s[3], q.e[0], q.e[1], q.e[2], q.e[3], ab); }
  else { got = d::IsContact_EE_CCD<d::CBV3d_AABB>(0, 1, 2, 3, q.s[0], q.s[1], q.s[2], q.s[3], q.e[0], q.e[1], q.e[2], q.e[3]); got2 = d::IsContact_EE_CCD<d::CBV3d_AABB>(2, 3, 0, 1, q.s[2], q.s[3], q.s[0], q.s[1], q.e[2], q.e[3], q.e[0], q.e[1]); CK(!d::IsContact_EE_CCD<d::CBV3d_AABB>(0, 1, 1, 3, q.s[0], q.s[1], q.s[2], q.s[3], q.e[0], q.e[1], q.e[2], q.e[3]), "edges sharing a vertex are not in contact", "%d", 0); }
  CK(got == hit, hit ? "a contact is reported" : "no contact is reported for a pair apart", "%s: %zu coplanar times, contact at %Lg", fv ? "vertex-face" : "edge-edge", R.t.size(), first); CK(got2 == got, fv ? "box-culled test agrees" : "edge-edge test is symmetric", "%d %d", (int)got, (int)got2);
  // time reversal
  bool rev = fv ? d::IsContact_FV_CCD2(0, 1, 2, 3, q.e[0], q.e[1], q.e[2], q.e[3], q.s[0], q.s[1], q.s[2], q.s[3]) : d::IsContact_EE_CCD<d::CBV3d_AABB>(0, 1, 2, 3, q.e[0], q.e[1], q.e[2], q.e[3], q.s[0], q.s[1], q.s[2], q.s[3]); CK(rev == got, "contact of the reversed motion", "%d %d", (int)rev, (int)got);
  ctx.count(std::string(fv ? "fv_" : "ee_") + (hit ? "contact" : "free")); if (R.t.size() > 1) ctx.count("several_roots"); if (hit && R.t.size() > 1 && first > R.t[0]) ctx.count("contact_at_later_root"); }
VH_FAMILY(fv, 3000, 60000) { one(ctx, make(ctx.rng, true), true); }
VH_FAMILY(ee, 3000, 60000) { one(ctx, make(ctx.rng, false), false); }
VH_FAMILY(fv_wiggle, 500, 8000) { one(ctx, wiggle(ctx.rng, true), true); }
VH_FAMILY(ee_wiggle, 500, 8000) { one(ctx, wiggle(ctx.rng, false), false); }

// Newton iteration to the contact of two moving edges, started near to it
VH_FAMILY(ccd_newton, 1500, 20000) {
  auto &r = ctx.rng; double u = r.uni(0.2, 0.8), a = r.uni(0.2, 0.8), b = r.uni(0.2, 0.8); Pair q; for (int i = 0; i < 4; ++i) { q.s[i] = rv(r, 1); q.e[i] = q.s[i] + rv(r, 1); }
  V3 m[4]; for (int i = 0; i < 4; ++i) m[i] = q.s[i] * (1 - u) + q.e[i] * u; V3 off = V3(m[0] * (1 - a) + m[1] * a) - V3(m[2] * (1 - b) + m[3] * b); for (int i = 2; i < 4; ++i) { q.s[i] += off; q.e[i] += off; }
  V3 ds = m[1] - m[0], dt = m[3] - m[2], du = (q.e[0] - q.s[0]) * (1 - a) + (q.e[1] - q.s[1]) * a - (q.e[2] - q.s[2]) * (1 - b) - (q.e[3] - q.s[3]) * b; double dj = std::fabs(ds.cross(dt).dot(du)), F2 = ds.squaredNorm() + dt.squaredNorm() + du.squaredNorm(); if (dj < 0.3 || dj < 0.2 * F2 / 2) return; // smallest singular value of the Jacobian is at least 0.2
  ctx.sig(vh::Hash().d(u).d(a).d(b).h);
  double p[3] = {a + r.uni(-0.002, 0.002), b + r.uni(-0.002, 0.002), u + r.uni(-0.002, 0.002)}; double dist = d::Nearest_LineSeg_LineSeg_CCD_Iteration(p, q.s[0], q.e[0], q.s[1], q.e[1], q.s[2], q.e[2], q.s[3], q.e[3], 12);
  // the Hessian of the squared distance is dominated by its Gauss-Newton part here
  CK(dist < 1e-6 && std::fabs(p[0] - a) + std::fabs(p[1] - b) + std::fabs(p[2] - u) < 1e-5, "Newton iteration converges to the contact", "distance %g at (%g %g %g) expected (%g %g %g)", dist, p[0], p[1], p[2], a, b, u); ctx.count("newton"); }
// a pair that does not meet: the iteration still converges (quadratically) to a stationary point when started close to one
VH_FAMILY(ccd_newton_apart, 3000, 30000) {
  auto &r = ctx.rng; Pair q; for (int i = 0; i < 4; ++i) { q.s[i] = rv(r, 1) + V3(0, 0, i < 2 ? 0 : 1.2); q.e[i] = q.s[i] + rv(r, 0.8); }
  auto pos = [&](const double *p) { V3 x = q.s[0] * ((1 - p[0]) * (1 - p[2])) + q.e[0] * ((1 - p[0]) * p[2]) + q.s[1] * (p[0] * (1 - p[2])) + q.e[1] * (p[0] * p[2]) - q.s[2] * ((1 - p[1]) * (1 - p[2])) - q.e[2] * ((1 - p[1]) * p[2]) - q.s[3] * (p[1] * (1 - p[2])) - q.e[3] * (p[1] * p[2]); return x; };
  double p[3] = {0.5, 0.5, 0.5}; // descend to an interior minimum by damped coordinate search
  double st = 0.1, f = pos(p).squaredNorm(); for (int it = 0; it < 4000 && st > 1e-9; ++it) { bool ok = false; for (int k = 0; k < 3; ++k) for (double s : {st, -st}) { double z[3] = {p[0], p[1], p[2]}; z[k] += s; if (z[k] < 0 || z[k] > 1) continue; double g = pos(z).squaredNorm(); if (g < f) { f = g; p[k] = z[k]; ok = true; } } if (!ok) st *= 0.5; }
  for (double x : p) if (x < 0.05 || x > 0.95) return; if (f < 1e-3) return; // numerical Hessian must be clearly positive
  double H[3][3], h = 1e-4; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { auto g = [&](double a, double b) { double z[3] = {p[0], p[1], p[2]}; z[i] += a; z[j] += b; return pos(z).squaredNorm() / 2; }; H[i][j] = (g(h, h) - g(h, -h) - g(-h, h) + g(-h, -h)) / (4 * h * h); }
  double m2 = H[0][0] * H[1][1] - H[0][1] * H[0][1], m3 = H[0][0] * (H[1][1] * H[2][2] - H[1][2] * H[1][2]) - H[0][1] * (H[0][1] * H[2][2] - H[1][2] * H[0][2]) + H[0][2] * (H[0][1] * H[1][2] - H[1][1] * H[0][2]); if (H[0][0] < 0.05 || m2 < 0.02 || m3 < 0.05) return; ctx.sig(vh::Hash().d(p[0]).d(p[1]).d(p[2]).h);
  double z[3]; for (int k = 0; k < 3; ++k) z[k] = p[k] + r.uni(-2e-3, 2e-3); d::Nearest_LineSeg_LineSeg_CCD_Iteration(z, q.s[0], q.e[0], q.s[1], q.e[1], q.s[2], q.e[2], q.s[3], q.e[3], 3);
  double e = std::fabs(z[0] - p[0]) + std::fabs(z[1] - p[1]) + std::fabs(z[2] - p[2]); CK(e < 2e-5, "Newton iteration converges quadratically to the closest approach", "error %g", e); ctx.count("newton_apart"); }

// contact impulses act along a line through the contact: momentum is conserved, approaching pairs are slowed
VH_FAMILY(impulse, 1500, 20000) {
  auto &r = ctx.rng; bool fv = r.chance(0.5); Pair q = make(r, fv); bool ccd = r.chance(0.6); std::vector<double> X, U; for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) { X.push_back(q.s[i].p[k]); U.push_back(q.e[i].p[k] - q.s[i].p[k]); } auto U0 = U; ctx.sig(vh::Hash().vd(X).vd(U).h);
  std::vector<unsigned> tri; std::vector<d::CContactElement> ce; ce.emplace_back(fv, 0, 1, 2, 3); double delta = r.uni(0.05, 0.6);
  if (ccd) SelfCollisionImpulse_CCD(U, delta, 0, 0.1, r.uni(0.5, 2), X, tri, ce); else SelfCollisionImpulse_Proximity(U, delta, 100., 0.1, r.uni(0.5, 2), X, tri, ce);
  bool moved = false; V3 l0(0, 0, 0), l1(0, 0, 0), a0(0, 0, 0), a1(0, 0, 0); for (int i = 0; i < 4; ++i) { V3 x(&X[i * 3]), u(&U0[i * 3]), w(&U[i * 3]); l0 += u; l1 += w; a0 += x.cross(u); a1 += x.cross(w); moved |= (w - u).norm() > 1e-12; }
  double big = 0; for (double u : U) { if (!CK(std::isfinite(u), "velocity is finite", "%g", u)) return; big = std::max(big, std::fabs(u)); }
  CK((l1 - l0).norm() <= 1e-10 * (1 + big), "impulses conserve the momentum", "%g", (l1 - l0).norm()); CK((a1 - a0).norm() <= 1e-9 * (1 + big), "impulses conserve the angular momentum", "%g", (a1 - a0).norm()); if (moved) ctx.count(ccd ? "impulse_ccd" : "impulse_proximity");
  if (!ccd) return; Roots R = coplanar_times(q); if (!R.clear || R.t.empty()) return; LD tc = R.t[0], sl = fv ? fv_slack(q, tc) : ee_slack(q, tc); if (!(std::fabs(sl) > 2e-2L)) return; // only the first coplanar time is looked at
  if (sl < 0) { return; } // the features pass each other beside their ends
  LD w[4]; { L3 a = at(q, 0, tc), b = at(q, 1, tc), c = at(q, 2, tc), e = at(q, 3, tc); if (fv) { L3 n = cr(b - a, c - a); LD nn = dot(n, n); w[0] = -dot(cr(b - e, c - e), n) / nn; w[1] = -dot(cr(c - e, a - e), n) / nn; w[2] = -1 - w[0] - w[1]; w[3] = 1; } else { L3 u = b - a, z = e - c, n = cr(u, z), rr = c - a; LD nn = dot(n, n), s = dot(cr(rr, z), n) / nn, v = dot(cr(rr, u), n) / nn; w[0] = s - 1; w[1] = -s; w[2] = 1 - v; w[3] = v; } }
  L3 g{0, 0, 0}, dv{0, 0, 0}; for (int i = 0; i < 4; ++i) { g = g + L(q.s[i]) * w[i]; dv = dv + L3{(LD)U[i * 3] - U0[i * 3], (LD)U[i * 3 + 1] - U0[i * 3 + 1], (LD)U[i * 3 + 2] - U0[i * 3 + 2]} * w[i]; }
  LD gap = nrm(g), rel = gap / tc; if (gap < 1e-2L) return; LD along = dot(dv, g) / gap; L3 side = dv - g * (along / gap);
  CK(along > 0, "a pair meeting during the step is pushed apart", "%s change of the approaching velocity %Lg, approaching at %Lg", fv ? "face-vertex" : "edge-edge", along, rel); CK(nrm(side) < 1e-2L * std::fabs(along), "impulse acts along the line between the two features", "%Lg of %Lg", nrm(side), along); CK(along < 0.5L * (rel + 0.1L * delta / 0.1L), "impulse does not throw the pair apart", "%Lg for %Lg", along, rel); ctx.count(fv ? "fv_pushed" : "ee_pushed"); }

// rigid impact zones: the velocity becomes a rigid motion with the same momenta
VH_FAMILY(impact_zone, 1000, 15000) {
  auto &r = ctx.rng; int nz = r.irange(1, 3), off = 0; std::vector<std::set<int>> z(nz); std::vector<double> X, U; for (auto &s : z) { int n = r.irange(4, 12); for (int i = 0; i < n; ++i) s.insert(off + i); off += n + r.irange(0, 2); } double sp = r.pick({0.01, 1., 10.}); for (int i = 0; i < off * 3; ++i) { X.push_back(r.uni(-1, 1)); U.push_back(sp * r.uni(-1, 1)); } auto U0 = U; ctx.sig(vh::Hash().vd(X).vd(U).h);
  ApplyRigidImpactZone(U, z, X, U0); std::set<int> in;
  for (auto &s : z) { V3 g(0, 0, 0), l0(0, 0, 0), l1(0, 0, 0), a0(0, 0, 0), a1(0, 0, 0); for (int i : s) { in.insert(i); g += V3(&X[i * 3]); } g /= (double)s.size(); for (int i : s) { V3 x = V3(&X[i * 3]) - g, u(&U0[i * 3]), w(&U[i * 3]); l0 += u; l1 += w; a0 += x.cross(u); a1 += x.cross(w); }
    CK((l0 - l1).norm() < 1e-9 * sp * s.size(), "impact zone keeps the momentum", "%g", (l0 - l1).norm()); CK((a0 - a1).norm() < 1e-7 * sp * s.size(), "impact zone keeps the angular momentum", "%g of %g", (a0 - a1).norm(), a0.norm());
    double worst = 0; for (int i : s) for (int j : s) worst = std::max(worst, std::fabs((V3(&X[i * 3]) - V3(&X[j * 3])).dot(V3(&U[i * 3]) - V3(&U[j * 3])))); CK(worst < 1e-7 * sp, "impact zone moves rigidly", "%g", worst); ctx.count("zones"); }
  for (int i = 0; i < off; ++i) if (!in.count(i)) CK(U[i * 3] == U0[i * 3] && U[i * 3 + 1] == U0[i * 3 + 1] && U[i * 3 + 2] == U0[i * 3 + 2], "points outside of the zones keep their velocity", "%d", i); }

// whole step for two sheets flying towards each other
#include "delfem2/msh_topology_uniform.h"
#include <sstream>
VH_FAMILY_CPU(sheets, 60, 800, 30) {
  auto &r = ctx.rng; int n = r.irange(2, 4); std::vector<double> X; std::vector<unsigned> T; double gap = r.uni(0.15, 0.3), el = 1.0 / n; V3 sh(r.uni(-0.3, 0.3), r.uni(-0.3, 0.3), 0); double an = r.uni(0, 3);
  for (int k = 0; k < 2; ++k) { int b = X.size() / 3; for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) { double x = j * el - 0.5, y = i * el - 0.5; if (k) { double c = std::cos(an), s = std::sin(an), xx = c * x - s * y; y = s * x + c * y; x = xx; } X.push_back(x + (k ? sh.p[0] : 0) + 0.1 * el * r.uni(-1, 1)); X.push_back(y + (k ? sh.p[1] : 0) + 0.1 * el * r.uni(-1, 1)); X.push_back(k * gap + 0.03 * r.uni(-1, 1)); }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { unsigned a = b + i * (n + 1) + j; for (unsigned v : {a, a + 1, a + n + 2, a, a + n + 2, a + n + 1}) T.push_back(v); } }
  int np = X.size() / 3; double dt = 0.1, sp = gap / dt * r.uni(0.2, 1.5); std::vector<double> U(np * 3); for (int i = 0; i < np; ++i) { for (int k = 0; k < 3; ++k) U[i * 3 + k] = 0.2 * r.uni(-1, 1); U[i * 3 + 2] += (i < np / 2 ? sp : -sp) / 2; } auto U0 = U; ctx.sig(vh::Hash().vd(X).vd(U).h);
  std::vector<unsigned> pi, ps; d::JArray_PSuP_MeshElem(pi, ps, T.data(), T.size() / 3, 3, np);
  std::vector<unsigned> surtri; d::ElSuEl_MeshElem(surtri, T.data(), T.size() / 3, d::MESHELEM_TRI, np); std::vector<d::CNodeBVH2> nodes; std::vector<double> ce; for (size_t t = 0; t < T.size() / 3; ++t) for (int k = 0; k < 3; ++k) ce.push_back((X[T[t * 3] * 3 + k] + X[T[t * 3 + 1] * 3 + k] + X[T[t * 3 + 2] * 3 + k]) / 3);
  int root = d::BVHTopology_TopDown_MeshElem(nodes, 3, surtri, ce); std::vector<d::CBV3d_AABB> bb; bool hit = false; std::stringstream sink; auto *old = std::cout.rdbuf(sink.rdbuf());
  GetIntermidiateVelocityContactResolved(U, hit, dt, 0.01, 1, 100, X, T, pi, ps, root, nodes, bb); std::cout.rdbuf(old);
  V3 l0(0, 0, 0), l1(0, 0, 0), a0(0, 0, 0), a1(0, 0, 0); bool ch = false; for (int i = 0; i < np; ++i) { V3 x(&X[i * 3]), u(&U0[i * 3]), w(&U[i * 3]); if (!CK(std::isfinite(w.norm()), "velocity is finite", "%d", i)) return; l0 += u; l1 += w; a0 += x.cross(u); a1 += x.cross(w); ch |= (u - w).norm() > 1e-12; }
  CK((l0 - l1).norm() < 1e-7 * (1 + sp * np), "collision handling keeps the momentum", "%g", (l0 - l1).norm()); CK((a0 - a1).norm() < 1e-6 * (1 + sp * np), "collision handling keeps the angular momentum", "%g", (a0 - a1).norm()); CK(!ch || hit, "changed velocities are reported", "%d", (int)hit); if (hit) ctx.count("sheet_contacts");
  // an independent sampled check that no vertex went through the other sheet
  int cross = 0; for (size_t t = 0; t < T.size() / 3; ++t) for (int v = 0; v < np; ++v) { if ((v < np / 2) == ((int)T[t * 3] < np / 2)) continue; Pair q; for (int k = 0; k < 4; ++k) { unsigned p = k < 3 ? T[t * 3 + k] : v; q.s[k] = V3(&X[p * 3]); q.e[k] = q.s[k] + V3(&U[p * 3]) * dt; } auto R = coplanar_times(q); if (!R.clear) continue; for (LD x : R.t) if (fv_slack(q, x) > 1e-2L) { ++cross; CK(false, "resolved velocities are free of collisions", "vertex %d through triangle %zu at %Lg", v, t, x); return; } }
  (void)cross; }
