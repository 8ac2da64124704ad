// C33: cameras, projections, pixel rays, photogrammetry cameras and mouse gizmos.
#include "../lib/vh.h"
#include <cmath>
#include <fstream>
#include <unistd.h>
#include "delfem2/cam_modelview.h"
#include "delfem2/cam_projection.h"
#include "delfem2/mat4.h"
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/metashape_camera.h"
#include "delfem2/gizmo_geo3.h"
namespace d = delfem2;
using LD = long double;
struct P3 { LD x, y, z; };
static P3 operator+(P3 a, P3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static P3 operator-(P3 a, P3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static P3 operator*(LD s, P3 a) { return {s * a.x, s * a.y, s * a.z}; }
static LD dot(P3 a, P3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static P3 cross(P3 a, P3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static LD len(P3 a) { return std::sqrt(dot(a, a)); }
static P3 unit(P3 a) { return (1 / len(a)) * a; }
template <class V> static P3 p3(const V &v) { return {(LD)v[0], (LD)v[1], (LD)v[2]}; }
struct P4 { LD x, y, z, w; };
template <class M> static P4 mul(const M *m, P3 p) { LD o[4]; for (int i = 0; i < 4; ++i) o[i] = (LD)m[4 * i] * p.x + (LD)m[4 * i + 1] * p.y + (LD)m[4 * i + 2] * p.z + (LD)m[4 * i + 3]; return {o[0], o[1], o[2], o[3]}; }
static P3 hom(P4 q) { return {q.x / q.w, q.y / q.w, q.z / q.w}; }
// rotation about a unit axis, as a function
static P3 rot(P3 ax, LD th, P3 p) { LD c = std::cos(th), s = std::sin(th); return c * p + s * cross(ax, p) + (1 - c) * dot(ax, p) * ax; }
struct R3 { P3 c[3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}; P3 of(P3 p) const { return p.x * c[0] + p.y * c[1] + p.z * c[2]; } void pre(P3 ax, LD th) { for (P3 &v : c) v = rot(ax, th, v); } };
static P3 rdir(vh::Ctx &ctx) { for (;;) { P3 v{ctx.rng.gauss(), ctx.rng.gauss(), ctx.rng.gauss()}; if (len(v) > 0.1) return unit(v); } }
template <class M> static double rigid_gap(const M *m) { // deviation of a matrix from a proper rigid motion
  LD w = 0; P3 r[3]; for (int i = 0; i < 3; ++i) r[i] = {(LD)m[4 * i], (LD)m[4 * i + 1], (LD)m[4 * i + 2]};
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) w = std::max(w, std::fabs(dot(r[i], r[j]) - (i == j)));
  w = std::max(w, std::fabs(dot(cross(r[0], r[1]), r[2]) - 1));
  for (int i = 0; i < 4; ++i) w = std::max(w, std::fabs((LD)m[12 + i] - (i == 3)));
  return (double)w;
}
static void random_quat(vh::Ctx &ctx, double q[4]) { P3 a = rdir(ctx); double th = ctx.rng.uni(-3.1, 3.1); q[0] = (double)a.x * std::sin(th / 2); q[1] = (double)a.y * std::sin(th / 2); q[2] = (double)a.z * std::sin(th / 2); q[3] = std::cos(th / 2); }

VH_FAMILY(projection, 3000, 60000) {
  auto &r = ctx.rng; double h = std::pow(10., r.uni(-2, 2)); bool pars = r.chance(0.5); double fov = r.uni(3, 120), asp = std::exp(r.uni(-1.2, 1.2));
  d::Projection_LookOriginFromZplus pj((float)h, pars, (float)fov); const d::Projection &base = pj; std::array<float, 16> m = base.GetMatrix((float)asp);
  ctx.sig(vh::Hash().d(h).d(fov).d(asp).u(pars).h);
  h = pj.view_height; asp = (float)asp; LD depth = h / std::tan((LD)pj.fovy * M_PIl / 360); const double e = 2e-5;
  for (int s = 0; s < 12; ++s) {
    // a point between the far plane and a little in front of the near plane, in units of the depth
    LD zc = s == 0 ? 0 : s == 1 ? 0.5L : r.uni(-0.95, 0.95), u = s < 2 ? (s ? 1 : -1) : r.uni(-1, 1), v = s < 2 ? 1 : r.uni(-1, 1); LD sc = pars ? 1 - zc : 1;
    P3 p{u * asp * h * sc, v * h * sc, zc * depth}; P3 n = hom(mul(m.data(), p)); double te = e * (double)(1 + 1 / (1 - zc)) ;
    CK(std::fabs((double)(n.x - u)) <= te && std::fabs((double)(n.y - v)) <= te, "points at the edge of the view are at the edge of the screen", "height %g depth %Lg aspect %g: %Lg %Lg should be %Lg %Lg (z %Lg)", h, depth, asp, n.x, n.y, u, v, zc);
    // the origin's depth plane keeps its size with both projections
    LD dz = 1 - zc; LD ez = pars ? -(-2.01L) / 1.99L * 1 : 0; (void)ez;
    LD zn = -0.01L, zf = -2, zz = pars ? ((-(zf + zn) / (zn - zf)) * -dz + 2 * zf * zn / (zn - zf)) / dz : zc; // far -> -1, near -> +1
    CK(std::fabs((double)(n.z - zz)) <= e * (double)(1 + 1 / dz) * 4, "depth on the screen", "%Lg should be %Lg", n.z, zz);
    LD z2 = zc + r.uni(0.02, 0.04); P3 p2{p.x, p.y, z2 * depth}; P3 n2 = hom(mul(m.data(), p2)); CK(n2.z > n.z, "nearer points have larger depth values", "%Lg %Lg", n.z, n2.z);
    if (!pars) CK(std::fabs((double)(n2.x - n.x)) <= te && std::fabs((double)(n2.y - n.y)) <= te, "parallel projection ignores depth", "");
    ctx.count("projected");
  }
  CK(std::fabs((double)hom(mul(m.data(), P3{0, 0, 0})).x) <= e && std::fabs((double)hom(mul(m.data(), P3{0, 0, 0})).y) <= e, "origin in the middle of the screen", "");
  { d::CMat4f M(m.data()), I = M.Inverse(); P3 p{r.uni(-1, 1) * h, r.uni(-1, 1) * h, r.uni(-0.8, 0.8) * (double)depth}; P4 q = mul(m.data(), p); LD o[4]; const float *im = I.data(); for (int i = 0; i < 4; ++i) o[i] = im[4 * i] * q.x + im[4 * i + 1] * q.y + im[4 * i + 2] * q.z + im[4 * i + 3] * q.w; P3 b{o[0] / o[3], o[1] / o[3], o[2] / o[3]}; double sc = h + (double)depth; CK((double)len(b - p) <= 4e-3 * sc, "inverse of the projection", "off %Lg of %g", len(b - p), sc); }
  ctx.count(pars ? "perspective" : "parallel");
}

VH_FAMILY(trackball, 400, 6000) {
  auto &r = ctx.rng; d::ModelView_Trackball mv; double sc = std::pow(10., r.uni(-2, 2)); for (float &a : mv.anchor) a = r.chance(0.3) ? 0 : (float)(sc * r.uni(-1, 1));
  R3 R; int n = r.irange(1, 20); if (r.chance(0.2)) n = r.irange(100, 1500); vh::Hash hs; std::vector<std::array<float, 2>> hist;
  for (int i = 0; i < n; ++i) {
    float dx = 0, dy = 0; int k = r.irange(0, 9);
    if (k == 0) { dx = (float)r.uni(-4, 4); } else if (k == 1) { dy = (float)r.uni(-4, 4); } else if (k == 2) { dx = (float)r.uni(-1e-6, 1e-6); dy = (float)r.uni(-1e-6, 1e-6); } else if (k == 3) { dx = dy = 0; } else if (k == 4) { dx = (float)std::pow(10., r.uni(-44, -10)); dy = r.chance(0.5) ? 0 : (float)std::pow(10., r.uni(-44, -10)); } else { dx = (float)r.uni(-.5, .5); dy = (float)r.uni(-.5, .5); }
    auto before = mv.GetMatrix(); d::ModelView &base = mv; base.Rot_Camera(dx, dy); auto after = base.GetMatrix(); hs.d(dx).d(dy); LD a = std::hypot((LD)dx, (LD)dy); if (a > 0) R.pre(P3{-dy / a, dx / a, 0}, a);
    if (dx == 0 && dy == 0) { CK(before == after, "no motion, no change", ""); ctx.count("still"); }
    hist.push_back({dx, dy}); ctx.count("motions");
    if (i % 50 == 49 || i + 1 == n) {
      double te = 4e-6 * (1 + i * 0.2) + 4e-6; double g = rigid_gap(after.data()); CK(g <= te, "view matrix stays rigid", "after %d motions off %g", i + 1, g);
      P3 an{mv.anchor[0], mv.anchor[1], mv.anchor[2]}; P4 o = mul(after.data(), an); CK(len(P3{o.x, o.y, o.z}) <= 4e-6 * (double)(1e-30 + len(an)) * (1 + 0.2 * i), "anchor stays at the centre of the view", "off %Lg", len(P3{o.x, o.y, o.z}));
      for (int s = 0; s < 4; ++s) { P3 v = s < 3 ? P3{(LD)(s == 0), (LD)(s == 1), (LD)(s == 2)} : rdir(ctx); P4 w = mul(after.data(), an + v); P3 e = R.of(v); double sca = 1 + (double)len(an); CK(len(P3{w.x, w.y, w.z} - e) <= te * sca * 2, "motions turn the view about the screen axes", "after %d motions: %Lg %Lg %Lg should be %Lg %Lg %Lg", i + 1, w.x, w.y, w.z, e.x, e.y, e.z); ctx.count("turned"); }
    }
  }
  // walking the same path backwards returns to the start
  if (n <= 20) { for (size_t i = hist.size(); i-- > 0;) mv.Rot_Camera(-hist[i][0], -hist[i][1]); auto m = mv.GetMatrix(); LD w = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) w = std::max(w, std::fabs((LD)m[4 * i + j] - (i == j))); CK(w <= 1e-4, "going back returns to the first view", "off %Lg", w); ctx.count("returned"); }
  ctx.sig(hs.u(n).h);
}

VH_FAMILY(turntable, 1500, 30000) {
  auto &r = ctx.rng; bool yt = r.chance(0.5); float th = 0, ps = 0; vh::Hash hs; d::ModelView_Ytop my; d::ModelView_Ztop mz; if (r.chance(0.5)) { th = (float)r.uni(-6, 6); ps = (float)r.uni(-1.4, 1.4); if (r.chance(0.5)) my = d::ModelView_Ytop(th, ps); else { my.theta = th; my.psi = ps; } mz.theta = th; mz.psi = ps; }
  d::ModelView &mv = yt ? (d::ModelView &)my : (d::ModelView &)mz; int n = r.irange(0, 30); LD rt = th, rp = ps;
  for (int i = 0; i <= n; ++i) {
    rt = yt ? my.theta : mz.theta; rp = yt ? my.psi : mz.psi; auto m = mv.GetMatrix(); LD cp = std::cos(rp);
    if (std::fabs(cp) > 0.05) {
      double te = 2e-5 / (double)std::fabs(cp); P3 eye = yt ? P3{std::sin(rt) * cp, std::sin(rp), std::cos(rt) * cp} : P3{std::sin(rt) * cp, std::cos(rt) * cp, std::sin(rp)}, up = yt ? P3{0, 1, 0} : P3{0, 0, 1};
      CK(rigid_gap(m.data()) <= te, "view matrix stays rigid", "theta %Lg psi %Lg off %g", rt, rp, rigid_gap(m.data()));
      auto dirv = [&](P3 v) { P4 a = mul(m.data(), v), b = mul(m.data(), P3{0, 0, 0}); return P3{a.x - b.x, a.y - b.y, a.z - b.z}; };
      P3 e = dirv(eye), u = dirv(up); CK(len(e - P3{0, 0, 1}) <= te, "viewer direction points out of the screen", "theta %Lg psi %Lg: %Lg %Lg %Lg", rt, rp, e.x, e.y, e.z);
      CK(std::fabs(u.x) <= te && u.y > 0, "vertical direction stays upright on the screen", "theta %Lg psi %Lg: %Lg %Lg %Lg", rt, rp, u.x, u.y, u.z);
      P4 o = mul(m.data(), P3{0, 0, 0}); CK(std::fabs(o.x) <= te && std::fabs(o.y) <= te, "target in the middle of the screen", "");
      ctx.count(yt ? "y_up" : "z_up");
      if (std::fabs(cp) > 0.3) { // a small motion moves the point facing the viewer with the cursor
        const float ep = 0.02f; for (int k = 0; k < 2; ++k) { float dx = k ? 0 : ep, dy = k ? ep : 0; if (r.chance(0.5)) { dx = -dx; dy = -dy; } d::ModelView_Ytop y2 = my; d::ModelView_Ztop z2 = mz; if (yt) y2.Rot_Camera(dx, dy); else z2.Rot_Camera(dx, dy); auto m2 = yt ? y2.GetMatrix() : z2.GetMatrix(); P4 w = mul(m2.data(), eye); LD ex = dx * std::fabs(cp); if (cp < 0) { continue; } CK(std::fabs(w.x - ex) <= 0.05 * ep && std::fabs(w.y - dy) <= 0.05 * ep, "the scene follows the cursor", "motion %g %g moved %Lg %Lg", dx, dy, w.x, w.y); ctx.count("followed"); }
      }
    } else ctx.count("pole");
    float dx = (float)r.uni(-.5, .5), dy = (float)r.uni(-.3, .3); hs.d(dx).d(dy); mv.Rot_Camera(dx, dy); LD nt = yt ? my.theta : mz.theta, np = yt ? my.psi : mz.psi;
    CK(std::fabs(std::fabs(nt - rt) - std::fabs((LD)dx)) <= 1e-5 && std::fabs(std::fabs(np - rp) - std::fabs((LD)dy)) <= 1e-5, "motion changes the angles by its length", "");
  }
  ctx.sig(hs.d(th).d(ps).u(yt).u(n).h);
}

template <class T> static void ray_case(vh::Ctx &ctx) {
  auto &r = ctx.rng; d::ModelView_Trackball mv; for (float &a : mv.anchor) a = (float)r.uni(-1, 1); for (int i = 0; i < 3; ++i) mv.Rot_Camera((float)r.uni(-2, 2), (float)r.uni(-2, 2)); double h = std::exp(r.uni(-1, 1)); bool pars = r.chance(0.5);
  d::Projection_LookOriginFromZplus pj((float)h, pars, (float)r.uni(20, 90)); unsigned W = (unsigned)r.irange(1, 2000), H = (unsigned)r.irange(1, 2000); float asp = (float)W / (float)H; asp = std::min(3.f, std::max(.3f, asp));
  auto P = pj.GetMatrix(asp), V = mv.GetMatrix(); T mvp[16], inv[16]; { T a[16], b[16]; for (int i = 0; i < 16; ++i) { a[i] = P[i]; b[i] = V[i]; } d::MatMat4(mvp, a, b); } d::Inverse_Mat4(inv, mvp); auto inv2 = d::Inverse_Mat4(mvp); CK(std::equal(inv, inv + 16, inv2.begin()), "both inverses agree", "");
  LD depth = h / std::tan((LD)pj.fovy * M_PIl / 360); bool dbl = sizeof(T) == 8; double e = dbl ? 1e-9 : 3e-4;
  for (int s = 0; s < 6; ++s) {
    int iw = r.irange(0, (int)W - 1), ih = r.irange(0, (int)H - 1); if (s == 0) { iw = 0; ih = (int)H - 1; } auto ray = d::RayFromInverseMvpMatrix<T>(inv, iw, ih, W, H); P3 o = p3(ray.first), dr = p3(ray.second); LD u = -1 + 2 * (iw + 0.5L) / W, v = -1 + 2 * (ih + 0.5L) / H;
    CK(std::fabs((double)len(dr) - 1) <= (dbl ? 1e-12 : 1e-5), "ray direction has unit length", "%Lg", len(dr));
    LD pz = 2; for (int k = 0; k < 5; ++k) { LD t = k * 0.4L * depth; P4 q = mul(mvp, o + t * dr); P3 n = hom(q); double te = e * (double)(2 + 1 / (pars ? (0.01L + k * 0.3L) : 1)); CK(q.w > 0 && std::fabs((double)(n.x - u)) <= te && std::fabs((double)(n.y - v)) <= te, "points on a pixel ray project to the pixel", "pixel %d %d of %u %u: %Lg %Lg should be %Lg %Lg (step %d)", iw, ih, W, H, n.x, n.y, u, v, k); CK(n.z < pz, "ray goes away from the viewer", "%Lg then %Lg", pz, n.z); pz = n.z; ctx.count("ray_points"); }
    { P3 n = hom(mul(mvp, o)); CK(std::fabs((double)n.z - 1) <= (dbl ? 1e-6 : 2e-2), "ray starts on the near plane", "%Lg", n.z); }
    // a point of the scene lies on the ray of the pixel that shows it
    LD z = r.uni(-0.8, 0.8), sx = pars ? 1 - z : 1; P3 c{u * asp * h * sx, v * h * sx, z * depth}; P3 w{0, 0, 0}; { P3 cols[3]; P3 tr{V[3], V[7], V[11]}; P3 q = c - tr; for (int j = 0; j < 3; ++j) { cols[j] = {(LD)V[j], (LD)V[4 + j], (LD)V[8 + j]}; } w = {dot(cols[0], q), dot(cols[1], q), dot(cols[2], q)}; }
    P3 off = w - o; LD dist = len(off - dot(off, dr) * dr); CK((double)dist <= (dbl ? 1e-5 : 2e-3) * (double)(h * 3 + depth), "scene point on the ray of its pixel", "distance %Lg", dist); ctx.count("scene_points");
  }
  ctx.sig(vh::Hash().d(h).u(W).u(H).u(pars).d(mv.quaternion[0]).h); ctx.count(dbl ? "double" : "single");
}
VH_FAMILY(pixel_ray, 1200, 25000) { if (ctx.rng.chance(0.5)) ray_case<double>(ctx); else ray_case<float>(ctx); }

VH_FAMILY(cv_camera, 1200, 25000) {
  auto &r = ctx.rng; unsigned W = (unsigned)r.irange(2, 6000), H = (unsigned)r.irange(2, 6000); float sw = (float)r.uni(5, 50), fl = (float)r.uni(4, 200), K[9]; d::SetCameraInteriorMat(K, W, H, sw, fl);
  ctx.sig(vh::Hash().u(W).u(H).d(sw).d(fl).h);
  { // y up in the camera, looking to -z: centre of the sensor and scale
    LD z = -r.uni(0.5, 20), a = r.uni(-.5, .5), b = r.uni(-.5, .5); P3 p{-a * z * sw / fl, -b * z * sw / fl, z}; LD o[3]; for (int i = 0; i < 3; ++i) o[i] = K[3 * i] * p.x + K[3 * i + 1] * p.y + K[3 * i + 2] * p.z; double te = 1e-5 * (W + H);
    CK(std::fabs((double)(o[0] / o[2] - W * (0.5L + a))) <= te && std::fabs((double)(o[1] / o[2] - (H * 0.5L - W * b))) <= te, "interior matrix maps the sensor to the image", "%Lg %Lg", o[0] / o[2], o[1] / o[2]); ctx.count("interior"); }
  double f = r.uni(200, 5000), cx = r.uni(-50, 50), cy = r.uni(-50, 50); bool plain = r.chance(0.3); double k1 = plain ? 0 : r.uni(-.3, .3), k2 = plain ? 0 : r.uni(-.1, .1), k3 = plain ? 0 : r.uni(-.05, .05), q1 = plain ? 0 : r.uni(-.01, .01), q2 = plain ? 0 : r.uni(-.01, .01), pos[3], im[2]; pos[2] = r.uni(0.3, 30) * (r.chance(0.1) ? -1 : 1); pos[0] = pos[2] * r.uni(-1, 1); pos[1] = pos[2] * r.uni(-1, 1);
  d::ProjectionCameraWithCalibration<double>(im, pos, cx, cy, f, k1, k2, k3, q1, q2, W, H);
  { LD x = (LD)pos[0] / pos[2], y = (LD)pos[1] / pos[2], s = x * x + y * y, t = 1 + s * (k1 + s * (k2 + s * k3)); LD X = x * t + q1 * (s + 2 * x * x) + 2 * q2 * x * y, Y = y * t + q2 * (s + 2 * y * y) + 2 * q1 * x * y; CK(std::fabs((double)(im[0] - (W / 2.0L + cx + f * X))) <= 1e-9 * (f + W) && std::fabs((double)(im[1] - (H / 2.0L + cy + f * Y))) <= 1e-9 * (f + H), "lens distortion", "%g %g", im[0], im[1]); ctx.count("distorted"); }
  auto gi = d::Mat4_CameraInternal_MetashapePinhole((float)f, (float)cx, (float)cy, (float)W, (float)H); P3 ii = hom(mul(gi.data(), P3{pos[0], pos[1], pos[2]}));
  { double e0[2]; d::ProjectionCameraWithCalibration<double>(e0, pos, cx, cy, f, 0, 0, 0, 0, 0, W, H); CK(std::fabs((double)ii.x - e0[0]) <= 1e-5 * (f + W) && std::fabs((double)ii.y - e0[1]) <= 1e-5 * (f + H), "pinhole matrix is the camera without distortion", "%Lg %Lg, %g %g", ii.x, ii.y, e0[0], e0[1]); CK(std::fabs((double)ii.z - 1 / pos[2]) <= 1e-5 / std::fabs(pos[2]), "pinhole depth", ""); ctx.count("pinhole"); }
  { float zs = (float)r.uni(-2, 2); auto is = d::Mat4_Image2Screen((float)W, (float)H, zs); LD a = r.u01(), b = r.u01(), z = r.uni(-3, 3); P3 s = hom(mul(is.data(), P3{a * W, b * H, z})); CK(std::fabs((double)(s.x - (2 * a - 1))) <= 1e-5 && std::fabs((double)(s.y - (1 - 2 * b))) <= 1e-5 && std::fabs((double)(s.z - zs * z)) <= 1e-5, "image corners are the screen corners", "%Lg %Lg", s.x, s.y); ctx.count("image2screen"); }
  { double m[16], p[3], c[2], dc[2][3]; for (double &v : m) v = r.uni(-1, 1); for (double &v : p) v = r.uni(-1, 1); LD w = m[12] * p[0] + m[13] * p[1] + m[14] * p[2] + m[15]; if (std::fabs(w) > 0.3) { d::CdC_ScreenCoordinate<d::CVec3d>(c, dc, m, p); P3 n = hom(mul(m, p3(p))); CK(std::fabs((double)n.x - c[0]) <= 1e-12 * 40 && std::fabs((double)n.y - c[1]) <= 1e-12 * 40, "screen coordinate", ""); for (int j = 0; j < 3; ++j) { LD h = 1e-5; P3 a = p3(p), b = a; (j == 0 ? a.x : j == 1 ? a.y : a.z) += h; (j == 0 ? b.x : j == 1 ? b.y : b.z) -= h; P3 A = hom(mul(m, a)), B = hom(mul(m, b)); CK(std::fabs((double)((A.x - B.x) / (2 * h)) - dc[0][j]) <= 1e-6 && std::fabs((double)((A.y - B.y) / (2 * h)) - dc[1][j]) <= 1e-6, "derivative of the screen coordinate", "%d", j); } ctx.count("screen_derivative"); } }
}

VH_FAMILY(camera_file, 150, 2000) {
  auto &r = ctx.rng; int n = r.irange(0, 12); std::string path = vh::cfg().dir + "/cam" + std::to_string(getpid()) + ".txt"; std::vector<std::array<float, 21>> v((size_t)n); std::vector<std::string> nm; vh::Hash hs;
  { std::ofstream o(path); o.precision(9); o << n << "\n"; for (int i = 0; i < n; ++i) { std::string s; int l = r.irange(1, 31); if (r.chance(0.2)) l = 31; for (int k = 0; k < l; ++k) s += (char)('!' + r.irange(0, 93)); nm.push_back(s); hs.s(s); o << i << " " << s << "\n"; for (size_t k = 0; k < 21; ++k) { v[(size_t)i][k] = (float)(r.uni(-1, 1) * std::pow(10., r.uni(-6, 6))); o << v[(size_t)i][k] << (k % 3 == 2 ? "\n" : " "); } } }
  std::vector<d::CCvCamera> c((size_t)r.irange(0, 20)); bool ok = d::ReadCamera(c, path); CK(ok && (int)c.size() == n, "camera file is read", "%zu of %d", c.size(), n);
  if (ok && (int)c.size() == n) for (int i = 0; i < n; ++i) { auto &q = c[(size_t)i]; auto &w = v[(size_t)i]; bool g = nm[(size_t)i] == std::string(q.name, strnlen(q.name, 32)); for (size_t k = 0; k < 9; ++k) g = g && q.K[k] == w[k] && q.R[k] == w[12 + k]; for (size_t k = 0; k < 3; ++k) g = g && q.t[k] == w[9 + k]; CK(g, "camera read back", "camera %d", i); ctx.count("cameras_read"); }
  unlink(path.c_str()); std::vector<d::CCvCamera> c2; CK(!d::ReadCamera(c2, path), "missing camera file is refused", ""); ctx.count("missing"); ctx.sig(hs.u(n).h);
}

VH_FAMILY(metashape, 400, 8000) {
  auto &r = ctx.rng; d::MetashapeCamConfig cfg; int ns = r.irange(1, 3), nc = r.irange(1, 12); vh::Hash hs;
  for (int i = 0; i < ns; ++i) { d::MetashapeCamConfig::Sensor s; s.f = (float)r.uni(300, 4000); s.cx = (float)r.uni(-30, 30); s.cy = (float)r.uni(-30, 30); s.k1 = s.k2 = s.k3 = s.p1 = s.p2 = 0; s.width = (unsigned)r.irange(100, 5000); s.height = (unsigned)r.irange(100, 5000); cfg.aSensor.push_back(s); }
  std::vector<R3> Rs; for (int i = 0; i < nc; ++i) { d::MetashapeCamConfig::Camera c; c.id_sensor = r.irange(0, ns - 1); R3 R; bool axis = r.chance(0.25); if (axis) { int k = r.irange(0, 3); R.pre(P3{1, 0, 0}, k * M_PIl / 2); R.pre(P3{0, 1, 0}, r.irange(0, 3) * M_PIl / 2); if (r.chance(0.5)) R.pre(P3{0, 1, 0}, r.uni(0, 6)); } else R.pre(rdir(ctx), r.uni(-3, 3)); Rs.push_back(R); for (int a = 0; a < 3; ++a) { c.transform(0, a) = (float)R.c[a].x; c.transform(1, a) = (float)R.c[a].y; c.transform(2, a) = (float)R.c[a].z; c.transform(a, 3) = (float)r.uni(-5, 5); hs.d(c.transform(a, 3)); } c.has_transform = true; cfg.aCamera.push_back(c); }
  for (int i = 0; i < nc; ++i) { auto mm = d::CameraTransformationMVP(cfg, (unsigned)i); auto &cam = cfg.aCamera[(size_t)i]; auto &sn = cfg.aSensor[(size_t)cam.id_sensor]; CK(rigid_gap(mm.first.data()) <= 1e-4, "photograph view is rigid", "%g", rigid_gap(mm.first.data()));
    LD u = r.u01(), v = r.u01(), z = r.uni(0.5, 10); P3 pc{(u * sn.width - sn.width / 2.0L - sn.cx) / sn.f * z, (v * sn.height - sn.height / 2.0L - sn.cy) / sn.f * z, z}; P4 w = mul(cam.transform.data(), pc); P4 vw = mul(mm.first.data(), P3{w.x, w.y, w.z}); P3 s = hom(mul(mm.second.data(), P3{vw.x, vw.y, vw.z})); double te = 1e-4 * (1 + sn.f * 20.0 / std::min(sn.width, sn.height) * 0.05);
    CK(std::fabs((double)(s.x - (2 * u - 1))) <= te && std::fabs((double)(s.y - (1 - 2 * v))) <= te, "point seen at its place in the photograph", "%Lg %Lg should be %Lg %Lg", s.x, s.y, 2 * u - 1, 1 - 2 * v); CK(vw.z < 0, "points in front of the camera have negative z in the view", ""); ctx.count("photo_points"); }
  for (int i = 0; i < nc; ++i) { auto mm = d::CameraTransformationMVP(cfg, (unsigned)i); unsigned b = d::SnapCamera(mm.first, cfg); if (!CK(b < (unsigned)nc, "a view snaps to a camera", "camera %d of %d", i, nc)) continue; P3 di = -1 * Rs[(size_t)i].c[2], db = -1 * Rs[b].c[2]; LD ang = std::atan2(len(cross(di, db)), dot(di, db)); bool pole = std::fabs(di.y) > 0.999; if (!pole) { CK(ang <= 2e-3, "a camera's own view snaps to that camera", "view %d chose %u at angle %Lg", i, b, ang); ctx.count("snapped"); } else { CK(ang <= 0.1, "a vertical view snaps to a vertical camera", "view %d chose %u at angle %Lg", i, b, ang); ctx.count("snapped_vertical"); } }
  { // cameras without a sensor are skipped
    d::MetashapeCamConfig c2 = cfg; for (auto &c : c2.aCamera) c.id_sensor = r.chance(0.5) ? -1 : ns; CK(d::SnapCamera(d::CMat4f::Identity(), c2) == UINT_MAX, "no usable camera", ""); unsigned k = (unsigned)r.irange(0, nc - 1); c2.aCamera[k].id_sensor = 0; CK(d::SnapCamera(d::CMat4f::Identity(), c2) == k, "only usable camera", ""); ctx.count("skipped"); }
  ctx.sig(hs.h);
}

template <class T> static void transl_case(vh::Ctx &ctx) {
  auto &r = ctx.rng; using V = d::CVec3<T>; double e = sizeof(T) == 8 ? 1e-9 : 3e-4; d::CGizmo_Transl<T> g; g.size = (T)r.uni(0.3, 2); P3 pos{r.uni(-2, 2), r.uni(-2, 2), r.uni(-2, 2)}; g.pos = V((T)pos.x, (T)pos.y, (T)pos.z); ctx.sig(vh::Hash().d((double)pos.x).d(g.size).h);
  auto axis = [](int k) { return P3{(LD)(k == 0), (LD)(k == 1), (LD)(k == 2)}; }; auto arr = [](P3 p, T *o) { o[0] = (T)p.x; o[1] = (T)p.y; o[2] = (T)p.z; };
  auto seg_line = [&](P3 c, int k, P3 s, P3 dr) { LD best = 1e30; for (int i = -200; i <= 200; ++i) { P3 p = c + (i / 200.0L * g.size) * axis(k); P3 q = p - s; best = std::min(best, len(q - dot(q, dr) * dr)); } return best; };
  LD tol = 0.08 * g.size; int n = r.irange(1, 5);
  for (int s = 0; s < n; ++s) {
    pos = p3(g.pos.p); int k = r.irange(0, 2); P3 dr = rdir(ctx); LD t0 = r.uni(-0.95, 0.95) * g.size; P3 side = unit(cross(axis(k), dr)); LD off = r.chance(0.6) ? 0 : r.uni(-3, 3) * tol; P3 hit = pos + t0 * axis(k) + off * side; P3 src = hit - r.uni(2, 5) * dr; T a[3], b[3]; arr(src, a); arr(dr, b);
    LD ds[3]; int first = -1; bool clear = true; for (int j = 0; j < 3; ++j) { ds[j] = seg_line(pos, j, p3(a), unit(p3(b))); if (std::fabs(ds[j] - tol) < 0.02 * g.size) clear = false; if (first < 0 && ds[j] < tol) first = j; }
    bool par = false; for (int j = 0; j < 3; ++j) if (len(cross(axis(j), dr)) < 0.15) par = true; if (!clear || par) continue;
    g.Pick(true, a, b, (T)tol); CK((g.ielem_picked >= 0) == (first >= 0) && (g.ielem_picked < 0 || (g.ielem_picked < 3 && ds[g.ielem_picked] < tol)), "handle under the cursor is picked", "picked %d, distances %Lg %Lg %Lg, tolerance %Lg", g.ielem_picked, ds[0], ds[1], ds[2], tol); ctx.count(first >= 0 ? "handle_hit" : "handle_miss");
    if (g.ielem_picked < 0) { V p0 = g.pos; g.Drag(a, a, b); CK(p0.p[0] == g.pos.p[0] && p0.p[1] == g.pos.p[1] && p0.p[2] == g.pos.p[2], "nothing moves when nothing is picked", ""); continue; }
    // drag: the point of the axis under the first ray follows to the second ray
    k = g.ielem_picked; LD shift = r.uni(-2, 2), t1 = r.uni(-1, 1); P3 s0 = pos + t1 * axis(k) - 3 * dr, s1 = s0 + shift * axis(k) + r.uni(-1, 1) * unit(cross(axis(k), dr)) + r.uni(-1, 1) * dr; T c[3], f[3]; arr(s0, c); arr(s1, f); g.Drag(c, f, b); P3 ex = pos + shift * axis(k); ex = ex + dot(P3{0, 0, 0}, dr) * axis(k); { LD cs = dot(axis(k), dr); P3 rel = s1 - s0; LD sh = (dot(rel, axis(k)) - dot(rel, dr) * cs) / (1 - cs * cs); ex = pos + sh * axis(k); }
    double te = e * 20 / (double)(1 - dot(axis(k), dr) * dot(axis(k), dr)); CK(len(p3(g.pos.p) - ex) <= te, "dragging a handle moves along its axis with the cursor", "handle %d off %Lg", k, len(p3(g.pos.p) - ex)); ctx.count("dragged");
    T x[3]; arr(p3(c), x); g.Drag(f, x, b); CK(len(p3(g.pos.p) - pos) <= 2 * te, "dragging back returns", "off %Lg", len(p3(g.pos.p) - pos)); g.Drag(c, f, b);
    g.Pick(false, a, b, (T)tol); CK(g.ielem_picked == -1, "releasing lets go", "");
  }
}
VH_FAMILY(translation_gizmo, 800, 15000) { if (ctx.rng.chance(0.5)) transl_case<double>(ctx); else transl_case<float>(ctx); }

static P3 qrot(const double *q, P3 p) { P3 v{q[0], q[1], q[2]}; LD w = q[3]; return p + 2 * w * cross(v, p) + 2 * cross(v, cross(v, p)); }
template <class T> static void rot_case(vh::Ctx &ctx) {
  auto &r = ctx.rng; using V = d::CVec3<T>; double e = sizeof(T) == 8 ? 1e-9 : 1e-4; d::CGizmo_Rotation<T> g; g.size = (T)r.uni(0.3, 2); P3 pos{r.uni(-2, 2), r.uni(-2, 2), r.uni(-2, 2)}; g.pos = V((T)pos.x, (T)pos.y, (T)pos.z); pos = p3(g.pos.p); double q0[4]; if (r.chance(0.7)) { random_quat(ctx, q0); for (int i = 0; i < 4; ++i) g.quat[i] = (T)q0[i]; } ctx.sig(vh::Hash().d((double)pos.x).d(g.size).d((double)g.quat[0]).h);
  auto arr = [](P3 p, T *o) { o[0] = (T)p.x; o[1] = (T)p.y; o[2] = (T)p.z; }; LD tol = 0.08 * g.size; int n = r.irange(1, 5);
  for (int s = 0; s < n; ++s) {
    double q[4]; for (int i = 0; i < 4; ++i) q[i] = g.quat[i]; LD qn = std::sqrt((LD)q[0] * q[0] + (LD)q[1] * q[1] + (LD)q[2] * q[2] + (LD)q[3] * q[3]); CK(std::fabs((double)qn - 1) <= e * 10, "rotation stays a unit quaternion", "%Lg", qn);
    P3 ax[3], ex[3], ey[3]; for (int j = 0; j < 3; ++j) { ax[j] = qrot(q, P3{(LD)(j == 0), (LD)(j == 1), (LD)(j == 2)}); P3 h = std::fabs(ax[j].x) < 0.7 ? P3{1, 0, 0} : P3{0, 1, 0}; ex[j] = unit(cross(h, ax[j])); ey[j] = cross(ax[j], ex[j]); }
    auto cpt = [&](int j, LD t) { return pos + g.size * (std::cos(t) * ex[j] + std::sin(t) * ey[j]); };
    int k = r.irange(0, 2); P3 dr = rdir(ctx); bool par = false; for (int j = 0; j < 3; ++j) if (std::fabs(dot(ax[j], dr)) < 0.25) par = true; if (par) continue;
    LD t0 = r.uni(0, 2 * M_PI); P3 c0 = cpt(k, t0), src = c0 - r.uni(4, 7) * g.size * dr; if (r.chance(0.2)) src = src + r.uni(-2, 2) * g.size * unit(cross(dr, ax[k]));
    LD ds[3], dep[3]; bool clear = true; for (int j = 0; j < 3; ++j) { ds[j] = 1e30; for (int i = 0; i < 720; ++i) { P3 p = cpt(j, i * M_PIl / 360); P3 w = p - src; LD l = len(w - dot(w, dr) * dr); if (l < ds[j]) { ds[j] = l; dep[j] = dot(w, dr); } } }
    int best = -1; for (int j = 0; j < 3; ++j) { if (std::fabs(ds[j] - tol) < 0.05 * g.size) clear = false; if (ds[j] < tol && (best < 0 || dep[j] < dep[best])) best = j; } for (int j = 0; j < 3; ++j) if (best >= 0 && j != best && ds[j] < tol && dep[j] < dep[best] + 0.3 * g.size) clear = false;
    if (!clear) { ctx.count("ambiguous"); continue; }
    T a[3], b[3]; arr(src, a); arr(dr, b); g.Pick(true, a, b, (T)tol); CK(g.ielem_picked == best, "front handle under the cursor is picked", "picked %d expected %d, distances %Lg %Lg %Lg depths %Lg %Lg %Lg tolerance %Lg", g.ielem_picked, best, ds[0], ds[1], ds[2], dep[0], dep[1], dep[2], tol); ctx.count(best >= 0 ? "ring_hit" : "ring_miss");
    if constexpr (sizeof(T) == 8) { double m[16]; d::Mat4_AffineQuaternion(m, g.quat); m[3] = (double)pos.x; m[7] = (double)pos.y; m[11] = (double)pos.z; int k2 = d::PickHandlerRotation_Mat4(V(a), V(b), m, g.size, (double)tol); CK(k2 == best, "handle picked through a matrix", "%d expected %d", k2, best); }
    if (g.ielem_picked < 0) { T qq[4]; std::copy(g.quat, g.quat + 4, qq); g.Drag(a, a, b); CK(std::equal(qq, qq + 4, g.quat), "nothing turns when nothing is picked", ""); continue; }
    k = g.ielem_picked; LD th = r.uni(-3, 3); P3 u0 = cpt(k, t0), u1 = cpt(k, t0 + th); T s0[3], s1[3]; arr(u0 - 3 * dr, s0); arr(u1 - r.uni(2, 4) * dr, s1); g.Drag(s0, s1, b);
    double qn2[4]; for (int i = 0; i < 4; ++i) qn2[i] = g.quat[i]; double te = e * 60; for (int j = 0; j < 3; ++j) { P3 v = qrot(qn2, P3{(LD)(j == 0), (LD)(j == 1), (LD)(j == 2)}), ev = rot(ax[k], th, ax[j]); CK(len(v - ev) <= te, "dragging a ring turns about its axis with the cursor", "ring %d angle %Lg off %Lg", k, th, len(v - ev)); } CK((double)len(p3(g.pos.p) - pos) == 0, "turning keeps the position", ""); ctx.count("turned");
    g.Pick(false, a, b, (T)tol); CK(g.ielem_picked == -1, "releasing lets go", "");
  }
}
VH_FAMILY(rotation_gizmo, 800, 15000) { if (ctx.rng.chance(0.5)) rot_case<double>(ctx); else rot_case<float>(ctx); }

VH_FAMILY(affine_gizmo, 300, 5000) {
  auto &r = ctx.rng; d::CGizmo_Affine<float> g; P3 piv{r.uni(-2, 2), r.uni(-2, 2), r.uni(-2, 2)}, pos{r.uni(-2, 2), r.uni(-2, 2), r.uni(-2, 2)}; double q[4]; random_quat(ctx, q); ctx.sig(vh::Hash().d((double)piv.x).d(q[0]).h); auto V = [](P3 p) { return d::CVec3f((float)p.x, (float)p.y, (float)p.z); }; g.SetPivot(V(piv)); g.gizmo_trnsl.pos = V(pos); g.gizmo_rot.pos = V(pos); for (int i = 0; i < 4; ++i) g.gizmo_rot.quat[i] = (float)q[i];
  { d::CMat4f sq; sq.SetQuaternion(g.gizmo_rot.quat); P3 v = rdir(ctx); P4 w = mul(sq.data(), v); CK(len(P3{w.x, w.y, w.z} - qrot(q, v)) <= 1e-5, "matrix set from a quaternion", ""); }
  auto m = g.Affine(); CK(rigid_gap(m.data()) <= 1e-5, "gizmo transformation is rigid", ""); P4 c = mul(m.data(), piv); CK(len(P3{c.x, c.y, c.z} - pos) <= 2e-5, "pivot goes to the handle's position", "off %Lg", len(P3{c.x, c.y, c.z} - pos)); P3 v = rdir(ctx); P4 w = mul(m.data(), piv + v); CK(len(P3{w.x, w.y, w.z} - (pos + qrot(q, v))) <= 4e-5, "gizmo turns about the pivot", ""); ctx.count("affine");
  g.igizmo_mode = r.irange(-1, 1); P3 dr = unit(P3{r.uni(0.3, 1), r.uni(0.3, 1), r.uni(0.3, 1)}); P3 at = pos + 0.6L * P3{1, 0, 0}, s = at - 4 * dr, s2 = s + 0.5L * P3{1, 0, 0}; float a[3] = {(float)s.x, (float)s.y, (float)s.z}, b[3] = {(float)dr.x, (float)dr.y, (float)dr.z}, f[3] = {(float)s2.x, (float)s2.y, (float)s2.z}; g.Pick(a, b); auto q1 = g.gizmo_rot.quat[0]; g.Drag(a, f, b); P3 np = p3(g.gizmo_trnsl.pos.p);
  if (g.igizmo_mode == 0) { CK(len(np - (pos + 0.5L * P3{1, 0, 0})) <= 1e-3, "gizmo in translation mode moves", "off %Lg", len(np - pos)); CK(len(p3(g.gizmo_rot.pos.p) - np) == 0, "rings follow the arrows", ""); CK(g.gizmo_rot.quat[0] == q1, "translation mode does not turn", ""); } else CK(len(np - pos) <= 1e-6, "only translation mode moves", "");
  ctx.count("modes");
}

VH_FAMILY(screen_handles, 800, 15000) {
  auto &r = ctx.rng; bool pars = r.chance(0.5); d::ModelView_Trackball mv; for (int i = 0; i < 2; ++i) mv.Rot_Camera((float)r.uni(-2, 2), (float)r.uni(-2, 2)); d::Projection_LookOriginFromZplus pj(3.f, pars, (float)r.uni(20, 60)); auto V = mv.GetMatrix(), P = pj.GetMatrix((float)r.uni(0.6, 1.6)); double mvp[16]; { double a[16], b[16]; for (int i = 0; i < 16; ++i) { a[i] = P[i]; b[i] = V[i]; } d::MatMat4(mvp, a, b); }
  auto scr = [&](P3 p) { return hom(mul(mvp, p)); }; P3 p{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)}; auto V3 = [](P3 q) { return d::CVec3d((double)q.x, (double)q.y, (double)q.z); }; ctx.sig(vh::Hash().d((double)p.x).d(mv.quaternion[1]).u(pars).h); P3 sp = scr(p); double tol = r.uni(0.01, 0.1);
  { LD a = r.uni(0, 6.28), l = r.u01() * 2 * tol; d::CVec2d c((double)(sp.x + l * std::cos(a)), (double)(sp.y + l * std::sin(a))); if (std::fabs((double)l - tol) > 1e-4) { CK(d::isPickPoint(c, V3(p), V.data(), P.data(), tol) == (l < tol), "point under the cursor", "distance %Lg tolerance %g", l, tol); ctx.count("points"); } }
  P3 ax = rdir(ctx); LD L = r.uni(0.2, 1); P3 e0 = scr(p + L * ax), e1 = scr(p - L * ax); LD sl = std::hypot(e0.x - e1.x, e0.y - e1.y);
  if (sl > 0.1) {
    LD t = r.uni(-0.3, 1.3), o = r.uni(-2, 2) * tol; LD tx = (e1.x - e0.x) / sl, ty = (e1.y - e0.y) / sl; LD X = e0.x + t * sl * tx - o * ty, Y = e0.y + t * sl * ty + o * tx; LD tc = std::min((LD)1, std::max((LD)0, t)); LD dist = std::hypot((t - tc) * sl, o); if (std::fabs((double)dist - tol) > 1e-3) { CK(d::isPick_AxisHandler(d::CVec2d((double)X, (double)Y), V3(p), V3(ax), (double)L, V.data(), P.data(), tol) == (dist < tol), "axis handle under the cursor", "distance %Lg tolerance %g", dist, tol); ctx.count("axes"); }
    if (!pars) { LD s = r.uni(-1, 1); P3 w0 = scr(p), w1 = scr(p + s * ax); d::CVec2d c0((double)w0.x, (double)w0.y), c1((double)w1.x, (double)w1.y); auto mo = d::drag_AxisHandler(c0, c1, V3(p), V3(ax), (double)L, V.data(), P.data()); P3 mv3{mo.x, mo.y, mo.z}; LD al = dot(mv3, ax), te = 1e-3 / sl; CK(len(mv3 - al * ax) <= te && al * (s > 0 ? 1 : -1) >= 0.4L * std::fabs(s) - te && std::fabs(al) <= 1.05L * std::fabs(s) + te, "axis handle follows the cursor", "moved %Lg of %Lg", al, s); ctx.count("axis_drags"); }
  }
  { // ring handles: the axis of the ring is kept and the turn has the direction of the cursor
    double q[4], q0[4]; random_quat(ctx, q); std::copy(q, q + 4, q0); int k = r.irange(0, 2); P3 a0 = qrot(q0, P3{(LD)(k == 0), (LD)(k == 1), (LD)(k == 2)}); P3 va{(LD)V[8], (LD)V[9], (LD)V[10]}; LD face = dot(a0, va); LD c = std::fabs(face);
    LD al = r.uni(0, 6.28), th = r.uni(-0.4, 0.4), rr = r.uni(0.1, 0.5); d::CVec2d s0((double)(sp.x + rr * std::cos(al)), (double)(sp.y + rr * std::sin(al))), s1((double)(sp.x + rr * std::cos(al + th)), (double)(sp.y + rr * std::sin(al + th)));
    if (c > 0.3 && std::fabs(th) > 0.02) { for (int way = 0; way < 2; ++way) { double m[16]; std::copy(q0, q0 + 4, q); d::Mat4_AffineQuaternion(m, q); m[3] = (double)p.x; m[7] = (double)p.y; m[11] = (double)p.z; bool ok = way ? d::DragHandlerRot_Mat4(q, k, s0, s1, m, V.data(), P.data()) : d::DragHandlerRot_PosQuat(q, k, s0, s1, V3(p), V.data(), P.data()); CK(ok, "ring drag accepted", ""); P3 a1 = qrot(q, P3{(LD)(k == 0), (LD)(k == 1), (LD)(k == 2)}); CK((double)len(a1 - a0) <= 1e-5, way ? "ring of a matrix keeps its axis while dragged" : "ring keeps its axis while dragged", "off %Lg", len(a1 - a0)); int o = (k + 1) % 3; P3 f0 = qrot(q0, P3{(LD)(o == 0), (LD)(o == 1), (LD)(o == 2)}), f1 = qrot(q, P3{(LD)(o == 0), (LD)(o == 1), (LD)(o == 2)}); LD turn = std::atan2(dot(cross(f0, f1), a0), dot(f0, f1)); LD want = face > 0 ? th : -th; CK(turn * want > 0 && std::fabs(turn) <= std::fabs(th) * 1.05 && std::fabs(turn) >= std::fabs(th) * 0.3, way ? "ring of a matrix turns with the cursor" : "ring turns with the cursor", "turned %Lg for a cursor angle %Lg (axis %s the viewer)", turn, th, face > 0 ? "towards" : "away from"); ctx.count("ring_drags"); }
      CK(!d::DragHandlerRot_PosQuat(q, -1, s0, s1, V3(p), V.data(), P.data()) && !d::DragHandlerRot_PosQuat(q, 3, s0, s1, V3(p), V.data(), P.data()), "no ring, no turn", ""); }
    // rings under the cursor
    LD R = r.uni(0.3, 1); P3 h = std::fabs(a0.x) < 0.7 ? P3{1, 0, 0} : P3{0, 1, 0}, bx = unit(cross(h, a0)), by = cross(a0, bx); LD t = r.uni(0, 6.28); P3 w = scr(p + R * (std::cos(t) * bx + std::sin(t) * by)); LD X = w.x + r.uni(-2, 2) * tol, Y = w.y + r.uni(-2, 2) * tol, best = 1e9; for (int i = 0; i < 1440; ++i) { LD s = i * M_PIl / 720; P3 y = scr(p + R * (std::cos(s) * bx + std::sin(s) * by)); best = std::min(best, std::hypot(y.x - X, y.y - Y)); }
    if (std::fabs((double)best - tol) > 0.01) { CK(d::isPickCircle(d::CVec2d((double)X, (double)Y), V3(p), V3(a0), (double)R, V.data(), P.data(), tol) == (best < tol), "ring under the cursor", "distance %Lg tolerance %g", best, tol); ctx.count("rings"); }
    if (c > 0.3) { LD tt = 0.05, roff = R + r.uni(-3, 3) * tt; P3 on = p + roff * (std::cos(t) * bx + std::sin(t) * by); P3 src = on - 4 * unit(-1 * va); P3 dr = unit(-1 * va); if (std::fabs((double)(std::fabs(roff - R) - tt)) > 1e-6) { CK(d::isPickCircle(V3(a0), V3(p), (double)R, V3(src), V3(dr), (double)tt) == (std::fabs(roff - R) < tt), "ring hit by a ray in its plane", ""); ctx.count("ring_rays"); } }
  }
  { // quads: inside and facing the viewer
    P3 u = rdir(ctx), v0 = rdir(ctx); P3 nn = cross(u, v0); if (len(nn) > 0.4) { P3 v = unit(cross(unit(nn), u)); LD a = r.uni(0.3, 1), b = r.uni(0.3, 1); P3 c[4] = {p, p + a * u, p + a * u + b * v, p + b * v}; P3 n = unit(cross(u, v)); P3 view{-(LD)V[8], -(LD)V[9], -(LD)V[10]}; P3 s[4]; for (int i = 0; i < 4; ++i) s[i] = scr(c[i]); LD fa = r.uni(-0.4, 1.4), fb = r.uni(-0.4, 1.4); P3 at = scr(p + fa * a * u + fb * b * v); bool in = fa > 0 && fa < 1 && fb > 0 && fb < 1; LD marg = std::min(std::min(std::fabs(fa), std::fabs(1 - fa)), std::min(std::fabs(fb), std::fabs(1 - fb))); LD face = dot(n, view); LD area = 0; for (int i = 0; i < 4; ++i) area += s[i].x * s[(i + 1) % 4].y - s[i].y * s[(i + 1) % 4].x; if (marg > 0.08 && std::fabs(face) > 0.2 && std::fabs(area) > 0.01) { bool got = d::isPickQuad(V3(c[0]), V3(c[1]), V3(c[2]), V3(c[3]), d::CVec2d((double)at.x, (double)at.y), V3(view), V.data(), P.data(), 1e-3); CK(got == (in && face < 0), "quad facing the viewer under the cursor", "inside %d facing %Lg", (int)in, face); ctx.count(in && face < 0 ? "quad_hit" : "quad_miss"); } }
  }
}
