// C30: random samples, special functions, noise, colours.
#include "../lib/vh.h"
#include <cmath>
#include <cstdlib>
#include <climits>
#include <complex>
#include <functional>
#include <tuple>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include "delfem2/sampling.h"
#include "delfem2/sampler_trimesh.h"
#include "delfem2/sampler_lloyd2.h"
#include "delfem2/specialfuncs.h"
#include "delfem2/noise.h"
#include "delfem2/color.h"
#include "delfem2/colormap.h"
namespace dfm2 = delfem2;

using Seed = std::array<unsigned short, 3>;
static Seed rnd_seed(vh::Ctx &ctx) { Seed s; for (auto &x: s) { x = (unsigned short) (ctx.rng.chance(0.15) ? ctx.rng.pick({0, 65535}) : ctx.rng.irange(0, 65535)); } return s; }
// distribution of values in [0,1): counts in equal bins; deviations far beyond chance only (the seeds are fixed by the run)
static void uniform(vh::Ctx &ctx, const std::vector<double> &u, int nb, const char *what) {
  std::vector<double> c((size_t) nb, 0.0);
  for (double v: u) { if (!CK(v >= -1e-9 && v <= 1 + 1e-9, what, "value %g outside the domain", v)) { return; } c[(size_t) std::min(nb - 1, std::max(0, (int) (v * nb)))] += 1; }
  double e = (double) u.size() / nb, x2 = 0;
  for (double v: c) { x2 += (v - e) * (v - e) / e; }
  double lim = nb - 1 + 9 * std::sqrt(2.0 * (nb - 1)) + 30;
  CK(x2 < lim, what, "chi-square %g of %d bins, %zu samples", x2, nb, u.size());
  ctx.count("distributions"); ctx.count("samples", (long) u.size());
}
VH_FAMILY(generator, 400, 20000) {
  Seed a = rnd_seed(ctx), b = a;
  unsigned short g[3] = {a[0], a[1], a[2]};
  int n = ctx.rng.irange(1, 200);
  for (int i = 0; i < n; ++i) {
    double v = dfm2::MyERand48<double>(a), r = erand48(g);
    if (!CK(v == r && a[0] == g[0] && a[1] == g[1] && a[2] == g[2], "48-bit generator follows its recurrence", "step %d: %.17g vs %.17g", i, v, r)) { return; }
    CK(v >= 0 && v < 1, "random value in [0,1)", "%g", v);
    float f = dfm2::MyERand48<float>(b);
    CK(b == a && f >= 0 && f <= 1 && std::fabs(f - v) < 1e-6, "single and double precision follow the same sequence", "%g %g", (double) f, v);
    ctx.count("generator_steps");
  }
  Seed s = a, t = a;
  std::array<double, 2> p = dfm2::RandomVec2<double>(s);
  double q0 = dfm2::MyERand48<double>(t), q1 = dfm2::MyERand48<double>(t);
  CK(p[0] == q0 && p[1] == q1, "random pair is two draws in order", "");
  ctx.sig(vh::Hash().u(a[0]).u(a[1]).u(a[2]).h);
}
VH_FAMILY(domains, 300, 10000) {  // every sample in its domain and where the inverse of its distribution puts it
  Seed a = rnd_seed(ctx);
  for (int i = 0; i < 40; ++i) {
    Seed b = a;
    double r1 = 2 * dfm2::MyERand48<double>(b), t = dfm2::SampleTent<double>(a);
    CK(t >= -1 && t <= 1, "tent sample in [-1,1]", "%g", t);
    double cdf = t < 0 ? (1 + t) * (1 + t) / 2 : 1 - (1 - t) * (1 - t) / 2;
    CKN(cdf, r1 / 2, 1e-9, "tent sample inverts its distribution", "");
    std::array<double, 2> v = {ctx.rng.chance(0.1) ? ctx.rng.pick({0.0, 1.0, 1e-16}) : ctx.rng.u01(), ctx.rng.u01()};
    auto hu = dfm2::SampleHemisphereZupUniform<double>(v), hc = dfm2::SampleHemisphereZupCos<double>(v);
    CKN(hu[0] * hu[0] + hu[1] * hu[1] + hu[2] * hu[2], 1.0, 1e-12, "uniform hemisphere sample is a unit vector", "");
    CKN(hc[0] * hc[0] + hc[1] * hc[1] + hc[2] * hc[2], 1.0, 1e-12, "cosine hemisphere sample is a unit vector", "");
    CKN(hu[2], v[0], 1e-12, "uniform over the hemisphere: height", ""); CKN(hc[2] * hc[2], v[0], 1e-12, "cosine distribution over the hemisphere: squared height", "");
    for (auto &h: {hu, hc}) {
      if (h[2] > 1 - 1e-9) { continue; }
      double ph = std::atan2(h[1], h[0]) / (2 * M_PI) - v[1];
      CKN(ph - std::round(ph), 0.0, 1e-7, "azimuth of a hemisphere sample", "");
    }
    double n[3], l = 0;
    for (double &x: n) { x = ctx.rng.gauss(); l += x * x; }
    if (ctx.rng.chance(0.2)) { n[0] = n[1] = n[2] = 0; n[ctx.rng.irange(0, 2)] = ctx.rng.pick({1.0, -1.0}); l = 1; }
    dfm2::CVec3d N(n[0] / std::sqrt(l), n[1] / std::sqrt(l), n[2] / std::sqrt(l));
    dfm2::CVec3d s = dfm2::SampleHemisphereNormalCos(N, v);
    CKN(s.norm(), 1.0, 1e-12, "sample about a normal is a unit vector", "");
    CKN(s.dot(N), hc[2], 1e-9, "sample about a normal keeps its angle to the normal", "");
    std::array<float, 2> vf = {(float) v[0], (float) v[1]};
    auto hf = dfm2::SampleHemisphereZupUniform<float>(vf);
    CKN((double) (hf[0] * hf[0] + hf[1] * hf[1] + hf[2] * hf[2]), 1.0, 1e-5, "uniform hemisphere sample is a unit vector (float)", "");
    ctx.count("hemisphere_samples");
  }
  double mag = ctx.rng.uni(-3, 3), off = ctx.rng.uni(-3, 3), lo = ctx.rng.uni(-2, 0), hi = ctx.rng.uni(0.1, 2);
  std::mt19937 e1((unsigned) ctx.rng.irange(0, 1 << 30)), e2 = e1, e3 = e1;
  std::uniform_real_distribution<double> d1(lo, hi), d2(lo, hi), d3(lo, hi);
  auto rv = dfm2::RandomVec<6, double>(d1, e1, mag, off);
  double A[2][3];
  dfm2::Fill2dArrayWithRandomValue<2, 3, double>(A, d2, e2, mag, off);
  for (int i = 0; i < 6; ++i) { double w = mag * d3(e3) + off; CK(rv[(size_t) i] == w && A[i / 3][i % 3] == w, "random arrays are scaled and shifted draws in order", "%d", i); }
  ctx.sig(vh::Hash().u(a[0]).u(a[1]).u(a[2]).d(mag).h);
}
VH_FAMILY(statistics, 24, 400) {
  const int n = 20000;
  Seed a = rnd_seed(ctx);
  std::mt19937 e((unsigned) ctx.rng.irange(0, 1 << 30));
  std::vector<double> u, cz, ph, g[3], r2, corr;
  dfm2::CVec3d N(ctx.rng.gauss(), ctx.rng.gauss(), ctx.rng.gauss()); N.normalize();
  for (int i = 0; i < n; ++i) {
    auto v = dfm2::RandomVec2<double>(a);
    u.push_back(v[0]);
    dfm2::CVec3d s = dfm2::SampleHemisphereNormalCos(N, v);
    cz.push_back(s.dot(N) * s.dot(N));
    dfm2::CVec3d X = std::fabs(N.x) > 0.5 ? dfm2::CVec3d(0, 1, 0) : dfm2::CVec3d(1, 0, 0);
    dfm2::CVec3d U = X - N * X.dot(N); U.normalize();
    dfm2::CVec3d V = N.cross(U);
    ph.push_back(std::atan2(s.dot(V), s.dot(U)) / (2 * M_PI) + 0.5);
    auto w = dfm2::RandGaussVec3<double>(e);
    for (size_t k = 0; k < 3; ++k) { g[k].push_back(0.5 * std::erfc(-w[k] / std::sqrt(2.0))); }
    r2.push_back(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]);
    corr.push_back(w[0] * w[1] + w[1] * w[2] + w[2] * w[0]);
  }
  uniform(ctx, u, 40, "uniform random values");
  uniform(ctx, cz, 40, "cosine distribution about a normal");
  uniform(ctx, ph, 36, "azimuths about a normal are uniform");
  for (size_t k = 0; k < 3; ++k) { uniform(ctx, g[k], 40, "normally distributed components"); }
  double m = 0, c = 0; for (double v: r2) { m += v / n; } for (double v: corr) { c += v / n; }
  CKN(m, 3.0, 0.2, "variance of the normal vector", ""); CKN(c, 0.0, 0.12, "components of the normal vector are uncorrelated", "");
  ctx.sig(vh::Hash().vd(r2).h);
}
VH_FAMILY(mesh_samples, 60, 1200) {
  int nx = ctx.rng.irange(1, 6), ny = ctx.rng.irange(1, 4);
  std::vector<double> X; std::vector<unsigned> T;
  for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) { X.insert(X.end(), {i * i * 0.7 + ctx.rng.uni(-0.2, 0.2), j + ctx.rng.uni(-0.3, 0.3), ctx.rng.uni(-1, 1)}); }
  for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) { unsigned p = (unsigned) (j * (nx + 1) + i), q = p + 1, r = p + (unsigned) nx + 1, s = r + 1; T.insert(T.end(), {p, q, s, p, s, r}); }
  if (ctx.rng.chance(0.3)) { unsigned k = (unsigned) ctx.rng.irange(0, (int) (T.size() / 3)); T.insert(T.begin() + k * 3, {1u, 0u, 1u}); ctx.count("degenerate_triangle"); }
  size_t nt = T.size() / 3;
  std::vector<char> on(nt, 1);
  bool sel = ctx.rng.chance(0.5);
  if (sel) { for (auto &c: on) { c = ctx.rng.chance(0.6); } on[(size_t) ctx.rng.irange(0, (int) nt - 1)] = 1; }
  std::vector<double> A(nt); double tot = 0;
  for (size_t t = 0; t < nt; ++t) {
    const double *a = &X[T[t * 3] * 3], *b = &X[T[t * 3 + 1] * 3], *c = &X[T[t * 3 + 2] * 3];
    double u[3], v[3]; for (int k = 0; k < 3; ++k) { u[k] = b[k] - a[k]; v[k] = c[k] - a[k]; }
    double x = u[1] * v[2] - u[2] * v[1], y = u[2] * v[0] - u[0] * v[2], z = u[0] * v[1] - u[1] * v[0];
    A[t] = on[t] ? 0.5 * std::sqrt(x * x + y * y + z * z) : 0; tot += A[t];
  }
  if (tot < 1e-6) { return; }
  const int n = 6000;
  dfm2::RandomSamplingOnMeshTri3 s0(X, T);
  dfm2::RandomSamplingOnMeshTri3Selective s1(X, T, [&](unsigned t) { return on[t] != 0; });
  unsigned seed = (unsigned) ctx.rng.irange(0, 1 << 30);
  s0.rndeng.seed(seed); s1.rndeng.seed(seed);
  std::vector<double> cnt(nt, 0.0), w0, w1, w2;
  for (int i = 0; i < n; ++i) {
    auto q = sel ? s1.Sample() : s0.Sample();
    unsigned t = std::get<0>(q); double a = std::get<1>(q), b = std::get<2>(q);
    if (!CK(t < nt && on[t], "sampled triangle is one of the chosen ones", "%u", t)) { return; }
    if (!CK(a >= -1e-9 && b >= -1e-9 && a + b <= 1 + 1e-9, "sample lies inside its triangle", "%g %g", a, b)) { return; }
    cnt[t] += 1;
    double w[3] = {a, b, 1 - a - b};
    w0.push_back(1 - (1 - w[0]) * (1 - w[0])); w1.push_back(1 - (1 - w[1]) * (1 - w[1])); w2.push_back(1 - (1 - w[2]) * (1 - w[2]));
  }
  double x2 = 0; int nb = 0;
  for (size_t t = 0; t < nt; ++t) {
    double e = n * A[t] / tot;
    if (A[t] <= 0) { CK(cnt[t] == 0, "triangles without area are never sampled", "%zu", t); continue; }
    if (e > 5) { x2 += (cnt[t] - e) * (cnt[t] - e) / e; ++nb; }
    else { CK(cnt[t] < 40, "triangles are sampled by area", "%g of %g expected", cnt[t], e); }
  }
  CK(x2 < nb + 9 * std::sqrt(2.0 * nb) + 30, "triangles are sampled by area", "chi-square %g of %d triangles", x2, nb);
  uniform(ctx, w0, 20, "uniform inside the triangle (first coordinate)"); uniform(ctx, w1, 20, "uniform inside the triangle (second coordinate)"); uniform(ctx, w2, 20, "uniform inside the triangle (third coordinate)");
  ctx.count(sel ? "selective_mesh_samples" : "whole_mesh_samples", n);
  ctx.sig(vh::Hash().vd(cnt).h);
}
VH_FAMILY(lloyd, 120, 2500) {
  unsigned nd = (unsigned) ctx.rng.irange(1, 24), np = (unsigned) ctx.rng.irange(1, 12);
  double sc = ctx.rng.pick({0.01, 1.0, 50.0});
  double lo[2] = {ctx.rng.uni(-3, 3), ctx.rng.uni(-3, 3)}, hi[2] = {lo[0] + sc * ctx.rng.uni(0.2, 2), lo[1] + sc * ctx.rng.uni(0.2, 2)};
  std::vector<double> X(np * 2), D(nd * nd);
  for (unsigned i = 0; i < np; ++i) { for (unsigned k = 0; k < 2; ++k) { X[i * 2 + k] = ctx.rng.uni(lo[k], hi[k]); } }
  bool zeros = ctx.rng.chance(0.5);
  for (double &d: D) { d = zeros && ctx.rng.chance(0.6) ? 0.0 : ctx.rng.u01(); }
  for (int it = 0; it < 3; ++it) {
    std::vector<double> w(np, 0.0), sx(np, 0.0), sy(np, 0.0);
    bool tie = false; double cost0 = 0;
    for (unsigned h = 0; h < nd; ++h) for (unsigned q = 0; q < nd; ++q) {
      double x = lo[0] + (hi[0] - lo[0]) * (q + 0.5) / nd, y = lo[1] + (hi[1] - lo[1]) * (1 - (h + 0.5) / nd);
      double b = 1e300, b2 = 1e300; unsigned k = 0;
      for (unsigned i = 0; i < np; ++i) { double d = (x - X[i * 2]) * (x - X[i * 2]) + (y - X[i * 2 + 1]) * (y - X[i * 2 + 1]); if (d < b) { b2 = b; b = d; k = i; } else { b2 = std::min(b2, d); } }
      if (b2 - b < 1e-9 * sc * sc) { tie = true; }
      double W = D[h * nd + q]; w[k] += W; sx[k] += W * x; sy[k] += W * y; cost0 += W * b;
    }
    std::vector<double> Y = X;
    dfm2::Step_Lloyd2(Y, nd, D, lo, hi);
    double cost1 = 0;
    for (unsigned h = 0; h < nd; ++h) for (unsigned q = 0; q < nd; ++q) {
      double x = lo[0] + (hi[0] - lo[0]) * (q + 0.5) / nd, y = lo[1] + (hi[1] - lo[1]) * (1 - (h + 0.5) / nd), b = 1e300;
      for (unsigned i = 0; i < np; ++i) { b = std::min(b, (x - Y[i * 2]) * (x - Y[i * 2]) + (y - Y[i * 2 + 1]) * (y - Y[i * 2 + 1])); }
      cost1 += D[h * nd + q] * b;
    }
    CK(cost1 <= cost0 * (1 + 1e-9) + 1e-9 * sc * sc, "a step does not increase the weighted squared distance to the nearest point", "%g -> %g", cost0, cost1);
    for (unsigned i = 0; i < np; ++i) {
      for (unsigned k = 0; k < 2; ++k) {
        CK(Y[i * 2 + k] >= lo[k] - 1e-9 && Y[i * 2 + k] <= hi[k] + 1e-9, "points stay in the domain", "point %u: %g not in [%g,%g]", i, Y[i * 2 + k], lo[k], hi[k]);
        if (!tie && w[i] > 1e-6) { CKN(Y[i * 2 + k], (k ? sy[i] : sx[i]) / w[i], 1e-6 * (sc + 3), "each point moves to the weighted centre of its cell", "point %u", i); }
      }
      ctx.count(w[i] > 0 ? "cells" : "cells_without_importance");
    }
    X = Y;
  }
  ctx.sig(vh::Hash().vd(X).h);
}

VH_FAMILY(special_functions, 300, 8000) {
  double p[3], l = 0;
  for (double &v: p) { v = ctx.rng.gauss(); l += v * v; }
  for (double &v: p) { v /= std::sqrt(l); }
  if (ctx.rng.chance(0.15)) { p[0] = p[1] = p[2] = 0; p[ctx.rng.irange(0, 2)] = ctx.rng.pick({1.0, -1.0}); }
  int n = ctx.rng.irange(0, 9);
  std::vector<double> Y((size_t) (n + 1) * (size_t) (n + 1), 77.0);
  dfm2::makeArray_SphericalHarmonics(Y.data(), n, p[0], p[1], p[2]);
  double th = std::acos(std::max(-1.0, std::min(1.0, p[2]))), ph = std::atan2(p[1], p[0]);
  for (int L = 0; L <= n; ++L) {
    double sum = 0;
    for (int m = -L; m <= L; ++m) {
      int a = std::abs(m);
      double leg = 0;  // associated Legendre by recurrence
      { double x = p[2], s = std::sqrt(std::max(0.0, 1 - x * x)), pmm = 1; for (int k = 1; k <= a; ++k) { pmm *= -(2 * k - 1) * s; }
        double p0 = pmm, p1 = x * (2 * a + 1) * pmm; if (L == a) { leg = p0; } else { for (int k = a + 2; k <= L; ++k) { double t = ((2 * k - 1) * x * p1 - (k + a - 1) * p0) / (k - a); p0 = p1; p1 = t; } leg = p1; } }
      double f = (2 * L + 1) / (4 * M_PI); for (int k = L - a + 1; k <= L + a; ++k) { f /= k; }
      double r = std::sqrt(f) * leg * (m < 0 ? std::sin(a * ph) : std::cos(a * ph));
      double y = Y[(size_t) (L * (L + 1) + m)];
      CKN(y, r, 2e-8, "real and imaginary parts of the spherical harmonics", "degree %d order %d at (%g %g %g)", L, m, p[0], p[1], p[2]);
      sum += (m ? 2 : 1) * y * y;
      ctx.count("harmonics");
    }
    (void) th;
    CKN(sum, (2 * L + 1) / (4 * M_PI), 1e-8, "addition theorem", "degree %d", L);
  }
  // Legendre
  double x = ctx.rng.chance(0.1) ? ctx.rng.pick({-1.0, 0.0, 1.0}) : ctx.rng.uni(-1, 1);
  int nl = ctx.rng.irange(0, 8);
  std::vector<double> P((size_t) nl + 1, 77.0);
  dfm2::makeArray_Legendre(nl, P.data(), x);
  for (int k = 0; k <= nl; ++k) {
    double r = k == 0 ? 1 : k == 1 ? x : ((2 * k - 1) * x * P[(size_t) k - 1] - (k - 1) * P[(size_t) k - 2]) / k;
    CKN(P[(size_t) k], r, 1e-11, "Legendre recurrence", "degree %d at %g", k, x); ctx.count("legendre");
  }
  int na = ctx.rng.irange(0, 3);
  std::vector<double> Q((size_t) (na + 1) * (size_t) (na + 1), 77.0);
  dfm2::makeArrayAssociatedLegendre(na, Q.data(), x);
  for (int L = 0; L <= na; ++L) for (int m = 0; m <= L; ++m) {
    double s = std::sqrt(std::max(0.0, 1 - x * x)), pmm = 1; for (int k = 1; k <= m; ++k) { pmm *= -(2 * k - 1) * s; }
    double p0 = pmm, p1 = x * (2 * m + 1) * pmm, leg = p0; if (L > m) { for (int k = m + 2; k <= L; ++k) { double t = ((2 * k - 1) * x * p1 - (k + m - 1) * p0) / (k - m); p0 = p1; p1 = t; } leg = p1; }
    CKN(Q[(size_t) (L * (L + 1) + m)], leg, 1e-11, "associated Legendre functions", "degree %d order %d", L, m);
    CKN(Q[(size_t) (L * (L + 1) - m)], (m % 2 ? -1 : 1) * leg, 1e-11, "associated Legendre functions of negative order", "degree %d order %d", L, -m);
  }
  // spherical Hankel functions of the first kind
  double z = ctx.rng.chance(0.3) ? ctx.rng.uni(0.2, 2) : ctx.rng.uni(1, 60);
  int nh = ctx.rng.irange(0, 8);
  std::vector<std::complex<double>> h((size_t) nh + 1, 77.0), c((size_t) nh + 1, 77.0);
  dfm2::makeArray_SphericalHankelFirst(nh, h.data(), z);
  dfm2::makeArray_CoeffSphericalHankelFirst(nh, c.data(), z);
  std::complex<double> h0 = std::complex<double>(std::sin(z), -std::cos(z)) / z, h1(std::sin(z) / z / z - std::cos(z) / z, -std::cos(z) / z / z - std::sin(z) / z);
  std::vector<std::complex<double>> R{h0, h1};
  for (int k = 2; k <= nh; ++k) { R.push_back(R[(size_t) k - 1] * ((2 * k - 1) / z) - R[(size_t) k - 2]); }
  for (int k = 0; k <= nh; ++k) {
    CKN(std::abs(h[(size_t) k] - R[(size_t) k]), 0.0, 1e-8 * std::abs(R[(size_t) k]), "spherical Hankel recurrence", "order %d at %g", k, z);
    CKN(std::abs(c[(size_t) k] * std::exp(std::complex<double>(0, z)) / z - h[(size_t) k]), 0.0, 1e-9 * std::abs(h[(size_t) k]), "Hankel coefficients", "order %d", k);
    ctx.count("hankel");
  }
  ctx.sig(vh::Hash().d(p[0]).d(p[1]).d(x).d(z).h);
}

VH_FAMILY(noise, 150, 3000) {
  int np = ctx.rng.irange(1, 40), noct = ctx.rng.irange(1, 6);
  double per = ctx.rng.uni(0.1, 1.2), bound = 0, m = 1;
  bool oct = ctx.rng.chance(0.5);
  std::vector<double> G2, G3; double gm = 0;
  for (int i = ctx.rng.irange(1, 12); i > 0; --i) { double a[3]; for (double &v: a) { v = ctx.rng.uni(-1, 1); } G2.insert(G2.end(), {a[0], a[1]}); G3.insert(G3.end(), {a[0], a[1], a[2]}); gm = std::max(gm, std::fabs(a[0]) + std::fabs(a[1]) + std::fabs(a[2])); }
  std::vector<int> P(256);
  for (int i = 0; i < 256; ++i) { P[(size_t) i] = i; }
  srand((unsigned) ctx.rng.irange(0, 1 << 30));
  dfm2::Shuffle(P);
  std::vector<int> S = P; std::sort(S.begin(), S.end());
  for (int i = 0; i < 256; ++i) { CK(S[(size_t) i] == i, "shuffling permutes", "%d", i); }
  P.resize(512);
  for (size_t i = 0; i < 256; ++i) { P[256 + i] = P[i]; }
  for (int k = 0; k < (oct ? noct : 1); ++k) { bound += m; m *= per; }
  bound *= gm;
  auto f2 = [&](double x, double y) { return oct ? dfm2::noise_perlin_2d_oct(x, y, np, noct, per, G2, P) : dfm2::noise_perlin_2d(x, y, np, G2, P); };
  auto f3 = [&](double x, double y, double z) { return oct ? dfm2::noise_perlin_3d_oct(x, y, z, np, noct, per, G3, P) : dfm2::noise_perlin_3d(x, y, z, np, G3, P); };
  double scale = oct ? 64 : 1;
  for (int i = 0; i < 30; ++i) {
    double x[3]; for (double &v: x) { v = ctx.rng.uni(0, np); if (ctx.rng.chance(0.3)) { v = std::floor(v) + (ctx.rng.chance(0.5) ? 0 : 0.5); } }
    double v2 = f2(x[0], x[1]), v3 = f3(x[0], x[1], x[2]);
    CK(std::fabs(v2) <= bound + 1e-9 && std::fabs(v3) <= bound + 1e-9, "noise stays in its range", "%g %g beyond %g", v2, v3, bound);
    double e = 1e-7, lip = 40 * bound * scale * e * 3 + 1e-9;  // continuity, also across the lattice
    for (int k = 0; k < 3; ++k) {
      double y[3] = {x[0], x[1], x[2]}; y[k] = x[k] > e ? x[k] - e : x[k] + e;
      CKN(f3(y[0], y[1], y[2]), v3, lip, "3D noise is continuous", "at %g %g %g axis %d", x[0], x[1], x[2], k);
      if (k < 2) { CKN(f2(y[0], y[1]), v2, lip, "2D noise is continuous", "at %g %g axis %d", x[0], x[1], k); }
    }
    int a = ctx.rng.irange(0, 2), b = a % 2;
    double y[3] = {x[0], x[1], x[2]}, z[3] = {x[0], x[1], x[2]};
    y[a] += np; z[b] += np;
    CKN(f3(y[0], y[1], y[2]), v3, 1e-6 * (1 + bound * scale), "3D noise is periodic", "axis %d period %d", a, np);
    CKN(f2(z[0], z[1]), v2, 1e-6 * (1 + bound * scale), "2D noise is periodic", "axis %d period %d", b, np);
    if (!oct && x[0] == std::floor(x[0]) && x[1] == std::floor(x[1])) { CKN(v2, 0.0, 1e-12, "gradient noise vanishes on the lattice", ""); ctx.count("lattice_points"); }
    ctx.count("noise_values");
  }
  unsigned W = (unsigned) ctx.rng.irange(1, 20), H = (unsigned) ctx.rng.irange(1, 20);
  std::vector<double> V(3, 5.0);
  int rep = ctx.rng.irange(1, 20);
  dfm2::ComputePerlin(V, W, H, rep, noct, per);
  double bi = 0; m = 1; for (int k = 0; k < noct; ++k) { bi += 2 * m; m *= per; }
  if (CK(V.size() == W * H, "size of the noise image", "%zu", V.size())) { for (double v: V) { CK(std::fabs(v) <= bi + 1e-9, "noise image stays in its range", "%g", v); } }
  if (rep << (noct - 1) > 256) { ctx.count("period_longer_than_table"); }
  ctx.sig(vh::Hash().vd(V).d(per).h);
}

template <size_t N> static void table(vh::Ctx &ctx, const std::tuple<double, double, double> (&t)[N], bool smooth, const char *nm) {
  for (size_t i = 0; i < N; ++i) {
    double c[3] = {std::get<0>(t[i]), std::get<1>(t[i]), std::get<2>(t[i])};
    for (double v: c) { CK(v >= 0 && v <= 1, "colour tables stay in range", "%s entry %zu", nm, i); }
    if (smooth && i) { double d[3] = {std::get<0>(t[i - 1]), std::get<1>(t[i - 1]), std::get<2>(t[i - 1])}; for (int k = 0; k < 3; ++k) { CK(std::fabs(c[k] - d[k]) < 0.04, "colour tables are gradual", "%s entry %zu", nm, i); } }
    ctx.count("table_entries");
  }
}
VH_FAMILY(colour, 250, 6000) {
  if (ctx.icase == 0) {
    table(ctx, dfm2::colormap_parula<double>, true, "parula"); table(ctx, dfm2::colormap_turbo<double>, true, "turbo"); table(ctx, dfm2::colormap_magma<double>, true, "magma"); table(ctx, dfm2::colormap_inferno<double>, true, "inferno");
    table(ctx, dfm2::colormap_plasma<double>, true, "plasma"); table(ctx, dfm2::colormap_viridis<double>, true, "viridis"); table(ctx, dfm2::colormap_cividis<double>, true, "cividis");
    table(ctx, dfm2::colormap_heat<double>, false, "heat"); table(ctx, dfm2::colormap_jet<double>, false, "jet"); table(ctx, dfm2::colormap_github<double>, false, "github"); table(ctx, dfm2::colormap_hot<double>, false, "hot");
  }
  for (int i = 0; i < 30; ++i) {  // hue, saturation, value
    double h = ctx.rng.chance(0.25) ? ctx.rng.irange(0, 6) / 6.0 : ctx.rng.u01(), s = ctx.rng.chance(0.2) ? ctx.rng.pick({0.0, 1.0}) : ctx.rng.u01(), v = ctx.rng.chance(0.1) ? 0.0 : ctx.rng.u01();
    double r, g, b; float rf, gf, bf;
    dfm2::GetRGB_HSV(r, g, b, h, s, v); dfm2::GetRGB_HSV(rf, gf, bf, (float) h, (float) s, (float) v);
    auto ch = [&](double n) { double k = std::fmod(n + h * 6, 6.0); return v - v * s * std::max(0.0, std::min({k, 4 - k, 1.0})); };
    CKN(r, ch(5), 1e-9, "red of hue/saturation/value", "%g %g %g", h, s, v); CKN(g, ch(3), 1e-9, "green of hue/saturation/value", "%g %g %g", h, s, v); CKN(b, ch(1), 1e-9, "blue of hue/saturation/value", "%g %g %g", h, s, v);
    CKN((double) rf, r, 1e-5, "hue/saturation/value in single precision", ""); CKN((double) gf, g, 1e-5, "hue/saturation/value in single precision", ""); CKN((double) bf, b, 1e-5, "hue/saturation/value in single precision", "");
    double x = ctx.rng.chance(0.3) ? ctx.rng.irange(-1, 5) * 0.25 : ctx.rng.uni(-0.5, 1.5), c[3], d[3];
    dfm2::heatmap(x, c); dfm2::heatmap(x + 1e-7, d);
    double y = std::max(0.0, std::min(1.0, x)), e[3] = {std::max(0.0, std::min(1.0, 4 * y - 2)), std::max(0.0, std::min(1.0, 2 - std::fabs(4 * y - 2))), std::max(0.0, std::min(1.0, 2 - 4 * y))};
    for (int k = 0; k < 3; ++k) { CK(c[k] >= 0 && c[k] <= 1, "heat map in range", "%g", x); CKN(d[k], c[k], 1e-6, "heat map is continuous", "%g", x); CKN(c[k], e[k], 1e-9, "heat map from blue through green to red", "%g", x); }
    int code = ctx.rng.irange(0, 0xffffff); double rgb[3];
    dfm2::ColorRGB_Int(rgb, code);
    for (int k = 0; k < 3; ++k) { CKN(rgb[k], ((code >> (16 - 8 * k)) & 255) / 255.0, 1e-12, "components of a colour code", "%06x", (unsigned) code); }
    dfm2::CColor q((float) ctx.rng.uni(-0.5, 1.5), (float) ctx.rng.uni(-0.5, 1.5), (float) ctx.rng.uni(-0.5, 1.5));
    if (ctx.rng.chance(0.2)) { q = dfm2::CColor(0, 1, 0.5f); CK(q.r == 0 && q.g == 1 && q.b == 0.5f && q.a == 1, "colour of three components is opaque", "%g", q.a); }
    int ir, ig, ib; q.getRGBChar(ir, ig, ib);
    auto by = [](float f) { return f < 0 ? 0 : f > 1 ? 255 : (int) (255 * f); };
    CK(ir == by(q.r) && ig == by(q.g) && ib == by(q.b), "bytes of a colour", "%d %d %d", ir, ig, ib);
    q.setRandomColor(); CK(q.r >= 0 && q.r <= 1 && q.g >= 0 && q.g <= 1 && q.b >= 0 && q.b <= 1, "random colour in range", "");
    q.setRandomVividColor(); CK(std::min({q.r, q.g, q.b}) >= -1e-6f && std::fabs(std::max({q.r, q.g, q.b}) - 1) < 1e-5f && std::min({q.r, q.g, q.b}) < 1e-5f, "vivid colour is saturated", "");
    ctx.count("colours");
  }
  std::vector<float> cv; for (int i = ctx.rng.irange(0, 5); i > 0; --i) { cv.push_back((float) ctx.rng.u01()); }
  dfm2::CColor cc(cv);
  if (cv.empty()) { CK(cc.r == 1 && cc.g == 1 && cc.b == 1 && cc.a == 1, "colour of no components is white", ""); }
  if (cv.size() == 1) { CK(cc.r == cv[0] && cc.g == cv[0] && cc.b == cv[0] && cc.a == 1, "colour of one component is gray", ""); }
  if (cv.size() >= 3 && cv.size() <= 4) { CK(cc.r == cv[0] && cc.g == cv[1] && cc.b == cv[2] && cc.a == (cv.size() == 4 ? cv[3] : 1.f), "colour from components", ""); }
  // maps given by stops
  std::vector<std::pair<double, dfm2::CColor>> M;
  double lo = std::round(ctx.rng.uni(-5, 5) * 4) / 4, hi = ctx.rng.chance(0.15) ? lo : lo + std::round(ctx.rng.uni(0.25, 5) * 4) / 4;
  int kind = ctx.rng.irange(0, 4);
  if (kind == 0) { dfm2::ColorMap_BlueGrayRed(M, (float) lo, (float) hi); }
  if (kind == 1) { dfm2::ColorMap_BlueCyanGreenYellowRed(M, (float) lo, (float) hi, 0.5f); }
  if (kind == 2) { dfm2::ColorMap_RedYellowGreenCyanBlue(M, (float) lo, (float) hi); }
  if (kind == 3) { M = dfm2::CColorMap((float) lo, (float) hi, ctx.rng.chance(0.5) ? "bgr" : "x").aColor; }
  if (kind == 4) { double x = lo; for (int i = ctx.rng.irange(1, 6); i > 0; --i) { M.emplace_back(x, dfm2::CColor((float) ctx.rng.u01(), (float) ctx.rng.u01(), (float) ctx.rng.u01(), (float) ctx.rng.u01())); if (ctx.rng.chance(0.8)) { x += ctx.rng.uni(0.1, 2); } } hi = x; }
  if (lo == hi) { ctx.count("empty_range"); }
  auto ref = [&](double x, float c[4]) {
    size_t k = 0; while (k + 1 < M.size() && M[k + 1].first < x) { ++k; }
    const dfm2::CColor &a = M[k].second, &b = k + 1 < M.size() ? M[k + 1].second : a;
    double w = k + 1 < M.size() && M[k + 1].first > M[k].first ? (x - M[k].first) / (M[k + 1].first - M[k].first) : 0; w = std::max(0.0, std::min(1.0, w));
    if (x > M.back().first) { w = 1; }
    c[0] = (float) (a.r * (1 - w) + b.r * w); c[1] = (float) (a.g * (1 - w) + b.g * w); c[2] = (float) (a.b * (1 - w) + b.b * w); c[3] = (float) (a.a * (1 - w) + b.a * w);
  };
  std::vector<double> vals;
  for (int i = 0; i < 20; ++i) {
    double x = ctx.rng.chance(0.3) ? M[(size_t) ctx.rng.irange(0, (int) M.size() - 1)].first : ctx.rng.uni(lo - 1, hi + 1);
    vals.push_back(x);
    dfm2::CColor c = dfm2::getColor(x, M);
    CK(c.r >= 0 && c.r <= 1 && c.g >= 0 && c.g <= 1 && c.b >= 0 && c.b <= 1 && c.a >= 0 && c.a <= 1, "mapped colour in range", "%g of [%g,%g]: %g %g %g", x, lo, hi, (double) c.r, (double) c.g, (double) c.b);
    bool jump = false; for (size_t k = 0; k + 1 < M.size(); ++k) { if (M[k].first == M[k + 1].first && x == M[k].first) { jump = true; } }
    if (jump) { continue; }
    float e[4]; ref(x, e);
    CKN((double) c.r, (double) e[0], 1e-5, "colour map interpolates its stops", "%g", x); CKN((double) c.g, (double) e[1], 1e-5, "colour map interpolates its stops", "%g", x); CKN((double) c.b, (double) e[2], 1e-5, "colour map interpolates its stops", "%g", x); CKN((double) c.a, (double) e[3], 1e-5, "colour map interpolates its stops", "%g", x);
    ctx.count("map_values");
  }
  {
    std::vector<double> XY; std::vector<int> T;
    for (size_t i = 0; i < vals.size(); ++i) { XY.push_back(std::round(ctx.rng.uni(-9, 9) * 100) / 100); XY.push_back(std::round(ctx.rng.uni(-9, 9) * 100) / 100); }
    for (int i = 0; i < 7 * 3; ++i) { T.push_back(ctx.rng.irange(0, (int) vals.size() - 1)); }
    std::string p = vh::cfg().dir + "/c30_" + std::to_string((long) getpid()) + ".ply";
    dfm2::Write_Ply_Tri2DMesh_HeightColor(p, T, XY, vals, M);
    std::ifstream in(p); std::string s; size_t nv = 0, nf = 0;
    while (std::getline(in, s) && s != "end_header") { std::istringstream is(s); std::string a, b; size_t n; if (is >> a >> b >> n && a == "element") { (b == "vertex" ? nv : nf) = n; } }
    CK(nv == vals.size() && nf == T.size() / 3, "counts in the written mesh", "%zu %zu", nv, nf);
    for (size_t i = 0; i < vals.size(); ++i) {
      double x, y, z; int r, g, b; in >> x >> y >> z >> r >> g >> b;
      int er, eg, eb; dfm2::getColor(vals[i], M).getRGBChar(er, eg, eb);
      CK(in && x == XY[i * 2] && y == XY[i * 2 + 1] && std::fabs(z - vals[i]) < 1e-4 && r == er && g == eg && b == eb && r >= 0 && r <= 255 && g >= 0 && g <= 255 && b >= 0 && b <= 255, "vertices of the written mesh", "vertex %zu", i);
    }
    for (size_t i = 0; i < T.size() / 3; ++i) { int n, a, b, c; in >> n >> a >> b >> c; CK(in && n == 3 && a == T[i * 3] && b == T[i * 3 + 1] && c == T[i * 3 + 2], "triangles of the written mesh", "%zu", i); }
    unlink(p.c_str());
  }
  ctx.sig(vh::Hash().vd(vals).h);
}
