// C03 : polygon meshing, Delaunay triangulation of point sets, loop validation/resampling, polygon integrals
#include "vh.h"
#include "trimesh.h"
#include "delfem2/dtri2_v2dtri.h"
#include "delfem2/geo_polygon2.h"

namespace dfm2 = delfem2;
typedef dfm2::CVec2d V2;
typedef std::vector<V2> Poly;

static double area(const Poly &p) {
  long double s = 0;
  for (size_t i = 0; i < p.size(); ++i) {
    auto &a = p[i], &b = p[(i + 1) % p.size()];
    s += (long double) a.x * b.y - (long double) a.y * b.x;
  }
  return (double) (s / 2);
}
static double seg_dist(const V2 &p, const V2 &a, const V2 &b) {
  double dx = b.x - a.x, dy = b.y - a.y, t = ((p.x - a.x) * dx + (p.y - a.y) * dy) / (dx * dx + dy * dy);
  t = std::min(1., std::max(0., t));
  return hypot(p.x - a.x - t * dx, p.y - a.y - t * dy);
}
static bool seg_cross(const V2 &a, const V2 &b, const V2 &c, const V2 &d) {
  auto s = [](long double x) { return x > 0 ? 1 : (x < 0 ? -1 : 0); };
  return s(tmx::orient2(a.p, b.p, c.p)) * s(tmx::orient2(a.p, b.p, d.p)) < 0 && s(tmx::orient2(c.p, d.p, a.p)) * s(tmx::orient2(c.p, d.p, b.p)) < 0;
}
static double seg_seg(const V2 &a, const V2 &b, const V2 &c, const V2 &d) {
  if (seg_cross(a, b, c, d)) return 0;
  return std::min(std::min(seg_dist(a, c, d), seg_dist(b, c, d)), std::min(seg_dist(c, a, b), seg_dist(d, a, b)));
}
static bool inside(const Poly &p, double x, double y) {
  bool in = false;
  for (size_t i = 0, j = p.size() - 1; i < p.size(); j = i++)
    if ((p[i].y > y) != (p[j].y > y) && x < (p[j].x - p[i].x) * (y - p[i].y) / (p[j].y - p[i].y) + p[i].x) in = !in;
  return in;
}
// smallest distance between non-adjacent edges
static double clearance(const Poly &p) {
  double m = 1e9;
  size_t n = p.size();
  for (size_t i = 0; i < n; ++i)
    for (size_t j = i + 1; j < n; ++j) {
      if (j == i + 1 || (i == 0 && j == n - 1)) continue;
      m = std::min(m, seg_seg(p[i], p[(i + 1) % n], p[j], p[(j + 1) % n]));
    }
  for (size_t i = 0; i < n; ++i) { // corners not folded back
    m = std::min(m, seg_dist(p[(i + 2) % n], p[i], p[(i + 1) % n]));
    m = std::min(m, seg_dist(p[i], p[(i + 1) % n], p[(i + 2) % n]));
  }
  return m;
}
static double clearance(const Poly &p, const Poly &q) {
  double m = 1e9;
  for (size_t i = 0; i < p.size(); ++i)
    for (size_t j = 0; j < q.size(); ++j) m = std::min(m, seg_seg(p[i], p[(i + 1) % p.size()], q[j], q[(j + 1) % q.size()]));
  return m;
}
// simple polygon: star-shaped, comb, spiral or random orthogonal staircase
static Poly simple_poly(vh::Rng &r, double cx, double cy, double rad) {
  Poly p;
  int kind = r.irange(0, 5);
  if (kind <= 2) {
    int n = r.irange(3, kind == 0 ? 5 : 16);
    double lo = kind == 2 ? 0.25 : 0.7;
    double a0 = r.uni(0, 6.28);
    for (int i = 0; i < n; ++i) {
      double a = a0 + 6.283185307179586 * (i + r.uni(-.3, .3)) / n, q = rad * r.uni(lo, 1.0);
      p.push_back(V2(cx + q * cos(a), cy + q * sin(a)));
    }
  } else if (kind == 3) { // comb with long teeth
    int t = r.irange(1, 5);
    double w = 2 * rad / (2 * t + 1), x0 = cx - rad, y0 = cy - rad * 0.8, h = r.uni(0.3, 1.5) * rad;
    p.push_back(V2(x0, y0));
    p.push_back(V2(x0 + 2 * rad, y0));
    for (int i = t; i >= 0; --i) {
      double xa = x0 + (2 * i + 1) * w, xb = x0 + 2 * i * w, b = y0 + 0.1 * rad;
      p.push_back(V2(xa - 0.1 * w * r.u01(), y0 + h * r.uni(.9, 1)));
      p.push_back(V2(xb + 0.1 * w * r.u01(), y0 + h * r.uni(.9, 1)));
      if (i > 0) { p.push_back(V2(xb, b)); p.push_back(V2(xb - w, b)); }
    }
    double q = r.uni(0, 6.28), c = cos(q), s = sin(q);
    if (r.chance(0.7))
      for (auto &v: p) { double X = v.x - cx, Y = v.y - cy; v = V2(cx + (c * X - s * Y) * .7, cy + (s * X + c * Y) * .7); }
  } else if (kind == 4) { // spiral arm
    int n = r.irange(5, 12);
    double turns = r.uni(0.8, 1.6);
    for (int i = 0; i <= n; ++i) { double a = turns * 6.28 * i / n, q = rad * (0.35 + 0.65 * i / n); p.push_back(V2(cx + q * cos(a), cy + q * sin(a))); }
    for (int i = n; i >= 0; --i) { double a = turns * 6.28 * i / n, q = rad * (0.35 + 0.65 * i / n) - rad * 0.13; p.push_back(V2(cx + q * cos(a), cy + q * sin(a))); }
  } else { // axis-aligned staircase/rectangle with exactly collinear and co-circular points
    int n = r.irange(1, 4);
    double x0 = cx - rad * .7, y0 = cy - rad * .7, d = 1.4 * rad / n;
    p.push_back(V2(x0, y0));
    p.push_back(V2(x0 + n * d, y0));
    for (int i = 0; i < n; ++i) {
      p.push_back(V2(x0 + (n - i) * d, y0 + (i + 1) * d));
      if (i < n - 1) p.push_back(V2(x0 + (n - i - 1) * d, y0 + (i + 1) * d));
    }
    p.push_back(V2(x0, y0 + n * d));
    if (n == 1 || std::abs(p.back().x - p[p.size() - 2].x) < 1e-12) p.pop_back();
    if (std::abs(p.back().x - x0) > 1e-12) p.push_back(V2(x0, y0 + n * d));
  }
  if (area(p) < 0) std::reverse(p.begin(), p.end());
  return p;
}
static bool region(vh::Rng &r, std::vector<Poly> &loops, double clear, int maxhole) {
  loops.clear();
  for (int t = 0; t < 20 && loops.empty(); ++t) {
    Poly p = simple_poly(r, 0, 0, 1);
    if (clearance(p) > clear) loops.push_back(p);
  }
  if (loops.empty()) return false;
  int nh = r.irange(0, maxhole);
  for (int t = 0; t < 60 && (int) loops.size() < 1 + nh; ++t) {
    Poly h = simple_poly(r, r.uni(-.9, .9), r.uni(-.9, .9), r.uni(0.05, 0.5));
    if (clearance(h) < clear * 0.3) continue;
    bool ok = true;
    for (auto &v: h) ok = ok && inside(loops[0], v.x, v.y);
    for (size_t i = 0; ok && i < loops.size(); ++i) {
      if (clearance(h, loops[i]) < clear) ok = false;
      if (i > 0) ok = ok && !inside(loops[i], h[0].x, h[0].y) && !inside(h, loops[i][0].x, loops[i][0].y);
    }
    if (ok) loops.push_back(h);
  }
  return true;
}
static std::vector<unsigned> flat(const std::vector<dfm2::CDynTri> &t) {
  std::vector<unsigned> f;
  for (auto &x: t) for (int k = 0; k < 3; ++k) f.push_back(x.v[k]);
  return f;
}
static bool adjacency(vh::Ctx &ctx, const std::vector<dfm2::CDynPntSur> &po, const std::vector<dfm2::CDynTri> &t, const std::string &h) {
  auto f = flat(t);
  for (auto v: f) if (!ctx.check(v < po.size(), "vertex_index", h)) return false;
  auto em = tmx::edges(f);
  for (unsigned i = 0; i < t.size(); ++i)
    for (int k = 0; k < 3; ++k) {
      auto it = em.find({t[i].v[(k + 2) % 3], t[i].v[(k + 1) % 3]});
      unsigned e = it == em.end() ? UINT_MAX : it->second[0];
      if (!ctx.check(t[i].s2[k] == e, "adjacency_wrong", h)) return false;
    }
  for (unsigned i = 0; i < po.size(); ++i)
    if (po[i].e != UINT_MAX && !ctx.check(po[i].e < t.size() && po[i].d < 3 && t[po[i].e].v[po[i].d] == i, "point_link_wrong", h)) return false;
  return true;
}
static std::string desc(const std::vector<Poly> &l) {
  std::string s;
  for (auto &p: l) { s += "("; for (auto &v: p) s += vh::fmt("%.6g,%.6g ", v.x, v.y); s += ")"; }
  return s.substr(0, 1500);
}

VH_FAMILY(delaunay_points, 3600, 54000) {
  auto &r = ctx.rng;
  int kind = r.irange(0, 5), n = r.irange(1, 60);
  std::vector<V2> p;
  double sc = r.chance(0.3) ? r.uni(0.5, 20) : 1, ox = r.chance(0.3) ? r.uni(-50, 50) : 0, oy = r.chance(0.3) ? r.uni(-50, 50) : 0;
  if (kind == 0) for (int i = 0; i < n; ++i) p.push_back(V2(r.u01(), r.u01()));
  if (kind == 1) { int m = r.irange(2, 7), k = r.irange(2, 7); for (int i = 0; i < m; ++i) for (int j = 0; j < k; ++j) p.push_back(V2(i, j)); } // cocircular
  if (kind == 2) for (int i = 0; i < n; ++i) p.push_back(V2(cos(i * 6.283185307179586 / n), sin(i * 6.283185307179586 / n)));
  if (kind == 3) for (int i = 0; i < n; ++i) { double c = r.irange(0, 2); p.push_back(V2(c + 0.1 * r.gauss(), c * c + 0.1 * r.gauss())); }
  if (kind == 4) for (int i = 0; i < n; ++i) p.push_back(V2(i * 0.31, 0.17 * i)); // collinear
  if (kind == 5) for (int i = 0; i < n; ++i) p.push_back(V2(r.irange(0, 8), r.irange(0, 8)));
  for (auto &v: p) v = V2(v.x * sc + ox, v.y * sc + oy);
  { // distinct points only
    std::vector<V2> q;
    for (auto &v: p) { bool d = false; for (auto &u: q) d |= hypot(u.x - v.x, u.y - v.y) < 1e-3; if (!d) q.push_back(v); }
    p = q;
  }
  if (p.size() < 2) return;
  r.shuffle(p);
  auto in = p;
  std::vector<dfm2::CDynPntSur> po;
  std::vector<dfm2::CDynTri> t;
  dfm2::Meshing_Initialize(po, t, p);
  std::string h = vh::fmt("kind=%d n=%zu", kind, in.size());
  if (!ctx.check(p.size() == in.size() + 3 && po.size() == p.size(), "point_count", h)) return;
  for (size_t i = 0; i < in.size(); ++i) if (!ctx.check(in[i].x == p[i].x && in[i].y == p[i].y, "input_point_moved", h)) return;
  if (!adjacency(ctx, po, t, h)) return;
  auto f = flat(t);
  if (!ctx.check(t.size() == 2 * in.size() + 1, "triangle_count", h + vh::fmt(" got %zu", t.size()))) return;
  std::set<unsigned> used(f.begin(), f.end());
  ctx.check(used.size() == p.size(), "point_not_in_mesh", h);
  double s = 0, S = tmx::area2(p[in.size()].p, p[in.size() + 1].p, p[in.size() + 2].p);
  for (size_t i = 0; i < t.size(); ++i) {
    double A = tmx::area2(p[t[i].v[0]].p, p[t[i].v[1]].p, p[t[i].v[2]].p);
    if (!ctx.check(A > -1e-9 * sc * sc, "inverted_element", h + vh::fmt(" area %g", A))) return;
    s += A;
  }
  ctx.near(s, S, 1e-9 * S, "covered_area", h);
  for (auto &x: t) {
    double A = tmx::area2(p[x.v[0]].p, p[x.v[1]].p, p[x.v[2]].p);
    if (A < 1e-4 * sc * sc) continue; // the in-circle value of a sliver is not decidable in doubles
    for (int k = 0; k < 3; ++k) {
      if (x.s2[k] == UINT_MAX) continue;
      auto &nb = t[x.s2[k]];
      for (int j = 0; j < 3; ++j)
        if (nb.v[j] != x.v[(k + 1) % 3] && nb.v[j] != x.v[(k + 2) % 3]) {
          auto &d = p[nb.v[j]];
          long double ic = tmx::incircle(p[x.v[0]].p, p[x.v[1]].p, p[x.v[2]].p, d.p);
          double m = std::max(S, 1e-3);
          if (!ctx.check(ic < 1e-9L * m * m, "circumcircle_not_empty", h + vh::fmt(" incircle %Lg area %g", ic, A))) return;
          ctx.count("circumcircle_tests");
        }
    }
  }
  vh::Hash sg;
  for (auto &v: in) sg.d(v.x).d(v.y);
  ctx.sig(sg);
  ctx.sample(h);
}

// full pipeline
VH_FAMILY(genmesh, 5400, 84000) {
  auto &r = ctx.rng;
  std::vector<Poly> loops;
  double eres = r.chance(0.35) ? -1 : r.uni(0.05, 0.5), fres = r.chance(0.4) ? -1 : r.uni(0.05, 0.4);
  if (!region(r, loops, 0.02, 3)) return;
  double sc = r.chance(0.3) ? r.uni(0.5, 30) : 1, ox = r.chance(0.3) ? r.uni(-30, 30) : 0, oy = r.chance(0.3) ? r.uni(-30, 30) : 0;
  if (eres > 0) eres *= sc;
  if (fres > 0) fres *= sc;
  for (auto &l: loops) {
    for (auto &v: l) v = V2(v.x * sc + ox, v.y * sc + oy);
    int s = r.irange(0, (int) l.size() - 1);
    std::rotate(l.begin(), l.begin() + s, l.end());
  }
  double A0 = area(loops[0]);
  for (size_t i = 1; i < loops.size(); ++i) A0 -= area(loops[i]);
  auto given = loops;
  for (auto &l: given) if (r.chance(0.5)) std::reverse(l.begin(), l.end());
  std::vector<std::vector<double>> aa;
  for (auto &l: given) { std::vector<double> v; for (auto &q: l) { v.push_back(q.x); v.push_back(q.y); } aa.push_back(v); }
  std::vector<dfm2::CDynPntSur> po;
  std::vector<dfm2::CDynTri> t;
  std::vector<V2> p;
  dfm2::GenMesh(po, t, p, aa, eres, fres);
  std::string h = vh::fmt("eres=%g fres=%g loops=%zu ", eres, fres, loops.size()) + desc(given);
  if (!ctx.check(!t.empty(), "valid_region_refused", h)) return;
  if (!ctx.check(po.size() == p.size(), "array_sizes", h)) return;
  if (!adjacency(ctx, po, t, h)) return;
  // expected boundary: every loop edge cut into equal pieces
  size_t ncorner = 0, nadd = 0;
  for (auto &l: given) ncorner += l.size();
  size_t ic = 0;
  for (auto &l: given) for (auto &v: l) { if (!ctx.check(p[ic].x == v.x && p[ic].y == v.y, "corner_moved", h)) return; ic++; }
  auto find = [&](double x, double y) {
    unsigned b = UINT_MAX; double d = 1e-9 * sc;
    for (unsigned i = 0; i < p.size(); ++i) { double e = hypot(p[i].x - x, p[i].y - y); if (e < d) { d = e; b = i; } }
    return b;
  };
  std::set<std::pair<unsigned, unsigned>> expect;
  for (size_t il = 0; il < loops.size(); ++il) { // loops[] are ccw
    auto &l = loops[il];
    for (size_t i = 0; i < l.size(); ++i) {
      V2 a = l[i], b = l[(i + 1) % l.size()];
      double len = hypot(a.x - b.x, a.y - b.y);
      int n = eres > 0 ? (int) (len / eres) : 0;
      if (eres > 0 && std::fabs(len / eres - std::round(len / eres)) < 1e-9) return; // subdivision count is a tie
      nadd += n;
      unsigned prev = find(a.x, a.y);
      for (int k = 1; k <= n + 1; ++k) {
        double w = (double) k / (n + 1);
        unsigned cur = find(a.x + (b.x - a.x) * w, a.y + (b.y - a.y) * w);
        if (!ctx.check(cur != UINT_MAX && prev != UINT_MAX, "resampled_point_missing", h)) return;
        if (il == 0) expect.insert({prev, cur}); else expect.insert({cur, prev});
        prev = cur;
      }
    }
  }
  auto f = flat(t);
  auto tp = tmx::topo(f);
  std::set<std::pair<unsigned, unsigned>> got(tp.boundary.begin(), tp.boundary.end());
  if (!ctx.check(tp.oriented_manifold_edges, "edge_used_twice", h)) return;
  if (!ctx.check(got == expect, "boundary_edges_differ_from_loops", h + vh::fmt(" got %zu expected %zu", got.size(), expect.size()))) return;
  double s = 0, mn = 1e300;
  for (auto &x: t) { double A = tmx::area2(p[x.v[0]].p, p[x.v[1]].p, p[x.v[2]].p); s += A; mn = std::min(mn, A); }
  if (!ctx.check(mn > -1e-9 * sc * sc, "inverted_element", h + vh::fmt(" min area %g", mn))) return;
  ctx.near(s, A0, 1e-8 * (1 + A0), "area_differs_from_region", h);
  ctx.check(tp.V - tp.E + tp.F == 1 - (long) (loops.size() - 1) && tp.ncomp == 1, "topology_differs_from_region", h);
  ctx.check(tp.V == (long) p.size(), "point_not_in_mesh", h);
  if (fres < 0) {
    if (!ctx.check(p.size() == ncorner + nadd, "unexpected_points", h)) return;
    ctx.check(t.size() == ncorner + nadd + 2 * (loops.size() - 1) - 2, "triangle_count", h);
  } else {
    ctx.count("interior_points", p.size() - ncorner - nadd);
    // refinement goes on while a sweep finds elements above 0.65..1.3 len^2; smoothing changes single elements but not the mean
    double mean = s / t.size();
    ctx.check(mean < 1.3 * fres * fres, "elements_larger_than_resolution", h + vh::fmt(" mean area %g for length %g", mean, fres));
  }
  ctx.count("boundary_edges_matched", got.size());
  ctx.count(loops.size() > 1 ? "regions_with_holes" : "regions_without_holes");
  vh::Hash sg;
  for (auto &v: aa) sg.vd(v);
  ctx.sig(sg.d(eres).d(fres));
  if (ctx.icase < 2) ctx.sample(h);
}

// loop validation against an independent check
VH_FAMILY(validation, 9000, 120000) {
  auto &r = ctx.rng;
  std::vector<Poly> loops;
  int kind = r.irange(0, 4);
  if (kind == 0) { if (!region(r, loops, 0.02, 3)) return; }
  else if (kind == 1) { // one loop through random points
    Poly p; int n = r.irange(3, 8); for (int i = 0; i < n; ++i) p.push_back(V2(r.uni(-1, 1), r.uni(-1, 1))); loops.push_back(p);
  } else if (kind == 2) { // loops at random places
    int n = r.irange(2, 3);
    for (int i = 0; i < n; ++i) loops.push_back(simple_poly(r, r.uni(-1, 1), r.uni(-1, 1), i == 0 ? 1.3 : r.uni(0.2, 1)));
  } else if (kind == 3) { // hole with a long needle
    if (!region(r, loops, 0.05, 0)) return;
    Poly h; double a = r.uni(0, 6.28), L = r.uni(0.3, 2.5), x = r.uni(-.3, .3), y = r.uni(-.3, .3);
    h.push_back(V2(x, y)); h.push_back(V2(x + L * cos(a), y + L * sin(a))); h.push_back(V2(x + 0.1 * cos(a + 1), y + 0.1 * sin(a + 1)));
    loops.push_back(h);
  } else { // two crossing bars as holes: no corner inside the other hole
    Poly o = {V2(-3, -3), V2(3, -3), V2(3, 3), V2(-3, 3)};
    loops.push_back(o);
    for (int k = 0; k < 2; ++k) {
      double a = r.uni(0, 3.14), c = cos(a), s = sin(a), L = r.uni(.2, 2), w = r.uni(.05, .2), x = r.uni(-.8, .8), y = r.uni(-.8, .8);
      Poly h;
      for (auto q: {V2(-L, -w), V2(L, -w), V2(L, w), V2(-L, w)}) h.push_back(V2(x + c * q.x - s * q.y, y + s * q.x + c * q.y));
      loops.push_back(h);
    }
  }
  for (auto &l: loops) if (r.chance(0.5)) std::reverse(l.begin(), l.end());
  bool valid = true;
  double margin = 1e9;
  for (auto &l: loops) margin = std::min(margin, std::fabs(area(l)));
  for (size_t i = 0; i < loops.size(); ++i) {
    size_t n = loops[i].size();
    for (size_t a = 0; a < n; ++a) {
      for (size_t b = a + 1; b < n; ++b) {
        if (b == a + 1 || (a == 0 && b == n - 1)) continue;
        bool c = seg_cross(loops[i][a], loops[i][(a + 1) % n], loops[i][b], loops[i][(b + 1) % n]);
        valid &= !c;
        if (!c) margin = std::min(margin, seg_seg(loops[i][a], loops[i][(a + 1) % n], loops[i][b], loops[i][(b + 1) % n]));
      }
      for (size_t j = i + 1; j < loops.size(); ++j)
        for (size_t b = 0; b < loops[j].size(); ++b) {
          auto &c0 = loops[j][b], &c1 = loops[j][(b + 1) % loops[j].size()];
          bool c = seg_cross(loops[i][a], loops[i][(a + 1) % n], c0, c1);
          valid &= !c;
          if (!c) margin = std::min(margin, seg_seg(loops[i][a], loops[i][(a + 1) % n], c0, c1));
        }
    }
  }
  for (size_t i = 1; i < loops.size(); ++i) {
    for (auto &v: loops[i]) valid &= inside(loops[0], v.x, v.y);
    for (size_t j = 0; j < loops.size(); ++j) if (i != j) for (auto &v: loops[j]) valid &= !inside(loops[i], v.x, v.y);
  }
  if (margin < 1e-3) return; // touching: not decided by the property
  std::vector<std::vector<double>> aa;
  for (auto &l: loops) { std::vector<double> v; for (auto &q: l) { v.push_back(q.x); v.push_back(q.y); } aa.push_back(v); }
  std::vector<int> ind, ip;
  std::vector<V2> xy;
  dfm2::JArray_FromVecVec_XY(ind, ip, xy, aa);
  bool res = dfm2::CheckInputBoundaryForTriangulation(ind, xy);
  std::string h = vh::fmt("kind=%d valid=%d margin=%g ", kind, valid, margin) + desc(loops);
  // the library's point-in-loop test gives up on its directions when a ray passes close to a corner; only then may it be wrong
  ctx.check(res == valid, valid ? "valid_loops_refused" : "invalid_loops_accepted", h);
  ctx.count(valid ? "valid_inputs" : "invalid_inputs");
  if (!valid) {
    std::vector<dfm2::CDynPntSur> po;
    std::vector<dfm2::CDynTri> t;
    std::vector<V2> p;
    dfm2::GenMesh(po, t, p, aa, -1, -1);
    ctx.check(t.empty(), "invalid_region_meshed", h);
  }
  vh::Hash sg;
  for (auto &v: aa) sg.vd(v);
  ctx.sig(sg);
}

VH_FAMILY(loops, 4800, 60000) {
  auto &r = ctx.rng;
  std::vector<std::vector<double>> aa;
  std::vector<Poly> ls;
  int n = r.irange(1, 4);
  for (int i = 0; i < n; ++i) {
    Poly p = simple_poly(r, r.uni(-3, 3), r.uni(-3, 3), r.uni(0.2, 2));
    if (r.chance(0.5)) std::reverse(p.begin(), p.end());
    ls.push_back(p);
    std::vector<double> v; for (auto &q: p) { v.push_back(q.x); v.push_back(q.y); }
    aa.push_back(v);
    ctx.check(dfm2::XY_Polygon(p) == v, "xy_polygon");
    auto inv = dfm2::Polygon_Invert(p);
    bool ok = inv.size() == p.size();
    for (size_t k = 0; ok && k < p.size(); ++k) ok = inv[k].x == p[p.size() - 1 - k].x && inv[k].y == p[p.size() - 1 - k].y;
    ctx.check(ok, "polygon_invert");
  }
  std::vector<int> ind(3, 77), ip(2, 5);
  std::vector<V2> xy(1);
  dfm2::JArray_FromVecVec_XY(ind, ip, xy, aa);
  size_t tot = 0;
  ctx.check(ind.size() == aa.size() + 1 && ind[0] == 0, "loop_index");
  for (int i = 0; i < n; ++i) {
    ctx.check(ind[i + 1] - ind[i] == (int) ls[i].size(), "loop_size");
    for (auto &q: ls[i]) { if (!ctx.check(xy[tot].x == q.x && xy[tot].y == q.y && ip[tot] == (int) tot, "loop_points")) return; tot++; }
  }
  dfm2::FixLoopOrientation(ip, ind, xy);
  for (int i = 0; i < n; ++i) {
    Poly q;
    for (int k = ind[i]; k < ind[i + 1]; ++k) q.push_back(xy[ip[k]]);
    ctx.check((area(q) > 0) == (i == 0), "loop_orientation", vh::fmt("loop %d", i));
    std::set<int> s(ip.begin() + ind[i], ip.begin() + ind[i + 1]);
    ctx.check(s.size() == ls[i].size() && *s.begin() == ind[i] && *s.rbegin() == ind[i + 1] - 1, "loop_points_lost");
    // cyclic order is the old one or its reverse
    int m = (int) ls[i].size(), d = ((ip[ind[i] + 1] - ip[ind[i]]) % m + m) % m;
    bool ok = d == 1 || d == m - 1;
    for (int k = 0; ok && k < m; ++k) ok = ((ip[ind[i] + (k + 1) % m] - ip[ind[i] + k]) % m + m) % m == d;
    ctx.check(ok, "loop_order");
  }
  double el = r.uni(0.05, 1.5);
  auto ind0 = ind, ip0 = ip;
  auto xy0 = xy;
  dfm2::ResamplingLoop(ind, ip, xy, el);
  ctx.check(ind.size() == ind0.size() && ip.size() == xy.size() && ind.back() == (int) ip.size(), "resampled_sizes");
  for (size_t i = 0; i < xy0.size(); ++i) ctx.check(xy[i].x == xy0[i].x && xy[i].y == xy0[i].y, "resampling_moved_corner");
  std::vector<int> seen(xy.size(), 0);
  for (int v: ip) { if (!ctx.check(v >= 0 && v < (int) xy.size(), "resampled_index")) return; seen[v]++; }
  for (int v: seen) if (!ctx.check(v == 1, "resampled_point_used_not_once")) return;
  for (int i = 0; i < n; ++i) {
    int k = ind[i];
    int m = ind0[i + 1] - ind0[i];
    for (int e = 0; e < m; ++e) {
      auto a = xy[ip0[ind0[i] + e]], b = xy[ip0[ind0[i] + (e + 1) % m]];
      double len = hypot(a.x - b.x, a.y - b.y);
      int na = (int) (len / el);
      if (std::fabs(len / el - std::round(len / el)) < 1e-9) return;
      for (int q = 0; q <= na; ++q, ++k) {
        double w = (double) q / (na + 1);
        if (!ctx.check(k < ind[i + 1], "resampled_count")) return;
        ctx.near(xy[ip[k]].x, a.x + (b.x - a.x) * w, 1e-10, "resampled_position");
        ctx.near(xy[ip[k]].y, a.y + (b.y - a.y) * w, 1e-10, "resampled_position");
        if (ctx.failed) return;
      }
      ctx.check(len / (na + 1) <= el, "resampled_edge_too_long");
    }
    ctx.check(k == ind[i + 1], "resampled_count");
  }
  ctx.count("points_added_on_edges", xy.size() - xy0.size());
  vh::Hash sg;
  for (auto &v: aa) sg.vd(v);
  ctx.sig(sg.d(el));
}

VH_FAMILY(integrals, 9000, 120000) {
  auto &r = ctx.rng;
  Poly p = simple_poly(r, r.uni(-3, 3), r.uni(-3, 3), r.uni(0.2, 2));
  bool rev = r.chance(0.3);
  if (rev) std::reverse(p.begin(), p.end());
  if (r.chance(0.1)) { // regular polygon: isotropic second moment
    int n = r.irange(3, 9); p.clear();
    for (int i = 0; i < n; ++i) p.push_back(V2(cos(i * 6.283185307179586 / n), sin(i * 6.283185307179586 / n)));
    if (n == 4 && r.chance(0.5)) p = {V2(-1, -1), V2(1, -1), V2(1, 1), V2(-1, 1)};
    rev = false;
  }
  // independent quadrature: fan of signed triangles, exact degree-2 midpoint rule
  long double A = 0, mx = 0, my = 0;
  size_t n = p.size();
  auto tri = [&](size_t i, long double w[3][2], long double ox, long double oy) {
    auto &a = p[i], &b = p[(i + 1) % n];
    long double q[3][2] = {{0, 0}, {a.x - ox, a.y - oy}, {b.x - ox, b.y - oy}};
    for (int k = 0; k < 3; ++k) for (int d = 0; d < 2; ++d) w[k][d] = (q[k][d] + q[(k + 1) % 3][d]) / 2;
    return (q[1][0] * q[2][1] - q[1][1] * q[2][0]) / 2;
  };
  double len = 0;
  for (size_t i = 0; i < n; ++i) {
    long double w[3][2], a = tri(i, w, 0, 0);
    A += a;
    for (int k = 0; k < 3; ++k) { mx += a * w[k][0] / 3; my += a * w[k][1] / 3; }
    len += hypot(p[i].x - p[(i + 1) % n].x, p[i].y - p[(i + 1) % n].y);
  }
  mx /= A; my /= A;
  auto second = [&](long double ox, long double oy, long double I[3]) { // int x^2, y^2, xy about (ox,oy)
    I[0] = I[1] = I[2] = 0;
    for (size_t i = 0; i < n; ++i) {
      long double w[3][2], a = tri(i, w, ox, oy);
      for (int k = 0; k < 3; ++k) { I[0] += a * w[k][0] * w[k][0] / 3; I[1] += a * w[k][1] * w[k][1] / 3; I[2] += a * w[k][0] * w[k][1] / 3; }
    }
  };
  double tol = 1e-9 * (1 + fabs((double) A)) * 100;
  ctx.near(dfm2::Length_Polygon(p), len, tol, "length");
  V2 cg; double a;
  dfm2::CgArea_Polygon(cg, a, p);
  ctx.near(a, A, tol, "area");
  ctx.near(cg.x, mx, tol, "centroid");
  ctx.near(cg.y, my, tol, "centroid");
  V2 pv(r.uni(-2, 2), r.uni(-2, 2));
  long double I[3];
  second(pv.x, pv.y, I);
  ctx.near(dfm2::RotationalMomentPolar_Polygon2(p, pv), I[0] + I[1], tol * 10, "polar_moment");
  second(mx, my, I);
  V2 p1, p2, cg2; double a2, I1, I2;
  dfm2::SecondMomentOfArea_Polygon(cg2, a2, p1, I1, p2, I2, p);
  ctx.near(a2, A, tol, "area2");
  ctx.near(cg2.x, mx, tol, "centroid2");
  ctx.near(cg2.y, my, tol, "centroid2");
  ctx.near(p1.x * p1.x + p1.y * p1.y, 1, 1e-9, "axis_unit");
  ctx.near(p2.x * p2.x + p2.y * p2.y, 1, 1e-9, "axis_unit");
  ctx.near(p1.x * p2.x + p1.y * p2.y, 0, 1e-9, "axes_orthogonal");
  // moment about the axis through cg along d: int (d x r)^2
  auto about = [&](V2 d) { return (double) (d.x * d.x * I[1] - 2 * d.x * d.y * I[2] + d.y * d.y * I[0]); };
  if (!rev) {
    ctx.near(I1, about(p1), tol * 10, "principal_moment1");
    ctx.near(I2, about(p2), tol * 10, "principal_moment2");
    ctx.check(I1 >= I2 - tol, "principal_order");
  }
  // point in loop
  std::vector<V2> all = {V2(9, 9), V2(8, 7)};
  int st = r.irange(0, 2);
  all.resize(st);
  for (auto &q: p) all.push_back(q);
  int en = (int) all.size();
  all.push_back(V2(-5, 4));
  for (int q = 0; q < 20; ++q) {
    double c[2] = {r.uni(-5, 5), r.uni(-5, 5)};
    if (r.chance(0.7)) { c[0] = (double) mx + r.uni(-1, 1); c[1] = (double) my + r.uni(-1, 1); }
    double d = 1e9;
    for (size_t i = 0; i < n; ++i) d = std::min(d, seg_dist(V2(c[0], c[1]), p[i], p[(i + 1) % n]));
    if (d < 1e-6) continue;
    bool e = inside(p, c[0], c[1]);
    ctx.check(dfm2::IsInclude_Loop(c, st, en, all) == e, "point_in_loop", vh::fmt("%.9g %.9g inside=%d ", c[0], c[1], e) + desc({p}));
    ctx.count(e ? "points_inside" : "points_outside");
  }
  vh::Hash sg;
  for (auto &v: p) sg.d(v.x).d(v.y);
  ctx.sig(sg);
}

// points given in the interior of a region, and constrained edges in a Delaunay triangulation
VH_FAMILY(enforce_edge, 3600, 48000) {
  auto &r = ctx.rng;
  std::vector<Poly> loops;
  if (!region(r, loops, 0.03, 2)) return;
  double eres = r.uni(0.1, 0.8);
  std::vector<V2> xy;
  std::vector<int> ind, ip;
  std::vector<std::vector<double>> aa;
  for (auto &l: loops) { std::vector<double> v; for (auto &q: l) { v.push_back(q.x); v.push_back(q.y); } aa.push_back(v); }
  dfm2::JArray_FromVecVec_XY(ind, ip, xy, aa);
  dfm2::FixLoopOrientation(ip, ind, xy);
  if (r.chance(0.4)) dfm2::ResamplingLoop(ind, ip, xy, eres);
  size_t nloop = xy.size();
  int m = r.irange(0, 25);
  for (int i = 0; i < m; ++i) {
    V2 q(r.uni(-1, 1), r.uni(-1, 1));
    bool ok = inside(loops[0], q.x, q.y);
    for (size_t k = 0; k < loops.size(); ++k) {
      if (k > 0 && inside(loops[k], q.x, q.y)) ok = false;
      for (size_t e = 0; e < loops[k].size(); ++e) ok = ok && seg_dist(q, loops[k][e], loops[k][(e + 1) % loops[k].size()]) > 0.01;
    }
    for (size_t k = nloop; k < xy.size(); ++k) ok = ok && hypot(xy[k].x - q.x, xy[k].y - q.y) > 0.01;
    if (ok) xy.push_back(q);
  }
  auto in = xy;
  std::vector<dfm2::CDynPntSur> po;
  std::vector<dfm2::CDynTri> t;
  dfm2::Meshing_SingleConnectedShape2D(po, xy, t, ind, ip);
  std::string h = vh::fmt("npoint=%zu interior=%zu ", in.size(), in.size() - nloop) + desc(loops);
  if (!ctx.check(xy.size() == in.size() && po.size() == in.size(), "point_count", h)) return;
  for (size_t i = 0; i < in.size(); ++i) if (!ctx.check(in[i].x == xy[i].x && in[i].y == xy[i].y, "input_point_moved", h)) return;
  if (!adjacency(ctx, po, t, h)) return;
  std::set<std::pair<unsigned, unsigned>> ex;
  for (size_t l = 0; l + 1 < ind.size(); ++l) {
    int n = ind[l + 1] - ind[l];
    for (int i = 0; i < n; ++i) ex.insert({(unsigned) ip[ind[l] + i], (unsigned) ip[ind[l] + (i + 1) % n]});
  }
  auto tp = tmx::topo(flat(t));
  std::set<std::pair<unsigned, unsigned>> got(tp.boundary.begin(), tp.boundary.end());
  if (!ctx.check(got == ex, "boundary_edges_differ_from_loops", h + vh::fmt(" got %zu expected %zu", got.size(), ex.size()))) return;
  double A0 = 0, s = 0, mn = 1e9;
  for (size_t i = 0; i < loops.size(); ++i) A0 += (i ? -1 : 1) * area(loops[i]);
  for (auto &x: t) { double A = tmx::area2(xy[x.v[0]].p, xy[x.v[1]].p, xy[x.v[2]].p); s += A; mn = std::min(mn, A); }
  ctx.check(mn > -1e-9, "inverted_element", h + vh::fmt(" min area %g", mn));
  ctx.near(s, A0, 1e-8, "area_differs_from_region", h);
  ctx.check(tp.V == (long) xy.size(), "point_not_in_mesh", h);
  ctx.count("constrained_edges", ex.size());
  vh::Hash sg;
  for (auto &q: in) sg.d(q.x).d(q.y);
  ctx.sig(sg);
}
