// independent helpers on plain triangle lists (no library code)
#ifndef VH_TRIMESH_H
#define VH_TRIMESH_H
#include "vh.h"
namespace tmx {
typedef std::array<unsigned, 3> Tri;
inline Tri canon(unsigned a, unsigned b, unsigned c) {
  if (a < b && a < c) return {a, b, c};
  if (b < a && b < c) return {b, c, a};
  return {c, a, b};
}
typedef std::multiset<Tri> TriSet;
inline TriSet triset(const std::vector<unsigned> &t) {
  TriSet s;
  for (size_t i = 0; i + 2 < t.size(); i += 3) s.insert(canon(t[i], t[i + 1], t[i + 2]));
  return s;
}
// directed edge -> triangles containing it in that direction
typedef std::map<std::pair<unsigned, unsigned>, std::vector<unsigned>> EdgeMap;
inline EdgeMap edges(const std::vector<unsigned> &t) {
  EdgeMap m;
  for (unsigned i = 0; i < t.size() / 3; ++i)
    for (int k = 0; k < 3; ++k) m[{t[i * 3 + k], t[i * 3 + (k + 1) % 3]}].push_back(i);
  return m;
}
struct Topo {
  bool oriented_manifold_edges = true; // every directed edge at most once
  bool closed = true;
  std::vector<std::pair<unsigned, unsigned>> boundary; // directed edges without an opposite
  long V = 0, E = 0, F = 0;
  int ncomp = 0;
  long euler() const { return V - E + F; }
};
inline Topo topo(const std::vector<unsigned> &t) {
  Topo r;
  auto em = edges(t);
  std::set<unsigned> vs(t.begin(), t.end());
  r.V = vs.size();
  r.F = t.size() / 3;
  std::set<std::pair<unsigned, unsigned>> und;
  for (auto &e: em) {
    if (e.second.size() > 1) r.oriented_manifold_edges = false;
    und.insert({std::min(e.first.first, e.first.second), std::max(e.first.first, e.first.second)});
    if (!em.count({e.first.second, e.first.first})) {
      r.closed = false;
      r.boundary.push_back(e.first);
    }
  }
  r.E = und.size();
  // components over edges
  std::map<unsigned, unsigned> p;
  for (auto v: vs) p[v] = v;
  std::function<unsigned(unsigned)> find = [&](unsigned x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; };
  for (auto &e: und) p[find(e.first)] = find(e.second);
  std::set<unsigned> roots;
  for (auto v: vs) roots.insert(find(v));
  r.ncomp = (int) roots.size();
  return r;
}
// every vertex has one fan (closed or open)
inline bool vertex_manifold(const std::vector<unsigned> &t) {
  std::map<unsigned, std::vector<std::pair<unsigned, unsigned>>> link;
  for (size_t i = 0; i < t.size() / 3; ++i)
    for (int k = 0; k < 3; ++k) link[t[i * 3 + k]].push_back({t[i * 3 + (k + 1) % 3], t[i * 3 + (k + 2) % 3]});
  for (auto &l: link) {
    std::map<unsigned, unsigned> nx;
    std::map<unsigned, int> indeg;
    for (auto &e: l.second) {
      if (nx.count(e.first)) return false;
      nx[e.first] = e.second;
      indeg[e.second]++;
    }
    unsigned s = l.second[0].first;
    for (auto &e: nx) if (!indeg.count(e.first)) s = e.first;
    size_t n = 0;
    unsigned c = s;
    while (nx.count(c)) { c = nx[c]; n++; if (c == s) break; if (n > nx.size()) return false; }
    if (n != nx.size()) return false;
  }
  return true;
}
inline double area2(const double *a, const double *b, const double *c) {
  return 0.5 * ((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]));
}
// (a b c) orientation in long double
inline long double orient2(const double *a, const double *b, const double *c) {
  return ((long double) b[0] - a[0]) * ((long double) c[1] - a[1]) - ((long double) b[1] - a[1]) * ((long double) c[0] - a[0]);
}
// >0 if d inside the circle through ccw a b c
inline long double incircle(const double *a, const double *b, const double *c, const double *d) {
  long double ax = (long double) a[0] - d[0], ay = (long double) a[1] - d[1];
  long double bx = (long double) b[0] - d[0], by = (long double) b[1] - d[1];
  long double cx = (long double) c[0] - d[0], cy = (long double) c[1] - d[1];
  long double a2 = ax * ax + ay * ay, b2 = bx * bx + by * by, c2 = cx * cx + cy * cy;
  return ax * (by * c2 - b2 * cy) - ay * (bx * c2 - b2 * cx) + a2 * (bx * cy - by * cx);
}
}
#endif
