// C04 : connectivity tables against brute-force definitions
#include "vh.h"
#include "trimesh.h"
#include "delfem2/jagarray.h"
#include "delfem2/msh_topology_uniform.h"
#include "delfem2/msh_topology_mix.h"
namespace dfm2 = delfem2;
typedef std::vector<unsigned> VU;
typedef std::set<unsigned> SU;

// independent description of the element types (VTK conventions)
struct ED { const char *name; int nn; std::vector<std::vector<int>> faces; std::vector<std::pair<int, int>> edges; };
static const ED &ed(dfm2::MESHELEM_TYPE t) {
  static const ED d[8] = {
      {"tri", 3, {{1, 2}, {2, 0}, {0, 1}}, {{0, 1}, {1, 2}, {2, 0}}},
      {"tet", 4, {{1, 2, 3}, {0, 3, 2}, {0, 1, 3}, {0, 2, 1}}, {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}}},
      {"quad", 4, {{0, 1}, {1, 2}, {2, 3}, {3, 0}}, {{0, 1}, {1, 2}, {2, 3}, {3, 0}}},
      {"hex", 8, {{0, 4, 7, 3}, {1, 2, 6, 5}, {0, 1, 5, 4}, {3, 7, 6, 2}, {0, 3, 2, 1}, {4, 5, 6, 7}},
       {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {4, 5}, {5, 6}, {6, 7}, {7, 4}, {0, 4}, {1, 5}, {2, 6}, {3, 7}}},
      {"pyramid", 5, {{0, 3, 2, 1}, {0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}}, {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {0, 4}, {1, 4}, {2, 4}, {3, 4}}},
      {"wedge", 6, {{0, 2, 5, 3}, {1, 0, 3, 4}, {2, 1, 4, 5}, {0, 1, 2}, {3, 5, 4}}, {{0, 1}, {1, 2}, {2, 0}, {3, 4}, {4, 5}, {5, 3}, {0, 3}, {1, 4}, {2, 5}}},
      {"vox", 8, {{0, 4, 6, 2}, {1, 3, 7, 5}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 2, 3, 1}, {4, 5, 7, 6}},
       {{0, 1}, {2, 3}, {4, 5}, {6, 7}, {0, 2}, {1, 3}, {4, 6}, {5, 7}, {0, 4}, {1, 5}, {2, 6}, {3, 7}}},
      {"line", 2, {{0}, {1}}, {{0, 1}}}};
  return d[t];
}
static VU garbage(vh::Rng &r) {
  VU v(r.irange(0, 3) ? r.irange(0, 60) : 0);
  for (auto &x: v) x = r.chance(0.3) ? UINT_MAX : r.irange(0, 1000);
  return v;
}
template<class T> static std::vector<T> garbagei(vh::Rng &r) {
  auto g = garbage(r);
  return std::vector<T>(g.begin(), g.end());
}
// jagged array invariants; returns rows
static bool rows(vh::Ctx &ctx, const char *what, const VU &ind, const VU &dat, size_t np, std::vector<VU> &out) {
  out.assign(np, {});
  if (!ctx.check(ind.size() == np + 1, vh::fmt("%s_offset_count", what), vh::fmt("%zu offsets for %zu rows", ind.size(), np))) return false;
  if (!ctx.check(ind[0] == 0 && ind[np] == dat.size(), vh::fmt("%s_offset_ends", what), vh::fmt("first %u last %u data %zu", ind[0], ind[np], dat.size()))) return false;
  for (size_t i = 0; i < np; ++i) {
    if (!ctx.check(ind[i] <= ind[i + 1] && ind[i + 1] <= dat.size(), vh::fmt("%s_offset_order", what), vh::fmt("row %zu: %u..%u", i, ind[i], ind[i + 1]))) return false;
    out[i].assign(dat.begin() + ind[i], dat.begin() + ind[i + 1]);
  }
  ctx.count("jagged_rows", np);
  return true;
}
static void same_set(vh::Ctx &ctx, const char *what, size_t i, VU row, const SU &want) {
  VU s = row;
  std::sort(s.begin(), s.end());
  ctx.count("rows_compared");
  if (s == VU(want.begin(), want.end())) return;
  ctx.fail(vh::fmt("%s_row_differs", what), vh::fmt("row %zu has ", i) + vh::str(s) + " expected " + vh::str(VU(want.begin(), want.end())));
}
struct Mesh { dfm2::MESHELEM_TYPE type; VU el; size_t np; bool manifold = false; };
static Mesh soup(vh::Rng &r, dfm2::MESHELEM_TYPE t) {
  Mesh m;
  m.type = t;
  int nn = ed(t).nn;
  m.np = nn + r.irange(0, 14);
  int ne = r.irange(0, 25);
  for (int i = 0; i < ne; ++i) {
    VU p;
    for (unsigned k = 0; k < m.np; ++k) p.push_back(k);
    r.shuffle(p);
    if (i && r.chance(0.6)) { // share some nodes with an earlier element
      int j = r.irange(0, i - 1);
      VU q(m.el.begin() + j * nn, m.el.begin() + (j + 1) * nn);
      if (r.chance(0.5)) r.shuffle(q);
      int keep = r.irange(1, nn);
      VU s(q.begin(), q.begin() + keep);
      for (unsigned x: p) if ((int) s.size() < nn && std::find(s.begin(), s.end(), x) == s.end()) s.push_back(x);
      p = s;
      if (r.chance(0.5)) { p.resize(nn); r.shuffle(p); }
    }
    for (int k = 0; k < nn; ++k) m.el.push_back(p[k]);
  }
  m.np += r.irange(0, 3);
  return m;
}
// regular block of elements, some removed, vertices renumbered
static Mesh block(vh::Rng &r, dfm2::MESHELEM_TYPE t) {
  Mesh m;
  m.type = t;
  m.manifold = true;
  int nx = r.irange(1, 5), ny = r.irange(1, 5), nz = (t == dfm2::MESHELEM_TRI || t == dfm2::MESHELEM_QUAD) ? 1 : r.irange(1, 3);
  bool wrapx = r.chance(0.3) && nx >= 3;
  auto id = [&](int i, int j, int k) { if (wrapx) i %= nx; return unsigned(i + (nx + 1) * (j + (ny + 1) * k)); };
  m.np = (nx + 1) * (ny + 1) * (nz + 1);
  double drop = r.chance(0.5) ? 0.2 : 0;
  for (int k = 0; k < nz; ++k)
    for (int j = 0; j < ny; ++j)
      for (int i = 0; i < nx; ++i) {
        if (r.chance(drop)) continue;
        unsigned q[8] = {id(i, j, k), id(i + 1, j, k), id(i + 1, j + 1, k), id(i, j + 1, k), id(i, j, k + 1), id(i + 1, j, k + 1), id(i + 1, j + 1, k + 1), id(i, j + 1, k + 1)};
        auto put = [&](std::vector<int> v) { for (int x: v) m.el.push_back(q[x]); };
        switch (t) {
          case dfm2::MESHELEM_TRI: if (r.chance(0.5)) { put({0, 1, 2}); put({0, 2, 3}); } else { put({0, 1, 3}); put({1, 2, 3}); } break;
          case dfm2::MESHELEM_QUAD: put({0, 1, 2, 3}); break;
          case dfm2::MESHELEM_HEX: put({0, 1, 2, 3, 4, 5, 6, 7}); break;
          case dfm2::MESHELEM_VOX: put({0, 1, 3, 2, 4, 5, 7, 6}); break;
          case dfm2::MESHELEM_TET: // Kuhn subdivision: conforming
            put({0, 1, 2, 6}); put({0, 2, 3, 6}); put({0, 3, 7, 6}); put({0, 7, 4, 6}); put({0, 4, 5, 6}); put({0, 5, 1, 6});
            break;
          default: break;
        }
      }
  VU perm(m.np);
  for (size_t i = 0; i < m.np; ++i) perm[i] = i;
  r.shuffle(perm);
  for (auto &x: m.el) x = perm[x];
  // shuffle elements and rotate triangles
  int nn = ed(t).nn;
  size_t ne = m.el.size() / nn;
  VU ord(ne);
  for (size_t i = 0; i < ne; ++i) ord[i] = i;
  r.shuffle(ord);
  VU e2;
  for (unsigned i: ord) {
    int rot = (t == dfm2::MESHELEM_TRI || t == dfm2::MESHELEM_QUAD) ? r.irange(0, nn - 1) : 0;
    for (int k = 0; k < nn; ++k) e2.push_back(m.el[i * nn + (k + rot) % nn]);
  }
  m.el = e2;
  return m;
}
static Mesh anymesh(vh::Rng &r, dfm2::MESHELEM_TYPE t) {
  bool hasblock = t == dfm2::MESHELEM_TRI || t == dfm2::MESHELEM_QUAD || t == dfm2::MESHELEM_HEX || t == dfm2::MESHELEM_VOX || t == dfm2::MESHELEM_TET;
  return hasblock && r.chance(0.5) ? block(r, t) : soup(r, t);
}
static std::vector<VU> faces_of(dfm2::MESHELEM_TYPE t, const unsigned *e) {
  std::vector<VU> f;
  for (auto &l: ed(t).faces) { VU v; for (int k: l) v.push_back(e[k]); f.push_back(v); }
  return f;
}
static VU sorted(VU v) { std::sort(v.begin(), v.end()); return v; }
static std::vector<unsigned> components(size_t n, const std::vector<std::pair<unsigned, unsigned>> &links) {
  VU p(n);
  for (size_t i = 0; i < n; ++i) p[i] = i;
  std::function<unsigned(unsigned)> find = [&](unsigned x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; };
  for (auto &l: links) p[find(l.first)] = find(l.second);
  VU c(n);
  for (size_t i = 0; i < n; ++i) c[i] = find(i);
  return c;
}
template<class L> static void check_partition(vh::Ctx &ctx, const char *what, int ng, const L &lab, const VU &comp) {
  if (!ctx.check(lab.size() == comp.size(), vh::fmt("%s_label_count", what), "")) return;
  std::map<unsigned, long> m;
  std::set<long> used;
  for (size_t i = 0; i < comp.size(); ++i) {
    long l = (long) lab[i];
    if (!ctx.check(l >= 0 && l < ng, vh::fmt("%s_label_range", what), vh::fmt("elem %zu label %ld groups %d", i, l, ng))) return;
    auto it = m.find(comp[i]);
    if (it == m.end()) {
      if (!ctx.check(!used.count(l), vh::fmt("%s_merged_components", what), vh::fmt("elem %zu label %ld", i, l))) return;
      m[comp[i]] = l; used.insert(l);
    } else if (!ctx.check(it->second == l, vh::fmt("%s_split_component", what), vh::fmt("elem %zu label %ld other %ld", i, l, it->second))) return;
  }
  ctx.check((int) used.size() == ng, vh::fmt("%s_group_count", what), vh::fmt("%d groups, %zu components", ng, used.size()));
  ctx.count("components", used.size());
}

// ----------------------------------------------------------------
VH_FAMILY(uniform, 6000, 200000) {
  static const dfm2::MESHELEM_TYPE types[] = {dfm2::MESHELEM_TRI, dfm2::MESHELEM_TRI, dfm2::MESHELEM_QUAD, dfm2::MESHELEM_TET, dfm2::MESHELEM_HEX, dfm2::MESHELEM_VOX,
                                              dfm2::MESHELEM_PYRAMID, dfm2::MESHELEM_WEDGE};
  auto t = types[ctx.rng.irange(0, 7)];
  Mesh m = anymesh(ctx.rng, t);
  const ED &d = ed(t);
  int nn = d.nn;
  size_t ne = m.el.size() / nn, np = m.np;
  ctx.sig(vh::Hash().vu(m.el).u(np).u(t));
  ctx.sample(vh::fmt("%s ne=%zu np=%zu", d.name, ne, np));
  ctx.count(vh::fmt("mesh_%s", d.name));
  if (!ctx.check(dfm2::nNodeElem(t) == nn && dfm2::nFaceElem(t) == (int) d.faces.size() && dfm2::mapMeshElemType2NEdgeElem[t] == (int) d.edges.size(), "element_table_sizes", d.name)) return;
  // expectation
  std::vector<SU> elsup_e(np), psup_e(np), edge_e(np), uni_e(np);
  for (size_t ie = 0; ie < ne; ++ie) {
    const unsigned *e = &m.el[ie * nn];
    for (int i = 0; i < nn; ++i) { elsup_e[e[i]].insert(ie); for (int j = 0; j < nn; ++j) if (i != j) psup_e[e[i]].insert(e[j]); }
    for (auto &x: d.edges) {
      unsigned a = e[x.first], b = e[x.second];
      edge_e[a].insert(b); edge_e[b].insert(a);
      uni_e[std::min(a, b)].insert(std::max(a, b));
    }
  }
  VU ind = garbage(ctx.rng), dat = garbage(ctx.rng), pi = garbage(ctx.rng), pd = garbage(ctx.rng);
  std::vector<VU> R;
  if (t == dfm2::MESHELEM_TRI && ctx.rng.chance(0.5)) dfm2::JArray_ElSuP_MeshTri(ind, dat, m.el, np);
  else dfm2::JArray_ElSuP_MeshElem(ind, dat, m.el.data(), ne, nn, np);
  if (!rows(ctx, "elsup", ind, dat, np, R)) return;
  for (size_t i = 0; i < np; ++i) same_set(ctx, "elsup", i, R[i], elsup_e[i]);
  if (ctx.failed) return;
  if (ctx.rng.chance(0.5)) dfm2::JArray_PSuP_MeshElem(pi, pd, m.el.data(), ne, nn, np);
  else dfm2::JArrayPointSurPoint_MeshOneRingNeighborhood(pi, pd, m.el.data(), ind, dat, nn, np);
  if (!rows(ctx, "psup", pi, pd, np, R)) return;
  for (size_t i = 0; i < np; ++i) same_set(ctx, "psup", i, R[i], psup_e[i]);
  if (ctx.failed) return;
  // edges
  for (int bi = 0; bi < 2; ++bi) {
    VU ei = garbage(ctx.rng), eg = garbage(ctx.rng);
    dfm2::JArrayEdge_MeshElem(ei, eg, m.el.data(), t, ind, dat, bi == 1);
    if (!rows(ctx, bi ? "edge_bidir" : "edge_unidir", ei, eg, np, R)) return;
    for (size_t i = 0; i < np; ++i) same_set(ctx, bi ? "edge_bidir" : "edge_unidir", i, R[i], bi ? edge_e[i] : uni_e[i]);
  }
  {
    VU ln = garbage(ctx.rng);
    dfm2::MeshLine_MeshElem(ln, m.el.data(), ne, t, np);
    std::set<std::pair<unsigned, unsigned>> got, want;
    for (size_t i = 0; i + 1 < ln.size(); i += 2) got.insert({std::min(ln[i], ln[i + 1]), std::max(ln[i], ln[i + 1])});
    for (size_t i = 0; i < np; ++i) for (unsigned j: uni_e[i]) want.insert({i, j});
    ctx.check(ln.size() == want.size() * 2 && got == want, "line_elements_differ", vh::fmt("%s: %zu lines, %zu distinct, expected %zu", d.name, ln.size() / 2, got.size(), want.size()));
    ctx.count("unique_edges", want.size());
  }
  if (np) {
    VU ei = garbage(ctx.rng), eg = garbage(ctx.rng);
    dfm2::JArrayEdgeUnidir_PointSurPoint(ei, eg, pi, pd);
    if (!rows(ctx, "edge_from_psup", ei, eg, np, R)) return;
    for (size_t i = 0; i < np; ++i) { SU w; for (unsigned j: psup_e[i]) if (j > i) w.insert(j); same_set(ctx, "edge_from_psup", i, R[i], w); }
  }
  if (ctx.failed) return;
  // element adjacency (types with one kind of face)
  if (t != dfm2::MESHELEM_PYRAMID && t != dfm2::MESHELEM_WEDGE) {
    VU es = garbage(ctx.rng);
    size_t nf = d.faces.size();
    if (ctx.rng.chance(0.5)) dfm2::ElSuEl_MeshElem(es, m.el.data(), ne, t, np);
    else dfm2::ElSuEl_MeshElem(es, m.el.data(), ne, nn, ind, dat, (int) nf, (int) d.faces[0].size(), dfm2::noelElemFace(t));
    if (!ctx.check(es.size() == ne * nf, "elsuel_size", vh::fmt("%zu", es.size()))) return;
    std::map<VU, SU> fm;
    for (size_t ie = 0; ie < ne; ++ie) for (auto &f: faces_of(t, &m.el[ie * nn])) fm[sorted(f)].insert(ie);
    std::vector<std::pair<unsigned, unsigned>> links;
    for (size_t ie = 0; ie < ne; ++ie) {
      auto fs = faces_of(t, &m.el[ie * nn]);
      for (size_t k = 0; k < nf; ++k) {
        SU s = fm[sorted(fs[k])];
        s.erase(ie);
        unsigned g = es[ie * nf + k];
        bool ok = s.empty() ? g == UINT_MAX : s.count(g) > 0;
        if (!ctx.check(ok, "adjacent_element_wrong", vh::fmt("%s elem %zu face %zu: %u, candidates ", d.name, ie, k, g) + vh::str(VU(s.begin(), s.end())))) return;
        ctx.count("faces_checked");
        if (!s.empty()) ctx.count("faces_shared");
        if (g != UINT_MAX) links.push_back({ie, g});
        // uniform boundary of a manifold block: the neighbour lists us back
        if (m.manifold && g != UINT_MAX) {
          bool back = false;
          for (size_t j = 0; j < nf; ++j) if (es[g * nf + j] == ie) back = true;
          ctx.check(back, "adjacency_not_mutual", vh::fmt("elem %zu and %u", ie, g));
        }
      }
    }
    if (ne && m.manifold) {
      VU lab = garbage(ctx.rng);
      int ng = 77;
      dfm2::MakeGroupElem(ng, lab, m.el, es, (int) nf, nn);
      check_partition(ctx, "uniform_group", ng, lab, components(ne, links));
      // flood fill from one element over arbitrary previous flags
      unsigned ker = ctx.rng.irange(0, (int) ne - 1);
      VU fl(ne, 3);
      dfm2::MarkConnectedElements(fl, ker, 5, es);
      auto comp = components(ne, links);
      for (size_t i = 0; i < ne; ++i) ctx.check(fl[i] == (comp[i] == comp[ker] ? 5u : 3u), "flood_fill_wrong", vh::fmt("elem %zu", i));
    }
  }
}
VH_FAMILY(triangles, 2500, 80000) { // triangle-only utilities
  Mesh m = block(ctx.rng, dfm2::MESHELEM_TRI);
  auto &el = m.el;
  size_t ne = el.size() / 3;
  ctx.sig(vh::Hash().vu(el));
  if (!ne) return;
  VU es;
  dfm2::ElSuEl_MeshElem(es, el.data(), ne, dfm2::MESHELEM_TRI, m.np);
  std::multiset<VU> want;
  auto em = tmx::edges(el);
  for (size_t i = 0; i < ne; ++i)
    for (int k = 0; k < 3; ++k) {
      unsigned p = el[i * 3 + k], a = el[i * 3 + (k + 1) % 3], b = el[i * 3 + (k + 2) % 3];
      auto it = em.find({b, a});
      if (it == em.end()) continue;
      unsigned j = it->second[0];
      unsigned jk = 0;
      while (el[j * 3 + jk] == a || el[j * 3 + jk] == b) jk++;
      ctx.check(dfm2::FindAdjEdgeIndex(i, k, j, el.data()) == jk, "adjacent_edge_index", vh::fmt("tri %zu edge %d", i, k));
      if (i < j) want.insert({std::min(p, el[j * 3 + jk]), std::max(p, el[j * 3 + jk]), std::min(a, b), std::max(a, b)});
    }
  // every pair of triangles, adjacent or not
  for (int s = 0; s < 10; ++s) {
    unsigned i = ctx.rng.irange(0, (int) ne - 1), j = ctx.rng.irange(0, (int) ne - 1), k = ctx.rng.irange(0, 2);
    if (i == j) continue;
    unsigned a = el[i * 3 + (k + 1) % 3], b = el[i * 3 + (k + 2) % 3], w = UINT_MAX;
    for (unsigned l = 0; l < 3; ++l) if (el[j * 3 + (l + 1) % 3] == b && el[j * 3 + (l + 2) % 3] == a) w = l;
    ctx.check(dfm2::FindAdjEdgeIndex(i, k, j, el.data()) == w, "adjacent_edge_index_any", vh::fmt("tri %u edge %u other %u", i, k, j));
  }
  VU q = garbage(ctx.rng);
  dfm2::ElemQuad_DihedralTri(q, el.data(), ne, m.np);
  std::multiset<VU> got;
  for (size_t i = 0; i + 3 < q.size(); i += 4) got.insert({std::min(q[i], q[i + 1]), std::max(q[i], q[i + 1]), std::min(q[i + 2], q[i + 3]), std::max(q[i + 2], q[i + 3])});
  ctx.check(got == want && q.size() == want.size() * 4, "dihedral_elements_differ", vh::fmt("%zu vs %zu", got.size(), want.size()));
  ctx.count("dihedral_pairs", want.size());
  // each dihedral: ipo0 lies on the left triangle (ipo0, ipo2, ipo3)
  std::set<tmx::Tri> ts;
  for (auto &x: tmx::triset(el)) ts.insert(x);
  for (size_t i = 0; i + 3 < q.size(); i += 4)
    ctx.check(ts.count(tmx::canon(q[i], q[i + 2], q[i + 3])) && ts.count(tmx::canon(q[i + 1], q[i + 3], q[i + 2])), "dihedral_triangles_wrong", vh::fmt("%u %u %u %u", q[i], q[i + 1], q[i + 2], q[i + 3]));
  VU fl = el;
  dfm2::FlipElement_Tri(fl);
  tmx::TriSet w2;
  for (size_t i = 0; i < ne; ++i) w2.insert(tmx::canon(el[i * 3], el[i * 3 + 2], el[i * 3 + 1]));
  ctx.check(tmx::triset(fl) == w2, "flip_elements", "");
  for (int k = 0; k < 3; ++k) ctx.check(dfm2::FindIndexTri(&el[0], el[k]) == (unsigned) k, "find_index_tri", "");
  Mesh mq = anymesh(ctx.rng, dfm2::MESHELEM_QUAD);
  VU qt = garbage(ctx.rng);
  dfm2::convert2Tri_Quad(qt, mq.el);
  bool okq = qt.size() == mq.el.size() / 4 * 6;
  std::map<std::pair<unsigned, unsigned>, int> be, bt;
  if (ctx.check(okq, "quad_to_tri_count", "")) {
    for (size_t i = 0; i < mq.el.size() / 4; ++i) {
      // the two triangles of a quad have exactly its four directed edges as boundary
      std::map<std::pair<unsigned, unsigned>, int> bq, b2;
      for (int k = 0; k < 4; ++k) bq[{mq.el[i * 4 + k], mq.el[i * 4 + (k + 1) % 4]}]++;
      for (int h = 0; h < 2; ++h) for (int k = 0; k < 3; ++k) b2[{qt[i * 6 + h * 3 + k], qt[i * 6 + h * 3 + (k + 1) % 3]}]++;
      std::map<std::pair<unsigned, unsigned>, int> b3;
      for (auto &e: b2) if (!b2.count({e.first.second, e.first.first})) b3.insert(e);
      ctx.check(b3 == bq, "quad_to_tri_boundary", vh::fmt("quad %zu", i));
    }
  }
}
VH_FAMILY(jagged, 4000, 150000) { // generic jagged array operations
  auto &r = ctx.rng;
  size_t np = r.irange(1, 25);
  std::vector<VU> g(np);
  bool sym = r.chance(0.6), diag = r.chance(0.3);
  for (size_t i = 0; i < np; ++i)
    for (size_t j = 0; j < np; ++j) if ((i != j || diag) && r.chance(r.chance(0.5) ? 0.05 : 0.25)) { g[i].push_back(j); if (sym && i != j) g[j].push_back(i); }
  VU ind(1, 0), dat;
  for (auto &x: g) { std::sort(x.begin(), x.end()); x.erase(std::unique(x.begin(), x.end()), x.end()); r.shuffle(x); dat.insert(dat.end(), x.begin(), x.end()); ind.push_back(dat.size()); }
  ctx.sig(vh::Hash().vu(ind).vu(dat));
  std::vector<VU> R;
  {
    VU s = dat, s2 = dat;
    dfm2::JArray_Sort(ind, s);
    if (!s2.empty()) dfm2::JArray_Sort(ind.data(), np, s2.data());
    for (size_t i = 0; i < np; ++i) {
      VU w = sorted(g[i]);
      ctx.check(VU(s.begin() + ind[i], s.begin() + ind[i + 1]) == w, "sort_vector", vh::fmt("row %zu", i));
      ctx.check(VU(s2.begin() + ind[i], s2.begin() + ind[i + 1]) == w, "sort_pointer", vh::fmt("row %zu", i));
    }
  }
  {
    VU i1 = garbage(r), d1 = garbage(r);
    dfm2::JArray_AddDiagonal(i1, d1, ind.data(), ind.size(), dat.data(), dat.size());
    if (rows(ctx, "add_diagonal", i1, d1, np, R)) for (size_t i = 0; i < np; ++i) { SU w(g[i].begin(), g[i].end()); w.insert(i); same_set(ctx, "add_diagonal", i, R[i], w); }
  }
  {
    VU i1 = garbage(r), d1 = garbage(r);
    dfm2::JArray_Extend(i1, d1, ind.data(), ind.size(), dat.data());
    if (rows(ctx, "extend", i1, d1, np, R))
      for (size_t i = 0; i < np; ++i) { SU w; for (unsigned j: g[i]) for (unsigned k: g[j]) if (k != i) w.insert(k); same_set(ctx, "extend", i, R[i], w); }
  }
  {
    VU i1 = garbage(r), d1 = garbage(r);
    dfm2::JArrayEdgeUnidir_PointSurPoint(i1, d1, ind, dat);
    if (rows(ctx, "unidir", i1, d1, np, R)) for (size_t i = 0; i < np; ++i) { SU w; for (unsigned j: g[i]) if (j > i) w.insert(j); same_set(ctx, "unidir", i, R[i], w); }
    VU ln = garbage(r);
    dfm2::MeshLine_JArrayEdge(ln, ind, dat);
    VU w;
    for (size_t i = 0; i < np; ++i) for (unsigned j: g[i]) { w.push_back(i); w.push_back(j); }
    ctx.check(ln == w, "line_from_jagged", "");
  }
  { // hair rods: points on the same hair within distance two
    VU root(1, 0);
    int nh = r.irange(1, 4);
    for (int h = 0; h < nh; ++h) root.push_back(root.back() + r.irange(3, 8));
    VU i1 = garbage(r), d1 = garbage(r);
    dfm2::JArray_PSuP_Hair(i1, d1, root);
    size_t n = root.back();
    if (rows(ctx, "hair", i1, d1, n, R))
      for (int h = 0; h < nh; ++h)
        for (unsigned i = root[h]; i < root[h + 1]; ++i) {
          SU w;
          for (unsigned j = root[h]; j < root[h + 1]; ++j) if (j != i && (j > i ? j - i : i - j) <= 2) w.insert(j);
          same_set(ctx, "hair", i, R[i], w);
        }
  }
}
VH_FAMILY(split, 3000, 100000) { // separate position/texture indices -> one index
  auto &r = ctx.rng;
  Mesh m = anymesh(r, dfm2::MESHELEM_TRI);
  size_t nt = m.el.size() / 3, ntex = r.irange(1, 12);
  VU tex;
  bool per_tri_distinct = r.chance(0.3);
  for (size_t i = 0; i < nt * 3; ++i) tex.push_back(r.chance(0.5) ? m.el[i] % ntex : r.irange(0, (int) ntex - 1));
  std::vector<double> xyz(m.np * 3), uv(ntex * 2);
  for (auto &x: xyz) x = r.uni(-1, 1);
  for (auto &x: uv) x = r.uni(0, 1);
  ctx.sig(vh::Hash().vu(m.el).vu(tex));
  std::vector<double> ux(r.irange(0, 20), 7.), ut(r.irange(0, 20), 7.);
  VU tri = garbage(r), ixyz = garbage(r), itex = garbage(r);
  dfm2::UnifySeparateIndexing_PosTex(ux, ut, tri, ixyz, itex, xyz, uv, m.el, tex);
  std::map<std::pair<unsigned, unsigned>, unsigned> mp;
  if (!ctx.check(tri.size() == nt * 3 && ixyz.size() == itex.size() && ux.size() == ixyz.size() * 3 && ut.size() == itex.size() * 2, "unify_sizes",
                 vh::fmt("%zu corners %zu %zu", tri.size(), ixyz.size(), itex.size()))) return;
  for (size_t i = 0; i < nt * 3; ++i) {
    if (!ctx.check(tri[i] < ixyz.size() && ixyz[tri[i]] == m.el[i] && itex[tri[i]] == tex[i], "unify_corner_wrong", vh::fmt("corner %zu -> %u", i, tri[i]))) return;
    auto it = mp.emplace(std::make_pair(m.el[i], tex[i]), tri[i]).first;
    if (!ctx.check(it->second == tri[i], "unify_pair_duplicated", vh::fmt("corner %zu", i))) return;
  }
  ctx.check(mp.size() == ixyz.size(), "unify_count", vh::fmt("%zu unified, %zu distinct pairs", ixyz.size(), mp.size()));
  for (size_t i = 0; i < ixyz.size(); ++i)
    ctx.check(std::equal(&ux[i * 3], &ux[i * 3] + 3, &xyz[ixyz[i] * 3]) && std::equal(&ut[i * 2], &ut[i * 2] + 2, &uv[itex[i] * 2]), "unify_values", vh::fmt("vertex %zu", i));
  ctx.count("unified_vertices", ixyz.size());
  (void) per_tri_distinct;
}
VH_FAMILY(mixed, 4000, 150000) {
  auto &r = ctx.rng;
  // a column of hexes, pyramids on top, wedges and tets glued, or soup
  dfm2::CElemMixed M;
  std::vector<std::pair<dfm2::MESHELEM_TYPE, VU>> el;
  size_t np = 0;
  bool man = r.chance(0.6), surf = r.chance(0.3);
  if (surf) {
    int nx = r.irange(1, 5), ny = r.irange(1, 5);
    np = (nx + 1) * (ny + 1);
    for (int j = 0; j < ny; ++j)
      for (int i = 0; i < nx; ++i) {
        unsigned a = i + (nx + 1) * j, b = a + 1, c = b + nx + 1, e = c - 1;
        if (r.chance(0.1)) continue;
        if (r.chance(0.5)) el.push_back({dfm2::MESHELEM_QUAD, {a, b, c, e}});
        else { el.push_back({dfm2::MESHELEM_TRI, {a, b, c}}); el.push_back({dfm2::MESHELEM_TRI, {a, c, e}}); }
      }
  } else if (man) {
    int nx = r.irange(1, 4), ny = r.irange(1, 3), nz = r.irange(1, 3);
    auto id = [&](int i, int j, int k) { return unsigned(i + (nx + 1) * (j + (ny + 1) * k)); };
    np = (nx + 1) * (ny + 1) * (nz + 1);
    std::vector<char> colsplit(nx * ny);
    for (auto &c: colsplit) c = r.irange(0, 2);
    for (int k = 0; k < nz; ++k)
      for (int j = 0; j < ny; ++j)
        for (int i = 0; i < nx; ++i) {
          VU q = {id(i, j, k), id(i + 1, j, k), id(i + 1, j + 1, k), id(i, j + 1, k), id(i, j, k + 1), id(i + 1, j, k + 1), id(i + 1, j + 1, k + 1), id(i, j + 1, k + 1)};
          if (r.chance(0.1)) continue;
          int c = colsplit[j * nx + i];
          if (c == 0) el.push_back({dfm2::MESHELEM_HEX, q});
          else if (c == 1) { // two wedges (orientation 0,2,1 / 3,5,4 outward as in the face table)
            el.push_back({dfm2::MESHELEM_WEDGE, {q[0], q[2], q[1], q[4], q[6], q[5]}});
            el.push_back({dfm2::MESHELEM_WEDGE, {q[0], q[3], q[2], q[4], q[7], q[6]}});
          } else { // six pyramids around a centre point
            unsigned ctr = np++;
            static const int f[6][4] = {{0, 4, 7, 3}, {1, 2, 6, 5}, {0, 1, 5, 4}, {3, 7, 6, 2}, {0, 3, 2, 1}, {4, 5, 6, 7}};
            for (auto &x: f) {
              if (r.chance(0.1)) { // split one into two tets: leaves non matching faces on purpose
                el.push_back({dfm2::MESHELEM_TET, {q[x[0]], q[x[2]], q[x[1]], ctr}});
                el.push_back({dfm2::MESHELEM_TET, {q[x[0]], q[x[3]], q[x[2]], ctr}});
              } else el.push_back({dfm2::MESHELEM_PYRAMID, {q[x[3]], q[x[2]], q[x[1]], q[x[0]], ctr}});
            }
          }
        }
  } else {
    np = 8 + r.irange(0, 6);
    int ne = r.irange(1, 12);
    static const dfm2::MESHELEM_TYPE ts[] = {dfm2::MESHELEM_TET, dfm2::MESHELEM_HEX, dfm2::MESHELEM_PYRAMID, dfm2::MESHELEM_WEDGE, dfm2::MESHELEM_VOX};
    for (int i = 0; i < ne; ++i) {
      auto t = ts[r.irange(0, 4)];
      VU p(np);
      for (unsigned k = 0; k < np; ++k) p[k] = k;
      if (r.chance(0.7)) for (int s = r.irange(0, 3); s > 0; --s) std::swap(p[r.irange(0, (int) np - 1)], p[r.irange(0, (int) np - 1)]);
      else r.shuffle(p);
      p.resize(ed(t).nn);
      el.push_back({t, p});
    }
  }
  if (el.empty()) return;
  r.shuffle(el);
  vh::Hash H;
  // add in runs of equal type
  for (size_t i = 0; i < el.size();) {
    std::vector<int> in;
    size_t j = i;
    while (j < el.size() && el[j].first == el[i].first && (j == i || r.chance(0.7))) { in.insert(in.end(), el[j].second.begin(), el[j].second.end()); ++j; }
    M.AddElement(el[i].first, in);
    i = j;
  }
  size_t ne = el.size();
  for (auto &e: el) { H.vu(e.second); H.u(e.first); ctx.count(vh::fmt("mix_%s", ed(e.first).name)); }
  ctx.sig(H);
  if (!ctx.check(M.nElem() == (int) ne && M.aElemType.size() == ne && M.aElemInd.size() == ne + 1 && M.aElemInd[ne] == M.aElem.size(), "mix_add_element_sizes", "")) return;
  for (size_t i = 0; i < ne; ++i)
    if (!ctx.check(M.aElemType[i] == el[i].first && VU(M.aElem.begin() + M.aElemInd[i], M.aElem.begin() + M.aElemInd[i + 1]) == el[i].second, "mix_add_element_content", vh::fmt("elem %zu", i))) return;
  VU ind = garbage(r), dat = garbage(r);
  std::vector<VU> R;
  M.MakeElemSurroundingPoint(ind, dat, (int) np);
  if (!rows(ctx, "mix_elsup", ind, dat, np, R)) return;
  std::vector<SU> w(np);
  for (size_t i = 0; i < ne; ++i) for (unsigned v: el[i].second) w[v].insert(i);
  for (size_t i = 0; i < np; ++i) same_set(ctx, "mix_elsup", i, R[i], w[i]);
  std::vector<int> fi = garbagei<int>(r), fr = garbagei<int>(r);
  if (r.chance(0.5)) M.MakeSurroundingRelationship(fi, fr, ind, dat);
  else M.MakeSurroundingRelationship(fi, fr, (int) np);
  if (!ctx.check(fi.size() == ne + 1 && fi[0] == 0, "mix_face_offsets", "")) return;
  std::map<VU, std::set<std::pair<int, int>>> fm;
  for (size_t i = 0; i < ne; ++i) {
    auto fs = faces_of(el[i].first, el[i].second.data());
    for (size_t k = 0; k < fs.size(); ++k) fm[sorted(fs[k])].insert({(int) i, (int) k});
    if (!ctx.check(fi[i + 1] - fi[i] == (int) fs.size(), "mix_face_offsets", vh::fmt("elem %zu", i))) return;
  }
  if (!ctx.check(fr.size() == 2 * (size_t) fi[ne], "mix_face_size", "")) return;
  std::vector<std::pair<unsigned, unsigned>> links;
  std::vector<std::pair<dfm2::MESHELEM_TYPE, VU>> bnd;
  for (size_t i = 0; i < ne; ++i) {
    auto fs = faces_of(el[i].first, el[i].second.data());
    for (size_t k = 0; k < fs.size(); ++k) {
      auto s = fm[sorted(fs[k])];
      for (auto it = s.begin(); it != s.end();) if (it->first == (int) i) it = s.erase(it); else ++it;
      int j = fr[(fi[i] + k) * 2], jf = fr[(fi[i] + k) * 2 + 1];
      bool ok = s.empty() ? j == -1 : s.count({j, jf}) > 0;
      if (!ctx.check(ok, "mix_adjacent_face_wrong", vh::fmt("elem %zu (%s) face %zu -> elem %d face %d, %zu candidates", i, ed(el[i].first).name, k, j, jf, s.size()))) return;
      ctx.count("mix_faces_checked");
      if (!s.empty()) { links.push_back({i, j}); ctx.count("mix_faces_shared"); }
      else bnd.push_back({fs[k].size() == 3 ? dfm2::MESHELEM_TRI : dfm2::MESHELEM_QUAD, fs[k]});
    }
  }
  std::vector<int> lab = garbagei<int>(r);
  int ng = -5;
  if (man || surf) {
    if (r.chance(0.5)) M.MakeGroupElem(ng, lab, (int) np); else M.MakeGroupElem(ng, lab, fi, fr);
    check_partition(ctx, "mix_group", ng, lab, components(ne, links));
    if (ctx.failed) return;
    int pick = r.irange(0, ng - 1);
    dfm2::CElemMixed C;
    C.aElem = garbage(r);
    M.ClipGroup(C, pick, lab);
    size_t n = 0;
    for (size_t i = 0; i < ne; ++i) {
      if (lab[i] != pick) continue;
      if (!ctx.check(n < C.aElemType.size() && C.aElemType[n] == el[i].first && C.aElemInd.size() > n + 1 && C.aElemInd[n + 1] <= C.aElem.size() &&
                         VU(C.aElem.begin() + C.aElemInd[n], C.aElem.begin() + C.aElemInd[n + 1]) == el[i].second, "clip_group", vh::fmt("elem %zu", i))) return;
      ++n;
    }
    ctx.check(n == C.aElemType.size() && C.aElemInd.size() == n + 1, "clip_group_size", "");
  }
  if (!surf) {
    dfm2::CElemMixed B;
    B.aElem = garbage(r);
    B.aElemInd = garbage(r);
    if (r.chance(0.5)) M.makeBoundary(B, (int) np); else M.makeBoundary(B, fi, fr);
    if (!ctx.check(B.aElemType.size() == bnd.size() && B.aElemInd.size() == bnd.size() + 1 && B.aElemInd[0] == 0 && B.aElemInd.back() == B.aElem.size(), "boundary_size",
                   vh::fmt("%zu faces, expected %zu", B.aElemType.size(), bnd.size()))) return;
    // same oriented polygons (up to rotation)
    std::multiset<VU> a, b;
    auto rot = [](VU f) { std::rotate(f.begin(), std::min_element(f.begin(), f.end()), f.end()); return f; };
    for (auto &x: bnd) a.insert(rot(x.second));
    for (size_t i = 0; i < bnd.size(); ++i) {
      if (!ctx.check(B.aElemInd[i] <= B.aElemInd[i + 1] && B.aElemInd[i + 1] <= B.aElem.size(), "boundary_offsets", "")) return;
      VU f(B.aElem.begin() + B.aElemInd[i], B.aElem.begin() + B.aElemInd[i + 1]);
      if (!ctx.check((int) f.size() == ed(B.aElemType[i]).nn, "boundary_type", "")) return;
      b.insert(rot(f));
    }
    ctx.check(a == b, "boundary_faces_differ", "");
    ctx.count("boundary_faces", bnd.size());
    if (man) { // the boundary of a conforming block is a closed oriented surface
      std::map<std::pair<unsigned, unsigned>, int> c;
      for (auto &f: b) for (size_t k = 0; k < f.size(); ++k) { c[{f[k], f[(k + 1) % f.size()]}]++; c[{f[(k + 1) % f.size()], f[k]}]--; }
      for (auto &e: c) if (e.second) { ctx.fail("boundary_not_closed", vh::fmt("edge %u-%u", e.first.first, e.first.second)); break; }
      ctx.count("closed_boundaries");
    }
    std::vector<int> fl = garbagei<int>(r);
    VU tr = garbage(r);
    B.FlipElement(fl);
    B.getTriElement(tr);
    if (ctx.check(fl.size() == B.aElem.size(), "mix_flip_size", ""))
      for (size_t i = 0; i < bnd.size(); ++i) {
        VU f(B.aElem.begin() + B.aElemInd[i], B.aElem.begin() + B.aElemInd[i + 1]), g(fl.begin() + B.aElemInd[i], fl.begin() + B.aElemInd[i + 1]);
        std::reverse(f.begin(), f.end());
        ctx.check(rot(f) == rot(g), "mix_flip", vh::fmt("face %zu", i));
      }
    std::map<std::pair<unsigned, unsigned>, int> c1, c2;
    size_t nt = 0;
    for (auto &x: bnd) { nt += x.second.size() - 2; for (size_t k = 0; k < x.second.size(); ++k) { unsigned p = x.second[k], q = x.second[(k + 1) % x.second.size()]; c1[{p, q}]++; c1[{q, p}]--; } }
    for (size_t i = 0; i < tr.size() / 3; ++i) for (int k = 0; k < 3; ++k) { unsigned p = tr[i * 3 + k], q = tr[i * 3 + (k + 1) % 3]; c2[{p, q}]++; c2[{q, p}]--; }
    for (auto it = c1.begin(); it != c1.end();) if (!it->second) it = c1.erase(it); else ++it;
    for (auto it = c2.begin(); it != c2.end();) if (!it->second) it = c2.erase(it); else ++it;
    ctx.check(tr.size() == nt * 3 && c1 == c2, "mix_to_tri", vh::fmt("%zu triangles, expected %zu", tr.size() / 3, nt));
  }
}
