// C15: block sparse matrices against a dense model driven by the same operations (integer values: exact comparison).
#include "../lib/vh.h"
#include "delfem2/jagarray.h"
#include "delfem2/ls_block_sparse.h"
#include "delfem2/ls_masterslave.h"
#include "delfem2/ls_pentadiagonal.h"
#include <set>
#include <complex>
#include <algorithm>
namespace d = delfem2;
typedef std::complex<double> cd;
typedef std::vector<std::vector<unsigned>> Adj;

// an adjacency structure without the diagonal; symmetric or not
static Adj pattern(vh::Rng &r, unsigned n, bool sym) {
  std::vector<std::set<unsigned>> s(n);
  int kind = r.irange(0, 4);
  double p = kind == 0 ? 0.1 : kind == 1 ? 0.4 : kind == 2 ? 1. : 0.;
  for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (i != j && r.chance(p)) { s[i].insert(j); if (sym) s[j].insert(i); }
  if (kind == 3) for (unsigned i = 0; i + 1 < n; ++i) { s[i].insert(i + 1); s[i + 1].insert(i); }
  if (kind == 4) for (unsigned i = 1; i < n; ++i) { s[0].insert(i); s[i].insert(0); }
  Adj a(n);
  for (unsigned i = 0; i < n; ++i) { a[i].assign(s[i].begin(), s[i].end()); if (r.chance(0.6)) r.shuffle(a[i]); }
  return a;
}
static void jag(const Adj &a, std::vector<unsigned> &ind, std::vector<unsigned> &arr) {
  ind.assign(1, 0); arr.clear();
  for (auto &x : a) { arr.insert(arr.end(), x.begin(), x.end()); ind.push_back(arr.size()); }
}
template <class T> static T val(vh::Rng &r) { if constexpr (std::is_same_v<T, cd>) return cd(r.irange(-9, 9), r.irange(-9, 9)); else return (T)r.irange(-9, 9); }

template <class T> struct Dense {
  unsigned nb = 0, len = 0, n = 0;
  std::vector<T> a;
  void init(unsigned nb_, unsigned l) { nb = nb_; len = l; n = nb * len; a.assign((size_t)n * n, T(0)); }
  T &at(unsigned i, unsigned j) { return a[(size_t)i * n + j]; }
};
// the sparse arrays say exactly what the dense model says
template <class T> static bool same(const d::CMatrixSparse<T> &A, Dense<T> &D, const Adj &adj, std::string &why) {
  if (A.nrowblk_ != D.nb || A.ncolblk_ != D.nb || A.nrowdim_ != D.len || A.ncoldim_ != D.len) { why = "sizes"; return false; }
  if (A.col_ind_.size() != D.nb + 1) { why = "row index size"; return false; }
  unsigned L = D.len; std::vector<char> seen((size_t)D.nb * D.nb, 0);
  for (unsigned i = 0; i < D.nb; ++i) {
    if (A.col_ind_[i + 1] - A.col_ind_[i] != adj[i].size()) { why = "row length"; return false; }
    for (unsigned k = A.col_ind_[i]; k < A.col_ind_[i + 1]; ++k) {
      unsigned j = A.row_ptr_[k]; if (j != adj[i][k - A.col_ind_[i]]) { why = "pattern"; return false; }
      seen[i * D.nb + j] = 1;
      for (unsigned p = 0; p < L; ++p) for (unsigned q = 0; q < L; ++q) if (A.val_crs_[(size_t)k * L * L + p * L + q] != D.at(i * L + p, j * L + q)) { why = vh::fmt("block (%u,%u) entry (%u,%u)", i, j, p, q); return false; }
    }
    seen[i * D.nb + i] = 1;
    for (unsigned p = 0; p < L; ++p) for (unsigned q = 0; q < L; ++q) if (A.val_dia_[(size_t)i * L * L + p * L + q] != D.at(i * L + p, i * L + q)) { why = vh::fmt("diagonal block %u entry (%u,%u)", i, p, q); return false; }
  }
  for (unsigned i = 0; i < D.nb; ++i) for (unsigned j = 0; j < D.nb; ++j) if (!seen[i * D.nb + j]) for (unsigned p = 0; p < L; ++p) for (unsigned q = 0; q < L; ++q) if (D.at(i * L + p, j * L + q) != T(0)) { why = "dense model has an entry outside of the pattern"; return false; }
  return true;
}
template <class T> static void products(vh::Ctx &ctx, const d::CMatrixSparse<T> &A, Dense<T> &D) {
  auto &r = ctx.rng;
  std::vector<T> x(D.n), y(D.n), y0;
  for (auto &v : x) v = val<T>(r);
  for (auto &v : y) v = val<T>(r);
  y0 = y; T al = val<T>(r), be = val<T>(r);
  if (r.chance(0.2)) al = T(1); if (r.chance(0.2)) be = T(0);
  A.MatVec(y.data(), al, x.data(), be);
  for (unsigned i = 0; i < D.n; ++i) { T e(0); for (unsigned j = 0; j < D.n; ++j) e += D.at(i, j) * x[j]; if (!CK(y[i] == al * e + be * y0[i], "matrix-vector product", "row %u of %u, block size %u", i, D.n, D.len)) return; }
  y = y0; A.MatTVec(y.data(), al, x.data(), be);
  for (unsigned i = 0; i < D.n; ++i) { T e(0); for (unsigned j = 0; j < D.n; ++j) e += D.at(j, i) * x[j]; if (!CK(y[i] == al * e + be * y0[i], "transposed matrix-vector product", "row %u of %u, block size %u", i, D.n, D.len)) return; }
  if (D.len == 1) {
    unsigned m = r.irange(1, 4); std::vector<T> X((size_t)D.n * m), Y((size_t)D.n * m), Y0;
    for (auto &v : X) v = val<T>(r); for (auto &v : Y) v = val<T>(r); Y0 = Y;
    A.MatVecDegenerate(Y.data(), m, al, X.data(), be);
    for (unsigned i = 0; i < D.n; ++i) for (unsigned k = 0; k < m; ++k) { T e(0); for (unsigned j = 0; j < D.n; ++j) e += D.at(i, j) * X[j * m + k]; if (!CK(Y[i * m + k] == al * e + be * Y0[i * m + k], "expanded matrix-vector product", "row %u", i)) return; }
    ctx.count("degenerate");
  }
  ctx.count(vh::fmt("product_block%u", D.len));
}
template <class T, int NR, int NC, int L> static void fixed_merge(d::CMatrixSparse<T> &A, const unsigned *ir, const unsigned *ic, const std::vector<T> &e, std::vector<unsigned> &buf, bool &ok) {
  if constexpr (L == 0) { T m[NR][NC]; for (int i = 0; i < NR; ++i) for (int j = 0; j < NC; ++j) m[i][j] = e[i * NC + j]; ok = d::Merge<NR, NC, T>(A, ir, ic, m, buf); }
  else { T m[NR][NC][L][L]; for (int i = 0; i < NR; ++i) for (int j = 0; j < NC; ++j) for (int p = 0; p < L; ++p) for (int q = 0; q < L; ++q) m[i][j][p][q] = e[((i * NC + j) * L + p) * L + q]; ok = d::Merge<NR, NC, L, L, T>(A, ir, ic, m, buf); }
}

template <class T> static void history(vh::Ctx &ctx) {
  auto &r = ctx.rng;
  d::CMatrixSparse<T> A, other; Dense<T> D; Adj adj; vh::Hash h; std::vector<unsigned> buf; bool ready = false;
  if (r.chance(0.2)) buf.assign(r.irange(0, 30), UINT_MAX); // a merge buffer used by another matrix before
  int nops = r.irange(8, 40);
  std::string trace;
  for (int op = 0; op < nops; ++op) {
    int o = ready ? r.irange(0, 19) : 0;
    if (o == 0) { // (re-)initialise with another size and pattern
      unsigned n = r.irange(2, 9), L = r.pick({1, 1, 2, 2, 3, 3, 4, 4, 5, 6});
      do adj = pattern(r, n, r.chance(0.7)); while (n > 1 && [&] { size_t s = 0; for (auto &a : adj) s += a.size(); return s == 0; }());
     
      std::vector<unsigned> ind, arr; jag(adj, ind, arr);
      A.Initialize(n, L, true); A.SetPattern(ind.data(), ind.size(), arr.data(), arr.size()); 
      if (!CK(A.setZero(), "matrix is cleared", "")) return;
      D.init(n, L); h.u(n).u(L).vu(ind).vu(arr); ready = true; trace += "I"; ctx.count("init");
    } else if (o == 1) { A.setZero(); D.init(D.nb, D.len); trace += "Z"; }
    else if (o <= 9) { // an element: a list of blocks that are mutually connected
      unsigned L = D.len, bs = L * L; std::vector<unsigned> rows, cols;
      int style = r.irange(0, 3);
      // grow a clique
      auto has = [&](unsigned i, unsigned j) { return i == j || std::find(adj[i].begin(), adj[i].end(), j) != adj[i].end(); };
      std::vector<unsigned> ord(D.nb); for (unsigned i = 0; i < D.nb; ++i) ord[i] = i; r.shuffle(ord); size_t mx = r.irange(1, 4);
      for (unsigned c : ord) { bool ok = rows.size() < mx; for (unsigned q : rows) ok = ok && has(q, c) && has(c, q); if (ok) rows.push_back(c); }
      cols = rows;
      if (style == 1) r.shuffle(cols);                                                    // another order of the columns
      if (style == 2) { // one row against some columns
        rows.resize(1); cols = adj[rows[0]]; if (r.chance(0.5)) cols.push_back(rows[0]); r.shuffle(cols); if (cols.size() > 3) cols.resize(3); if (cols.empty()) cols = rows; }
      bool self = rows == cols;
      std::vector<T> e(rows.size() * cols.size() * bs); for (auto &v : e) v = val<T>(r);
      for (size_t i = 0; i < rows.size(); ++i) for (size_t j = 0; j < cols.size(); ++j) for (unsigned p = 0; p < L; ++p) for (unsigned q = 0; q < L; ++q) D.at(rows[i] * L + p, cols[j] * L + q) += e[((i * cols.size() + j) * L + p) * L + q];
      bool ok = true; unsigned nr = rows.size(), nc = cols.size(); int how = 0;
      if (r.chance(0.3)) buf.clear();
#define FM(NR, NC, LL) if (how == 0 && nr == NR && nc == NC && (LL == 0 ? L == 1 : L == LL) && r.chance(0.7)) { fixed_merge<T, NR, NC, LL>(A, rows.data(), cols.data(), e, buf, ok); how = LL ? 2 : 1; }
      FM(3, 3, 0) FM(2, 2, 0) FM(4, 4, 0) FM(1, 3, 0) FM(3, 3, 1) FM(2, 2, 1) FM(3, 3, 2) FM(2, 2, 2) FM(1, 2, 2) FM(3, 3, 3) FM(4, 4, 3) FM(2, 2, 3) FM(1, 3, 3) FM(3, 3, 4) FM(2, 2, 4) FM(2, 2, 6)
      if (how == 0) ok = d::Mearge(A, nr, rows.data(), nc, cols.data(), bs, e.data(), buf);
      ctx.count(how == 0 ? "merge_dynamic" : how == 1 ? "merge_scalar" : "merge_block"); if (!self) ctx.count("merge_rows_differ_from_columns");
      CK(ok, "element inside of the pattern is accepted", ""); trace += how == 0 ? "M" : how == 1 ? "m" : "b"; h.vu(rows).vu(cols);
    } else if (o == 10) { T v = val<T>(r); A.AddDia(v); for (unsigned i = 0; i < D.n; ++i) D.at(i, i) += v; trace += "D"; ctx.count("adddia"); }
    else if (o == 11) {
      std::vector<T> lm(D.nb); for (auto &v : lm) v = val<T>(r); int s = r.irange(-3, 3);
      if constexpr (std::is_same_v<T, cd> || true) A.AddDia_LumpedMass(lm.data(), s);
      for (unsigned i = 0; i < D.nb; ++i) for (unsigned p = 0; p < D.len; ++p) D.at(i * D.len + p, i * D.len + p) += lm[i] * T(s); trace += "L"; ctx.count("lumped");
    } else if (o <= 15) { // boundary conditions
      std::vector<int> f(D.n, 0); double p = r.pick({0., 0.1, 0.4, 1.}); for (auto &v : f) if (r.chance(p)) v = r.pick({1, 1, 2, -1}); if (r.chance(0.3)) for (unsigned i = 0; i < D.nb; ++i) { int v = r.chance(0.3); for (unsigned q = 0; q < D.len; ++q) f[i * D.len + q] = v; }
      h.vu(std::vector<unsigned>(f.begin(), f.end()));
      auto blk = [&](unsigned i) { return i / D.len; };
      int w = o == 12 || o == 15 ? 0 : r.irange(0, 3); T dv = w ? val<T>(r) : T(1);
      auto ddia = [&] { for (unsigned i = 0; i < D.n; ++i) if (f[i]) { for (unsigned j = blk(i) * D.len; j < (blk(i) + 1) * D.len; ++j) D.at(i, j) = D.at(j, i) = T(0); D.at(i, i) = dv; } };
      auto drow = [&] { for (unsigned i = 0; i < D.n; ++i) if (f[i]) for (unsigned j = 0; j < D.n; ++j) if (blk(i) != blk(j)) D.at(i, j) = T(0); };
      auto dcol = [&] { for (unsigned i = 0; i < D.n; ++i) if (f[i]) for (unsigned j = 0; j < D.n; ++j) if (blk(i) != blk(j)) D.at(j, i) = T(0); };
      if (w == 0) { A.SetFixedBC(f.data()); ddia(); drow(); dcol(); ctx.count("fixed"); for (unsigned i = 0; i < D.n; ++i) if (f[i]) for (unsigned j = 0; j < D.n; ++j) if (D.at(i, j) != T(i == j)) ctx.count("model_error"); }
      if (w == 1) { A.SetFixedBC_Dia(f.data(), dv); ddia(); ctx.count("fixed_dia"); }
      if (w == 2) { A.SetFixedBC_Row(f.data()); drow(); ctx.count("fixed_row"); }
      if (w == 3) { A.SetFixedBC_Col(f.data()); dcol(); ctx.count("fixed_col"); }
      trace += "F";
    } else if (o == 16) { // copy; the copy is independent of the original
      d::CMatrixSparse<T> B; if (r.chance(0.5)) { B = A; } else { other = A; B = other; }
      std::string why; CK(same(B, D, adj, why), "copy has the pattern and values of the original", "%s", why.c_str());
      A.AddDia(T(3)); if (!A.val_crs_.empty()) A.val_crs_[0] += T(1); CK(same(B, D, adj, why), "copy is independent of the original", "%s", why.c_str()); A = B; trace += "C"; ctx.count("copy");
    } else if (o == 17) {
      if constexpr (std::is_same_v<T, double>) {
        if (r.chance(0.5)) { std::vector<double> s(D.nb); for (auto &v : s) v = r.pick({1., 2., -1., 0., 0.5}); d::MatSparse_ScaleBlk_LeftRight(A, s.data()); for (unsigned i = 0; i < D.n; ++i) for (unsigned j = 0; j < D.n; ++j) D.at(i, j) *= s[i / D.len] * s[j / D.len]; ctx.count("scale_block"); }
        else { std::vector<double> s(D.n); for (auto &v : s) v = r.pick({1., 2., -1., 0., 0.5}); d::MatSparse_ScaleBlkLen_LeftRight(A, s.data()); for (unsigned i = 0; i < D.n; ++i) for (unsigned j = 0; j < D.n; ++j) D.at(i, j) *= s[i] * s[j]; ctx.count("scale_dof"); }
        trace += "S"; } }
    else if (o == 18) {
      if constexpr (std::is_same_v<T, double>) { double e = 0; for (unsigned i = 0; i < D.n; ++i) for (unsigned j = 0; j < D.n; ++j) { bool there = i / D.len == j / D.len || std::find(adj[i / D.len].begin(), adj[i / D.len].end(), j / D.len) != adj[i / D.len].end(); if (there) e += (D.at(i, j) - D.at(j, i)) * (D.at(i, j) - D.at(j, i)); }
        CK(d::CheckSymmetry(A) == e, "asymmetry measure", "%g expected %g", d::CheckSymmetry(A), e); ctx.count("symmetry"); } }
    else if (o == 19) products(ctx, A, D);
    if (ready) { std::string why; if (!CK(same(A, D, adj, why), "sparse matrix represents the dense one", "%s after %s", why.c_str(), trace.c_str())) return; 
      double mx = 0; for (auto v : D.a) mx = std::max(mx, (double)std::abs(v)); if (mx > 1e4) { A.setZero(); D.init(D.nb, D.len); } }
  }
  if (ready) products(ctx, A, D);
  ctx.sig(h.h); ctx.sample(trace);
}
VH_FAMILY(history_double, 5000, 150000) { history<double>(ctx); }
VH_FAMILY(history_float, 2000, 50000) { history<float>(ctx); }
VH_FAMILY(history_complex, 2000, 50000) { history<cd>(ctx); }

// multi-point constraints: T^t A T with identity at the slaves
VH_FAMILY(master_slave, 6000, 150000) {
  auto &r = ctx.rng; unsigned n = r.irange(2, 12), L = r.irange(1, 3); Adj adj = pattern(r, n, true); std::vector<unsigned> ind0, arr0; jag(adj, ind0, arr0);
  // slaves: some dofs follow the same dof of another node which is itself free
  std::vector<unsigned> ms(n * L, UINT_MAX); int style = r.irange(0, 2); double p = r.uni(0.1, 0.7); std::vector<char> ismaster(n * L, 0);
  for (unsigned i = 0; i < n; ++i) for (unsigned q = 0; q < L; ++q) { unsigned m = style == 0 ? 0 : (unsigned)r.irange(0, n - 1); if (!r.chance(p) || m == i || ismaster[i * L + q] || ms[m * L + q] != UINT_MAX) continue; ms[i * L + q] = m * L + q; ismaster[m * L + q] = 1; }
  if (style == 2) for (unsigned i = 0; i < n; ++i) if (std::none_of(&ms[i * L], &ms[i * L] + L, [](unsigned v) { return v == UINT_MAX; })) ctx.count("whole_node_slaved");
  ctx.sig(vh::Hash().u(n).u(L).vu(ind0).vu(arr0).vu(ms).h); bool any = std::any_of(ms.begin(), ms.end(), [](unsigned v) { return v != UINT_MAX; });
  std::vector<unsigned> ind = {7, 7}, arr = {3}; d::JArray_AddMasterSlavePattern(ind, arr, ms.data(), L, ind0.data(), ind0.size(), arr0.data());
  if (!CK(ind.size() == n + 1 && ind[0] == 0 && ind[n] == arr.size(), "constrained pattern is consistent", "")) return;
  Adj a2(n); for (unsigned i = 0; i < n; ++i) { if (!CK(ind[i] <= ind[i + 1], "constrained pattern is consistent", "")) return; std::set<unsigned> s; for (unsigned k = ind[i]; k < ind[i + 1]; ++k) { CK(arr[k] < n && arr[k] != i && s.insert(arr[k]).second, "constrained pattern has no repetition and no diagonal", "row %u", i); a2[i].push_back(arr[k]); } for (unsigned j : adj[i]) CK(s.count(j) == 1, "constrained pattern keeps the original one", "row %u", i); }
  if (!any) CK(ind == ind0 && std::is_permutation(arr.begin(), arr.end(), arr0.begin()), "pattern without constraints is unchanged", "");
  if (arr.empty()) return;
  d::CMatrixSparse<double> A; A.Initialize(n, L, true); A.SetPattern(ind.data(), ind.size(), arr.data(), arr.size()); A.setZero(); Dense<double> D; D.init(n, L);
  std::vector<unsigned> buf; for (unsigned i = 0; i < n; ++i) { std::vector<unsigned> c = adj[i]; c.push_back(i); std::vector<double> e(c.size() * L * L); for (auto &v : e) v = r.irange(-9, 9); for (size_t k = 0; k < c.size(); ++k) for (unsigned a = 0; a < L; ++a) for (unsigned b = 0; b < L; ++b) D.at(i * L + a, c[k] * L + b) += e[(k * L + a) * L + b];
    for (size_t k = 0; k < c.size(); ++k) d::Mearge(A, 1, &i, 1, &c[k], L * L, &e[k * L * L], buf); }
  std::string why; if (!CK(same(A, D, a2, why), "matrix on the constrained pattern", "%s", why.c_str())) return;
  Dense<double> E; E.init(n, L); auto mof = [&](unsigned i) { return ms[i] == UINT_MAX ? i : ms[i]; }; for (unsigned i = 0; i < D.n; ++i) for (unsigned j = 0; j < D.n; ++j) E.at(mof(i), mof(j)) += D.at(i, j); for (unsigned i = 0; i < D.n; ++i) if (ms[i] != UINT_MAX) E.at(i, i) = 1;
  d::SetMasterSlave(A, ms.data()); CK(same(A, E, a2, why), "constrained matrix is the reduced matrix with unit diagonal at the slaves", "%s", why.c_str()); products(ctx, A, E);
  std::vector<double> b(D.n), e(D.n, 0.); for (unsigned i = 0; i < D.n; ++i) { b[i] = r.irange(-9, 9); e[mof(i)] += b[i]; } d::setRHS_MasterSlave(b.data(), D.n, ms.data()); CK(b == e, "constrained right-hand side", ""); ctx.count(any ? "constrained" : "unconstrained"); }

// jagged arrays
VH_FAMILY(jagarray, 6000, 150000) {
  auto &r = ctx.rng; unsigned n = r.irange(1, 15); Adj a = pattern(r, n, r.chance(0.7)); if (r.chance(0.3)) for (unsigned i = 0; i < n; ++i) if (r.chance(0.5)) a[i].insert(a[i].begin() + r.irange(0, a[i].size()), i); std::vector<unsigned> ind, arr; jag(a, ind, arr); ctx.sig(vh::Hash().vu(ind).vu(arr).h);
  auto row = [&](const std::vector<unsigned> &I, const std::vector<unsigned> &A, unsigned i) { return std::vector<unsigned>(A.begin() + I[i], A.begin() + I[i + 1]); }; auto good = [&](const std::vector<unsigned> &I, const std::vector<unsigned> &A) { if (I.size() != n + 1 || I[0] != 0 || I[n] != A.size()) return false; for (unsigned i = 0; i < n; ++i) if (I[i] > I[i + 1]) return false; return true; };
  { auto s = arr; d::JArray_Sort(ind, s); auto t = arr; d::JArray_Sort(ind.data(), n, t.data()); auto e = arr; for (unsigned i = 0; i < n; ++i) std::sort(e.begin() + ind[i], e.begin() + ind[i + 1]); CK(s == e && t == e, "rows are sorted", ""); }
  { std::vector<unsigned> I(3, 5), A(2, 8); d::JArray_AddDiagonal(I, A, ind.data(), ind.size(), arr.data(), arr.size()); if (CK(good(I, A), "pattern with diagonal is consistent", "")) for (unsigned i = 0; i < n; ++i) { auto g = row(I, A, i), e = a[i]; if (std::find(e.begin(), e.end(), i) == e.end()) e.push_back(i); CK(g == e, "diagonal is added to the pattern once", "row %u", i); } }
  { std::vector<unsigned> I(3, 5), A(2, 8); d::JArray_Extend(I, A, ind.data(), ind.size(), arr.data()); if (CK(good(I, A), "extended pattern is consistent", "")) for (unsigned i = 0; i < n; ++i) { auto g = row(I, A, i); std::set<unsigned> e; for (unsigned j : a[i]) for (unsigned k : a[j]) if (k != i) e.insert(k); std::set<unsigned> s(g.begin(), g.end()); CK(s.size() == g.size() && s == e, "second ring of neighbours", "row %u", i); } }
  { std::vector<unsigned> I(3, 5), A(2, 8); d::JArrayEdgeUnidir_PointSurPoint(I, A, ind, arr); if (CK(good(I, A), "edge pattern is consistent", "")) for (unsigned i = 0; i < n; ++i) { std::vector<unsigned> e; for (unsigned j : a[i]) if (j > i) e.push_back(j); CK(row(I, A, i) == e, "edges to the larger index", "row %u", i); } }
  ctx.count("jag"); }
