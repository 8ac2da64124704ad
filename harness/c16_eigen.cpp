// C16: the solvers over Eigen containers (dense and block sparse) against dense elimination.
#include "../lib/vh.h"
#include <Eigen/Dense>
#include <algorithm>
#include "delfem2/eigen/ls_dense.h"
#include "delfem2/eigen/ls_sparse.h"
#include "delfem2/eigen/ls_ilu_sparse.h"
#include "delfem2/lsitrsol.h"
#include <set>
namespace d = delfem2;
typedef Eigen::MatrixXd M; typedef Eigen::VectorXd V;
static double nanv = std::numeric_limits<double>::quiet_NaN();
static double cond(const M &A) { return A.norm() * A.inverse().norm(); }
static void judge(vh::Ctx &ctx, const std::string &nm, const M &A, const V &b, const V &r, const V &x, const std::vector<double> &h, double tol, bool norms) {
  ctx.count("eigen_" + nm);
  if (!CK(x.allFinite() && !h.empty(), nm + ": finite solution", "n %ld", (long)b.size())) return;
  double bn = b.norm(), last = h.back() / (norms ? bn : 1);
  CK(last < tol, nm + ": reaches the tolerance", "%.3g, tol %.3g, %zu entries", last, tol, h.size());
  CK((b - A * x - r).norm() < 1e-10 * bn && std::abs(r.norm() / bn - last) < 1e-9, nm + ": history and returned residual are the true residual", "gap %.3g", (b - A * x - r).norm() / bn);
  V xs = A.ldlt().solve(b);
  CK((x - xs).norm() <= cond(A) * (1.01 * tol + 1e-10) * xs.norm(), nm + ": solution of the dense system", "difference %.3g of %.3g", (x - xs).norm(), xs.norm());
}
VH_FAMILY(eigen_dense, 600, 12000) {
  auto &r = ctx.rng; int n = r.irange(1, 25); M C(n, n); for (int i = 0; i < n * n; ++i) C(i / n, i % n) = r.uni(-1, 1);
  M A = C * C.transpose() / n + M::Identity(n, n) * r.uni(0.2, 1); A *= std::pow(10., r.uni(-2, 2)); V b(n); for (int i = 0; i < n; ++i) b(i) = r.uni(-1, 1);
  double tol = std::pow(10., -r.uni(2, 8)); V rv = b, x(n), t0(n), t1(n); x.setConstant(r.chance(0.5) ? nanv : 7.); t0 = x; t1 = x;
  auto h = d::Solve_CG(rv, x, t0, t1, tol, 20 * n + 50, A);
  judge(ctx, "dense CG", A, b, rv, x, h, tol, false); ctx.sig(vh::Hash().d(A(0, 0)).d(b(0)).h);
  V y = b; d::AddScaledVec(y, 0.5, x); CK((y - b - 0.5 * x).norm() < 1e-12 * (1 + x.norm()), "Eigen: scaled addition", "n %d", n);
  y = b; d::ScaleAndAddVec(y, 0.5, x); CK((y - 0.5 * b - x).norm() < 1e-12 * (1 + x.norm()), "Eigen: scale and add", "n %d", n);
  std::vector<int> f(n); for (auto &q : f) q = r.irange(0, 2); int keep = r.irange(0, 2); y = b; d::setZero_Flag(y, f, keep);
  std::vector<double> X(n, 2.); d::XPlusAY(X, f, 3., b);
  for (int i = 0; i < n; ++i) CK(y(i) == (f[i] == keep ? b(i) : 0) && std::abs(X[i] - (f[i] ? 2. : 2. + 3 * b(i))) < 1e-13, "Eigen: flags select the entries", "entry %d", i);
  if (n >= 6) { // element assembly into a dense matrix
    M D = M::Zero(6, 6), E = D; unsigned ir[2] = {(unsigned)r.irange(0, 2), 0}, ic[2]; ir[1] = (ir[0] + 1) % 3; ic[0] = r.irange(0, 2); ic[1] = (ic[0] + 2) % 3; double em[2][2][2][2]; for (int i = 0; i < 16; ++i) (&em[0][0][0][0])[i] = r.uni(-1, 1);
    std::vector<unsigned> buf; d::Merge<2, 2, 2, 2>(D, ir, ic, em, buf); for (int p = 0; p < 2; ++p) for (int q = 0; q < 2; ++q) for (int a = 0; a < 2; ++a) for (int c = 0; c < 2; ++c) E(ir[p] * 2 + a, ic[q] * 2 + c) += em[p][q][a][c];
    CK((D - E).norm() < 1e-14, "Eigen: dense assembly", "n %d", n); ctx.count("eigen_dense_merge"); }
}
template <int N> static void sparse(vh::Ctx &ctx) {
  auto &r = ctx.rng; unsigned nb = r.irange(1, 14), n = nb * N; typedef Eigen::Matrix<double, N, N> B; typedef d::CMatrixSparseBlock<B, Eigen::aligned_allocator<B>> SM;
  std::vector<std::pair<unsigned, unsigned>> ed; for (unsigned i = 1; i < nb; ++i) if (!r.chance(0.1)) ed.push_back({(unsigned)r.irange(0, i - 1), i});
  for (int k = r.irange(0, 6); k-- && nb > 1;) { unsigned a = r.irange(0, nb - 1), b = r.irange(0, nb - 1); if (a != b) ed.push_back({a, b}); }
  std::vector<std::set<unsigned>> adj(nb); for (auto &e : ed) { adj[e.first].insert(e.second); adj[e.second].insert(e.first); }
  std::vector<unsigned> ind(1, 0), arr; for (auto &x : adj) { std::vector<unsigned> v(x.begin(), x.end()); if (r.chance(0.5)) r.shuffle(v); arr.insert(arr.end(), v.begin(), v.end()); ind.push_back(arr.size()); }
  SM S; S.Initialize(nb); S.SetPattern(ind.data(), ind.size(), arr.data(), arr.size()); M A; std::vector<unsigned> buf;
  for (int rep = 0; rep < 2; ++rep) {
    S.setZero(); A = M::Zero(n, n);
    for (auto &e : ed) {
      double C[N][N]; for (auto &row : C) for (auto &v : row) v = r.uni(-1, 1); double em[2][2][N][N]; unsigned ip[2] = {e.first, e.second}; double mag = r.uni(0.5, 2);
      for (int p = 0; p < 2; ++p) for (int q = 0; q < 2; ++q) for (int a = 0; a < N; ++a) for (int c = 0; c < N; ++c) { double v = a == c ? mag : 0; for (int k = 0; k < N; ++k) v += C[k][a] * C[k][c]; em[p][q][a][c] = (p == q ? 1 : -1) * v; A(ip[p] * N + a, ip[q] * N + c) += em[p][q][a][c]; }
      d::Merge<2, 2, N, N, double>(S, ip, ip, em, buf);
    }
    if (!ed.empty() && r.chance(0.5)) { // different row and column lists; undone by the opposite sign
      auto e = ed[0]; unsigned ir[2] = {e.first, e.second}, ic[2] = {e.second, e.first}; double em[2][2][N][N]; for (int i = 0; i < 4 * N * N; ++i) (&em[0][0][0][0])[i] = r.uni(-1, 1);
      auto get = [&](unsigned i, unsigned j) { if (i == j) return B(S.valDia[i]); for (unsigned k = S.colInd[i]; k < S.colInd[i + 1]; ++k) if (S.rowPtr[k] == j) return B(S.valCrs[k]); return B(B::Zero()); };
      std::vector<B> before; for (int p = 0; p < 2; ++p) for (int q = 0; q < 2; ++q) before.push_back(get(ir[p], ic[q]));
      d::Merge<2, 2, N, N, double>(S, ir, ic, em, buf); bool ok = true;
      for (int p = 0; p < 2; ++p) for (int q = 0; q < 2; ++q) { B D = get(ir[p], ic[q]) - before[p * 2 + q]; for (int a = 0; a < N; ++a) for (int c = 0; c < N; ++c) ok = ok && std::abs(D(a, c) - em[p][q][a][c]) < 1e-12; }
      CK(ok, "Eigen: block assembly with different row and column lists", "N %d", N); ctx.count("eigen_merge_lists");
      for (int i = 0; i < 4 * N * N; ++i) (&em[0][0][0][0])[i] *= -1; d::Merge<2, 2, N, N, double>(S, ir, ic, em, buf);
    }
    for (unsigned i = 0; i < nb; ++i) for (int a = 0; a < N; ++a) { double v = r.uni(0.5, 2); S.valDia[i](a, a) += v; A(i * N + a, i * N + a) += v; }
    V b(n); for (unsigned i = 0; i < n; ++i) b(i) = r.uni(-1, 1);
    if (r.chance(0.6)) {
      std::vector<int> f(n); for (auto &q : f) q = r.chance(0.25); d::SetFixedBC_Dia(S, f.data(), 1.); d::SetFixedBC_Row(S, f.data()); d::SetFixedBC_Col(S, f.data()); d::setZero_Flag(b, f, 0);
      for (unsigned i = 0; i < n; ++i) if (f[i]) { A.row(i).setZero(); A.col(i).setZero(); A(i, i) = 1; if (!CK(b(i) == 0, "Eigen: fixed right hand side is zero", "dof %u", i)) return; }
      ctx.count("eigen_fixed");
    }
    if (b.norm() == 0) continue;
    double al = r.uni(-2, 2), be = r.chance(0.3) ? 0. : r.uni(-2, 2); V y(n); for (unsigned i = 0; i < n; ++i) y(i) = r.uni(-1, 1); V y0 = y; d::AddMatVec(y, be, al, S, b);
    CK((y - be * y0 - al * A * b).norm() < 1e-11 * (1 + A.norm()), "Eigen: block sparse product", "N %d", N);
    double tol = std::pow(10., -r.uni(2, 8)); unsigned mi = 8 * n + 60; double g = r.chance(0.5) ? nanv : 9.;
    d::CILU_SparseBlock<B, Eigen::aligned_allocator<B>> ilu; d::ILU_SetPattern0(ilu, S); d::ILU_CopyValue(ilu, S); d::ILU_Decompose(ilu);
    { V rv = b, x(n), t0(n), t1(n); x.setConstant(g); t0 = x; t1 = x; auto h = d::Solve_CG(rv, x, t0, t1, tol, mi, S); judge(ctx, "sparse CG", A, b, rv, x, h, tol, false); }
    { V rv = b, x(n), t0(n), t1(n); x.setConstant(g); t0 = x; t1 = x; auto h = d::Solve_PCG(rv, x, t0, t1, tol, mi, S, ilu); judge(ctx, "sparse PCG", A, b, rv, x, h, tol, true); }
    if constexpr (N > 1) {
    typedef Eigen::Matrix<double, -1, N, Eigen::RowMajor, -1, N> R;
    auto tor = [&](const V &v) { R q(nb, N); for (unsigned i = 0; i < n; ++i) q(i / N, i % N) = v(i); return q; }; auto tov = [&](const R &q) { V v(n); for (unsigned i = 0; i < n; ++i) v(i) = q(i / N, i % N); return v; };
      { R rv = tor(b), x(nb, N), t0(nb, N), t1(nb, N); x.setConstant(g); t0 = x; t1 = x; auto h = d::Solve_CG(rv, x, t0, t1, tol, mi, S); judge(ctx, "sparse row-major CG", A, b, tov(rv), tov(x), h, tol, false); }
      { R rv = tor(b), x(nb, N), t0(nb, N), t1(nb, N); x.setConstant(g); t0 = x; t1 = x; auto h = d::Solve_PCG(rv, x, t0, t1, tol, mi, S, ilu); judge(ctx, "sparse row-major PCG", A, b, tov(rv), tov(x), h, tol, true); }
    }
    bool tree = true; { std::set<std::pair<unsigned, unsigned>> u; for (auto &e : ed) u.insert({std::min(e.first, e.second), std::max(e.first, e.second)}); for (auto &e : u) tree = tree && e.second == e.first + 1; }
    if (tree) { V x = b; d::SolvePrecond(x, ilu); V xs = A.partialPivLu().solve(b); CK((x - xs).norm() < 1e-9 * (1 + xs.norm()), "Eigen: factorisation of a chain is exact", "%.3g", (x - xs).norm()); ctx.count("eigen_chain"); }
    ctx.sig(vh::Hash().d(A(0, 0)).d(b(0)).u(n).h);
  }
}
VH_FAMILY(eigen_sparse, 900, 18000) { switch (ctx.rng.irange(1, 4)) { case 1: sparse<1>(ctx); break; case 2: sparse<2>(ctx); break; case 3: sparse<3>(ctx); break; default: sparse<4>(ctx); } }
