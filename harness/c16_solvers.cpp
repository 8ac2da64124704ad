// C16: Krylov solvers, incomplete factorisation and banded factorisation against dense elimination; vector primitives.
#include "../lib/vh.h"
#include <eigen3/Eigen/Dense>
#include "delfem2/vecxitrsol.h"
#include "delfem2/view_vectorx.h"
#include "delfem2/lsitrsol.h"
#include "delfem2/ls_block_sparse.h"
#include "delfem2/ls_ilu_block_sparse.h"
#include "delfem2/ls_solver_block_sparse.h"
#include "delfem2/ls_solver_block_sparse_ilu.h"
#include "delfem2/ls_tridiagonal.h"
#include "delfem2/ls_pentadiagonal.h"
#include <set>
#include <sstream>
namespace d = delfem2;
typedef std::complex<double> cd;
template <class T> using EM = Eigen::Matrix<T, -1, -1>;
template <class T> using EV = Eigen::Matrix<T, -1, 1>;
template <class T> static T rnd(vh::Rng &r) { if constexpr (std::is_same_v<T, cd>) return cd(r.uni(-1, 1), r.uni(-1, 1)); else return T(r.uni(-1, 1)); }
static double cj(double a) { return a; }
static cd cj(cd a) { return std::conj(a); }
static double re(cd a) { return a.real(); }

enum Kind { HERM, SYMM, GEN };
template <class T> struct Sys {
  unsigned nb, L, n; std::vector<std::set<unsigned>> adj; EM<T> A; d::CMatrixSparse<T> S; std::vector<unsigned> ind, arr; double sc; int pk;
};
template <class T> static void make(vh::Rng &r, Sys<T> &s, Kind kind, unsigned maxL = 5, bool flips = false) {
  s.nb = r.chance(0.1) ? 1 : r.irange(1, 14); s.L = r.irange(1, maxL); s.n = s.nb * s.L; s.sc = std::pow(10., r.uni(-2, 2));
  s.adj.assign(s.nb, {}); s.pk = r.irange(0, 5);
  double p = s.pk == 0 ? 0.15 : s.pk == 1 ? 0.4 : s.pk == 2 ? 1. : 0;
  auto link = [&](unsigned i, unsigned j, bool both) { if (i == j) return; s.adj[i].insert(j); if (both) s.adj[j].insert(i); };
  bool both = kind != GEN || r.chance(0.5);
  for (unsigned i = 0; i < s.nb; ++i) for (unsigned j = 0; j < s.nb; ++j) if (r.chance(p)) link(i, j, both);
  if (s.pk == 3) for (unsigned i = 0; i + 1 < s.nb; ++i) link(i, i + 1, true);
  if (s.pk == 4) for (unsigned i = 1; i < s.nb; ++i) link(0, i, true);
  if (s.pk == 5) { unsigned w = 1 + s.nb / 3; for (unsigned i = 0; i < s.nb; ++i) { if (i + 1 < s.nb && (i + 1) % w) link(i, i + 1, true); if (i + w < s.nb) link(i, i + w, true); } }
  s.A = EM<T>::Zero(s.n, s.n);
  for (unsigned i = 0; i < s.nb; ++i) {
    auto blk = [&](unsigned j) { for (unsigned a = 0; a < s.L; ++a) for (unsigned b = 0; b < s.L; ++b) { if (i == j && a == b) continue; s.A(i * s.L + a, j * s.L + b) = r.chance(0.1) ? T(0) : rnd<T>(r); } };
    for (unsigned j : s.adj[i]) blk(j);
    blk(i);
  }
  if (kind != GEN) for (unsigned a = 0; a < s.n; ++a) for (unsigned b = a + 1; b < s.n; ++b) s.A(b, a) = kind == HERM ? cj(s.A(a, b)) : s.A(a, b);
  for (unsigned a = 0; a < s.n; ++a) { double w = 0; for (unsigned b = 0; b < s.n; ++b) if (a != b) w += std::abs(s.A(a, b)); w += r.uni(0.3, 2); s.A(a, a) = T(w); if constexpr (std::is_same_v<T, cd>) if (kind != HERM) s.A(a, a) = std::polar(w, r.uni(-1.2, 1.2)); }
  if (flips && r.chance(0.5)) for (unsigned a = 0; a < s.n; ++a) if (r.chance(0.5)) s.A.row(a) *= -1.; // not only positive diagonals
  s.A *= s.sc;
  s.ind.assign(1, 0); s.arr.clear();
  for (auto &x : s.adj) { std::vector<unsigned> v(x.begin(), x.end()); if (r.chance(0.5)) r.shuffle(v); s.arr.insert(s.arr.end(), v.begin(), v.end()); s.ind.push_back(s.arr.size()); }
}
template <class T> static void fill(Sys<T> &s, d::CMatrixSparse<T> &S) {
  S.Initialize(s.nb, s.L, true); S.SetPattern(s.ind.data(), s.ind.size(), s.arr.data(), s.arr.size()); S.setZero();
  for (unsigned i = 0; i < s.nb; ++i) {
    for (unsigned a = 0; a < s.L; ++a) for (unsigned b = 0; b < s.L; ++b) S.val_dia_[(size_t)(i * s.L + a) * s.L + b] = s.A(i * s.L + a, i * s.L + b);
    for (unsigned k = s.ind[i]; k < s.ind[i + 1]; ++k) for (unsigned a = 0; a < s.L; ++a) for (unsigned b = 0; b < s.L; ++b) S.val_crs_[(size_t)(k * s.L + a) * s.L + b] = s.A(i * s.L + a, s.arr[k] * s.L + b);
  }
}
template <class T> static std::vector<T> rhs(vh::Rng &r, unsigned n, bool generic = false) {
  std::vector<T> b(n); double sc = std::pow(10., r.uni(-2, 2)); int k = generic ? 0 : r.irange(0, 3);
  for (unsigned i = 0; i < n; ++i) b[i] = k == 1 ? (i == 0 ? T(sc) : T(0)) : k == 2 ? T(sc) : rnd<T>(r) * sc;
  return b;
}
template <class T> static EV<T> ev(const std::vector<T> &v) { EV<T> e(v.size()); for (size_t i = 0; i < v.size(); ++i) e(i) = v[i]; return e; }
template <class T> static std::vector<T> dirty(vh::Rng &r, size_t n) { std::vector<T> v(n); for (auto &x : v) x = rnd<T>(r) * 1e3; return v; }

// ratio history: one entry per iteration, each |r|/|b|.  norm history (PCG): |b| first, then |r| per iteration
template <class T> static void judge(vh::Ctx &ctx, Sys<T> &s, const char *name, const std::vector<T> &b0, const std::vector<T> &r, const std::vector<T> &x, const std::vector<double> &hist, double tol, unsigned maxit, bool norms, bool expect, double drift) {
  EV<T> b = ev(b0), res = b - s.A * ev(x); double bn = b.norm();
  std::string nm = name;
  ctx.count(std::string("solve_") + nm);
  if (!CK(x.size() == s.n && res.allFinite(), nm + ": finite solution", "nb %u L %u pattern %d", s.nb, s.L, s.pk)) return;
  double rn = res.norm() / bn, gap = (res - ev(r)).norm() / bn;
  CK(gap < drift, nm + ": returned residual vector is the true residual", "gap %.3g (relative), nb %u L %u pattern %d it %zu", gap, s.nb, s.L, s.pk, hist.size());
  unsigned extra = norms ? 2 : 0;
  if (!CK(!hist.empty() && hist.size() <= maxit + extra, nm + ": history length", "%zu for limit %u", hist.size(), maxit)) return;
  double last = hist.back() / (norms ? bn : 1.), rv = ev(r).norm() / bn;
  CK(std::abs(last - rv) <= 1e-9 * (1e-3 + rv), nm + ": last entry of the history is the residual", "history %.9g, residual %.9g (relative), tol %.3g", last, rv, tol);
  if (norms) CK(std::abs(hist[0] - bn) <= 1e-9 * bn, nm + ": first entry of the history is the initial residual", "%.9g vs %.9g", hist[0], bn);
  for (size_t i = norms ? 1 : 0; i + 1 < hist.size(); ++i) { double q = hist[i] / (norms ? bn : 1.); if (!norms || i + 2 < hist.size()) CK(q >= tol * (1 - 1e-9) , nm + ": stops as soon as the tolerance is reached", "entry %zu of %zu is %.3g, tol %.3g", i, hist.size(), q, tol); }
  if (expect) {
    CK(last < tol, nm + ": reaches the tolerance", "relative residual %.3g after %zu, tol %.3g; nb %u L %u pattern %d", last, hist.size(), tol, s.nb, s.L, s.pk);
    CK(rn < 1.01 * tol + drift, nm + ": solves the system", "true relative residual %.3g, tol %.3g", rn, tol);
    Eigen::PartialPivLU<EM<T>> lu(s.A); EV<T> xs = lu.solve(b);
    double amp = s.A.norm() * lu.inverse().norm();
    CK((xs - ev(x)).norm() <= amp * (1.01 * tol + drift) * xs.norm(), nm + ": solution of the dense system", "difference %.3g of %.3g, amplification %.3g", (xs - ev(x)).norm(), xs.norm(), amp);
    ctx.count("converged");
  } else ctx.count("limited");
}
static double ptol(vh::Rng &r) { return std::pow(10., -r.uni(2, 9)); }

VH_FAMILY(real_spd, 1500, 30000) {
  auto &r = ctx.rng; Sys<double> s; make(r, s, HERM); fill(s, s.S);
  auto b = rhs<double>(r, s.n); double tol = ptol(r); bool expect = r.chance(0.8); unsigned mi = expect ? 4 * s.n + 60 : r.irange(1, 4);
  if (!expect) tol = 1e-14;
  ctx.sig(vh::Hash().vd(b).u(s.nb).u(s.L).d(s.A(0, 0)).h);
  ctx.count(vh::fmt("block%u", s.L));
  {
    auto rv = b; auto x = dirty<double>(r, s.n), t0 = dirty<double>(r, s.n), t1 = dirty<double>(r, s.n);
    auto h = d::Solve_CG(d::ViewAsVectorXd(rv), d::ViewAsVectorXd(x), d::ViewAsVectorXd(t0), d::ViewAsVectorXd(t1), tol, mi, s.S);
    if (expect || h.back() >= tol) judge(ctx, s, "CG", b, rv, x, h, tol, mi, false, expect, 1e-11);
  }
  int lev = r.pick({0, 1, 2, -1});
  {
    d::CPreconditionerILU<double> ilu;
    if (r.chance(0.3)) { Sys<double> o; make(r, o, HERM); fill(o, o.S); ilu.Initialize_ILUk(o.S, r.pick({0, 1, -1})); ilu.CopyValue(o.S); ilu.Decompose(); ctx.count("ilu_reused"); }
    ilu.Initialize_ILUk(s.S, lev); ilu.CopyValue(s.S); if (!CK(ilu.Decompose(), "ILU decomposition succeeds", "level %d", lev)) return;
    auto rv = b; auto x = dirty<double>(r, s.n), t0 = dirty<double>(r, s.n), t1 = dirty<double>(r, s.n);
    auto h = d::Solve_PCG(d::ViewAsVectorXd(rv), d::ViewAsVectorXd(x), d::ViewAsVectorXd(t0), d::ViewAsVectorXd(t1), tol, mi, s.S, ilu);
    judge(ctx, s, "PCG", b, rv, x, h, tol, mi, true, expect, 1e-11);
    if (expect && lev == -1) CK(h.size() <= 3 || tol < 1e-9, "PCG with the exact factorisation needs one iteration", "%zu entries, tol %.3g", h.size(), tol);
  }
  if (r.chance(0.15)) { // zero right hand side
    std::vector<double> z(s.n, 0.), t0 = dirty<double>(r, s.n), t1 = t0; auto x = dirty<double>(r, s.n);
    auto h = d::Solve_CG(d::ViewAsVectorXd(z), d::ViewAsVectorXd(x), d::ViewAsVectorXd(t0), d::ViewAsVectorXd(t1), tol, mi, s.S);
    CK(h.size() <= 1 && ev(x).norm() == 0, "CG: zero right hand side gives zero", "%g", ev(x).norm());
    auto y = dirty<double>(r, s.n); z.assign(s.n, 0.); d::Solve_BiCGStab(z, y, tol, mi, s.S);
    CK(y.size() == s.n && ev(y).norm() == 0, "BiCGStab: zero right hand side gives zero", "%g", ev(y).norm());
    ctx.count("zero_rhs");
  }
}
VH_FAMILY(real_general, 1500, 30000) {
  auto &r = ctx.rng; Sys<double> s; make(r, s, GEN);
  if (r.chance(0.1)) { double c = s.A(0, 0); s.A = EM<double>::Identity(s.n, s.n) * c; ctx.count("multiple_of_identity"); }
  fill(s, s.S);
  auto b = rhs<double>(r, s.n, true); double tol = std::pow(10., -r.uni(2, 8)); unsigned mi = 8 * s.n + 100; bool expect = true;
  if (r.chance(0.2)) { expect = false; mi = r.irange(1, 3); tol = 1e-15; }
  ctx.sig(vh::Hash().vd(b).u(s.nb).u(s.L).d(s.A(0, 0)).h);
  {
    auto rv = b; auto x = dirty<double>(r, r.irange(0, 9));
    auto h = d::Solve_BiCGStab(rv, x, tol, mi, s.S);
    judge(ctx, s, "BiCGStab", b, rv, x, h, expect ? tol : 0, mi, false, expect, 1e-9);
  }
  {
    d::CPreconditionerILU<double> ilu; int lev = r.pick({0, 1, 2, -1}); ilu.Initialize_ILUk(s.S, lev); ilu.CopyValue(s.S); ilu.Decompose();
    auto rv = b; auto x = dirty<double>(r, s.n);
    auto h = d::Solve_PBiCGStab(rv.data(), x.data(), tol, mi + 1, s.S, ilu);
    judge(ctx, s, "PBiCGStab", b, rv, x, h, expect ? tol : 0, mi, false, expect, 1e-9);
  }
}
VH_FAMILY(complex_systems, 1500, 30000) {
  auto &r = ctx.rng; Sys<cd> s; int which = r.irange(0, 4); // CG, PCG (Hermitian), COCG (symmetric), BiCGSTAB, PBiCGStab (general)
  make(r, s, which <= 1 ? HERM : which == 2 ? SYMM : GEN, which == 1 || which == 2 || which == 4 ? 1 : 4);
  if (which >= 3 && r.chance(0.1)) { cd c = s.A(0, 0); s.A = EM<cd>::Identity(s.n, s.n) * c; ctx.count("multiple_of_identity"); }
  fill(s, s.S);
  auto b = rhs<cd>(r, s.n, true); double tol = std::pow(10., -r.uni(2, 8)); unsigned mi = 8 * s.n + 100; bool expect = true;
  if (r.chance(0.2)) { expect = false; mi = r.irange(1, 3); tol = 1e-15; }
  ctx.sig(vh::Hash().d(b[0].real()).d(b.back().imag()).u(s.nb).u(s.L).d(s.A(0, 0).real()).u(which).h);
  d::CPreconditionerILU<cd> ilu;
  if (s.L == 1) {
    int lev = r.pick({0, 1, 2, -1}); ilu.Initialize_ILUk(s.S, lev); ilu.CopyValue(s.S); ilu.Decompose();
    if (lev == -1) { std::vector<cd> x = b; ilu.SolvePrecond(x.data()); EV<cd> xs = s.A.partialPivLu().solve(ev(b)); CK((xs - ev(x)).norm() <= 1e-9 * xs.norm(), "complex factorisation with full fill solves exactly", "difference %.3g of %.3g", (xs - ev(x)).norm(), xs.norm()); ctx.count("complex_exact"); }
  }
  auto rv = b; double t = expect ? tol : 0;
  if (which == 0) { auto x = dirty<cd>(r, r.irange(0, 9)); auto h = d::Solve_CG_Complex(rv, x, tol, mi, s.S); judge(ctx, s, "CG_Complex", b, rv, x, h, t, mi, false, expect, 1e-9); }
  if (which == 1) { auto x = dirty<cd>(r, s.n); auto h = d::Solve_PCG_Complex(rv.data(), x.data(), tol, mi, s.S, ilu); judge(ctx, s, "PCG_Complex", b, rv, x, h, t, mi, true, expect, 1e-9); }
  if (which == 2) { auto x = dirty<cd>(r, s.n); auto h = d::Solve_PCOCG(rv.data(), x.data(), tol, mi, s.S, ilu); judge(ctx, s, "PCOCG", b, rv, x, h, t, mi, false, expect, 1e-9); }
  if (which == 3) { auto x = dirty<cd>(r, r.irange(0, 9)); auto h = d::Solve_BiCGSTAB_Complex(rv, x, tol, mi, s.S); judge(ctx, s, "BiCGSTAB_Complex", b, rv, x, h, t, mi, false, expect, 1e-9); }
  if (which == 4) { auto x = dirty<cd>(r, s.n); auto h = d::Solve_PBiCGStab_Complex(rv.data(), x.data(), tol, mi, s.S, ilu); judge(ctx, s, "PBiCGStab_Complex", b, rv, x, h, t, mi, false, expect, 1e-9); }
  if (r.chance(0.1)) {
    auto z = std::vector<cd>(s.n, cd(0)); auto x = dirty<cd>(r, s.n);
    if (which == 0) d::Solve_CG_Complex(z, x, tol, mi, s.S); else if (which == 1) d::Solve_PCG_Complex(z.data(), x.data(), tol, mi, s.S, ilu); else if (which == 2) d::Solve_PCOCG(z.data(), x.data(), tol, mi, s.S, ilu); else if (which == 3) d::Solve_BiCGSTAB_Complex(z, x, tol, mi, s.S); else d::Solve_PBiCGStab_Complex(z.data(), x.data(), tol, mi, s.S, ilu);
    CK(ev(x).norm() == 0, "complex solver: zero right hand side gives zero", "solver %d", which);
  }
}
// the factorisation equals the matrix on its pattern; patterns nest; full fill is elimination
VH_FAMILY(ilu, 1500, 30000) {
  auto &r = ctx.rng; Sys<double> s; make(r, s, r.chance(0.5) ? HERM : GEN, 5, true); fill(s, s.S);
  ctx.sig(vh::Hash().u(s.nb).u(s.L).d(s.A(0, 0)).vu(s.arr).h);
  std::vector<std::set<unsigned>> prev;
  for (int lev : {0, 1, 2, 4, -1}) {
    d::CPreconditionerILU<double> ilu; ilu.Initialize_ILUk(s.S, lev);
    if (!CK(ilu.nblk == s.nb && ilu.ndim == s.L && ilu.colInd.size() == s.nb + 1 && ilu.colInd[0] == 0 && ilu.colInd[s.nb] == ilu.rowPtr.size() && ilu.m_diaInd.size() == s.nb && ilu.valCrs.size() == ilu.rowPtr.size() * s.L * s.L && ilu.valDia.size() == s.n * s.L, "factor arrays are consistent", "level %d", lev)) return;
    std::vector<std::set<unsigned>> pat(s.nb); bool ok = true;
    for (unsigned i = 0; i < s.nb; ++i) for (unsigned k = ilu.colInd[i]; k < ilu.colInd[i + 1]; ++k) {
      unsigned j = ilu.rowPtr[k]; ok = ok && j < s.nb && j != i && (k == ilu.colInd[i] || ilu.rowPtr[k - 1] < j) && ((k < ilu.m_diaInd[i]) == (j < i)); pat[i].insert(j);
    }
    if (!CK(ok, "factor rows are sorted and split at the diagonal", "level %d", lev)) return;
    auto &inner = lev == 0 ? s.adj : prev;
    for (unsigned i = 0; i < s.nb; ++i) ok = ok && std::includes(pat[i].begin(), pat[i].end(), inner[i].begin(), inner[i].end());
    CK(ok, "fill patterns nest", "level %d", lev);
    if (lev == 0) CK(pat == s.adj, "level zero keeps the pattern", "nb %u", s.nb);
    if (lev == 1) { // exactly the fills made by two original entries
      auto q = s.adj; for (unsigned i = 0; i < s.nb; ++i) for (unsigned k : s.adj[i]) if (k < i) for (unsigned j : s.adj[k]) if (j > k && j != i) q[i].insert(j);
      CK(pat == q, "level one adds exactly the fills of original entries", "nb %u pattern %d", s.nb, s.pk);
    }
    if (lev == -1) {
      auto q = s.adj; for (unsigned i = 0; i < s.nb; ++i) for (unsigned k = 0; k < i; ++k) if (q[i].count(k)) for (unsigned j : q[k]) if (j > k && j != i) q[i].insert(j);
      CK(pat == q, "full fill is the pattern of elimination", "nb %u pattern %d", s.nb, s.pk);
    }
    prev = pat;
    for (int rep = 0; rep < 2; ++rep) { // refill and refactor
      ilu.CopyValue(s.S); if (!CK(ilu.Decompose(), "decomposition succeeds", "level %d", lev)) return;
    }
    EM<double> Lo = EM<double>::Zero(s.n, s.n), Up = EM<double>::Identity(s.n, s.n);
    for (unsigned i = 0; i < s.nb; ++i) {
      EM<double> D(s.L, s.L); for (unsigned a = 0; a < s.L; ++a) for (unsigned c = 0; c < s.L; ++c) D(a, c) = ilu.valDia[(i * s.L + a) * s.L + c];
      Lo.block(i * s.L, i * s.L, s.L, s.L) = D.inverse();
      for (unsigned k = ilu.colInd[i]; k < ilu.colInd[i + 1]; ++k) for (unsigned a = 0; a < s.L; ++a) for (unsigned c = 0; c < s.L; ++c) (ilu.rowPtr[k] < i ? Lo : Up)(i * s.L + a, ilu.rowPtr[k] * s.L + c) = ilu.valCrs[(k * s.L + a) * s.L + c];
    }
    EM<double> M = Lo * Up; double worst = 0, nrm = s.A.cwiseAbs().maxCoeff();
    for (unsigned i = 0; i < s.nb; ++i) for (unsigned j = 0; j < s.nb; ++j) if (i == j || pat[i].count(j)) worst = std::max(worst, (M.block(i * s.L, j * s.L, s.L, s.L) - s.A.block(i * s.L, j * s.L, s.L, s.L)).cwiseAbs().maxCoeff());
    CK(worst < 1e-9 * nrm, "the product of the factors is the matrix on the pattern", "difference %.3g of %.3g, level %d nb %u L %u pattern %d", worst, nrm, lev, s.nb, s.L, s.pk);
    auto b = rhs<double>(r, s.n), x = b; ilu.SolvePrecond(x.data()); EV<double> xm = M.partialPivLu().solve(ev(b));
    CK((xm - ev(x)).norm() <= 1e-8 * xm.norm(), "substitution inverts the product of the factors", "difference %.3g of %.3g, level %d L %u", (xm - ev(x)).norm(), xm.norm(), lev, s.L);
    if (lev == -1) { EV<double> xs = s.A.partialPivLu().solve(ev(b)); CK((xs - ev(x)).norm() <= 1e-8 * xs.norm(), "factorisation with full fill solves exactly", "difference %.3g of %.3g; nb %u L %u pattern %d", (xs - ev(x)).norm(), xs.norm(), s.nb, s.L, s.pk); ctx.count(vh::fmt("exact_block%u", s.L)); }
    if (r.chance(0.2)) { d::CPreconditionerILU<double> c(ilu); ilu.Clear(); auto y = b; c.SolvePrecond(y.data()); CK(y == x, "a copy of the factorisation solves alike", "level %d", lev); ctx.count("copied"); ilu = c; }
    if (s.L == 1) {
      unsigned N = r.irange(1, 4); std::vector<double> w(s.n * N); for (auto &q : w) q = rnd<double>(r); auto w0 = w;
      ilu.ForwardSubstitutionDegenerate(w.data(), N); ilu.BackwardSubstitutionDegenerate(w.data(), N);
      for (unsigned k = 0; k < N; ++k) { std::vector<double> c(s.n); for (unsigned i = 0; i < s.n; ++i) c[i] = w0[i * N + k]; ilu.SolvePrecond(c.data()); for (unsigned i = 0; i < s.n; ++i) if (!CKN(w[i * N + k], c[i], 1e-12 * (1 + std::abs(c[i])), "expanded substitution treats the components separately", "row %u", i)) return; }
      ctx.count("degenerate");
    }
  }
  if (s.arr.empty()) ctx.count("no_off_diagonal");
}
// the solver front ends: assembly, fixed degrees of freedom, repeated solves
template <class SOLVER, int L, class SOLVE> static void front(vh::Ctx &ctx, const char *name, SOLVE &&solve, double tol) {
  auto &r = ctx.rng; Sys<double> s;
  s.nb = r.irange(2, 12); s.L = L; s.n = s.nb * L; std::vector<std::pair<unsigned, unsigned>> ed;
  for (unsigned i = 1; i < s.nb; ++i) ed.push_back({(unsigned)r.irange(0, i - 1), i});
  for (int k = r.irange(0, 6); k--;) { unsigned a = r.irange(0, s.nb - 1), b = r.irange(0, s.nb - 1); if (a != b) ed.push_back({a, b}); }
  s.adj.assign(s.nb, {}); for (auto &e : ed) { s.adj[e.first].insert(e.second); s.adj[e.second].insert(e.first); }
  s.ind.assign(1, 0); for (auto &x : s.adj) { s.arr.insert(s.arr.end(), x.begin(), x.end()); s.ind.push_back(s.arr.size()); }
  SOLVER sol; sol.Initialize(s.nb, L, s.ind, s.arr);
  if (!CK(sol.nblk() == s.nb && sol.ndim() == L && sol.ndof() == s.n, "solver front end sizes", "%zu %zu", sol.nblk(), sol.ndim())) return;
  for (int rep = 0; rep < 3; ++rep) {
    s.A = EM<double>::Zero(s.n, s.n); EV<double> b = EV<double>::Zero(s.n);
    for (auto &f : sol.dof_bcflag) f = r.chance(0.25) ? r.pick({1, 2}) : 0;
    sol.BeginMerge();
    for (auto &e : ed) { // element: B^T B with B = [C, -C]
      double C[L][L]; for (auto &row : C) for (auto &v : row) v = r.uni(-1, 1);
      double em[2][2][L][L]; unsigned ip[2] = {e.first, e.second}; double mag = r.uni(0.5, 2);
      for (int p = 0; p < 2; ++p) for (int q = 0; q < 2; ++q) for (int a = 0; a < L; ++a) for (int c = 0; c < L; ++c) { double v = a == c ? mag : 0; for (int k = 0; k < L; ++k) v += C[k][a] * C[k][c]; em[p][q][a][c] = (p == q ? 1 : -1) * v; s.A(ip[p] * L + a, ip[q] * L + c) += em[p][q][a][c]; }
      sol.template Merge<2, 2, L, L>(ip, ip, em);
    }
    for (unsigned i = 0; i < s.nb; ++i) for (int a = 0; a < L; ++a) { double v = r.uni(0.5, 2); sol.AddValueToDiagonal(i, a, v); s.A(i * L + a, i * L + a) += v; }
    for (unsigned i = 0; i < s.n; ++i) { double v = r.uni(-3, 3); sol.vec_r[i] += v; b(i) = v; }
    for (unsigned i = 0; i < s.n; ++i) if (sol.dof_bcflag[i]) { s.A.row(i).setZero(); s.A.col(i).setZero(); s.A(i, i) = 1; b(i) = 0; }
    solve(sol);
    EV<double> x = ev(sol.vec_x), res = b - s.A * x, xs = s.A.ldlt().solve(b);
    if (!CK(x.size() == s.n && x.allFinite(), vh::fmt("%s: finite solution", name), "rep %d", rep)) return;
    bool fixed = true; for (unsigned i = 0; i < s.n; ++i) if (sol.dof_bcflag[i]) fixed = fixed && x(i) == 0;
    CK(fixed, vh::fmt("%s: fixed degrees of freedom stay", name), "rep %d", rep);
    double cond = s.A.norm() * s.A.inverse().norm();
    CK(res.norm() <= 1.01 * tol * b.norm() + 1e-12, vh::fmt("%s: solves the assembled system", name), "residual %.3g of %.3g, rep %d nb %u", res.norm(), b.norm(), rep, s.nb);
    CK((x - xs).norm() <= cond * (1.01 * tol * xs.norm() + 1e-12), vh::fmt("%s: solution of the dense system", name), "%.3g", (x - xs).norm());
    ctx.count(std::string("front_") + name);
  }
  ctx.sig(vh::Hash().vd(sol.vec_x).h);
}
struct Quiet { std::ostringstream o; std::streambuf *b; Quiet() : b(std::cout.rdbuf(o.rdbuf())) {} ~Quiet() { std::cout.rdbuf(b); } };
VH_FAMILY(front_ends, 900, 18000) {
  auto cg = [](auto &s) { s.Solve(); }; auto cg2 = [](auto &s) { s.Solve_Cg(); }; auto pcg = [](auto &s) { Quiet q; s.Solve_PcgIlu(); };
  typedef d::LinearSystemSolver_BlockSparse A; typedef d::LinearSystemSolver_BlockSparseILU B;
  switch (ctx.rng.irange(0, 8)) {
    case 0: front<A, 1>(ctx, "BlockSparse", cg, 1e-4); break;
    case 1: front<A, 2>(ctx, "BlockSparse", cg, 1e-4); break;
    case 2: front<A, 3>(ctx, "BlockSparse", cg, 1e-4); break;
    case 3: front<B, 1>(ctx, "BlockSparseILU_Cg", cg2, 1e-4); break;
    case 4: front<B, 3>(ctx, "BlockSparseILU_Cg", cg2, 1e-4); break;
    case 5: front<B, 1>(ctx, "BlockSparseILU_Pcg", pcg, 1e-5); break;
    case 6: front<B, 2>(ctx, "BlockSparseILU_Pcg", pcg, 1e-5); break;
    case 7: front<B, 3>(ctx, "BlockSparseILU_Pcg", pcg, 1e-5); break;
    default: front<B, 4>(ctx, "BlockSparseILU_Pcg", pcg, 1e-5);
  }
}
template <int L> static void banded(vh::Ctx &ctx) {
  auto &r = ctx.rng; bool penta = r.chance(0.5); int w = penta ? 2 : 1; unsigned nb = r.irange(penta ? 4 : 2, 12), n = nb * L;
  double sc = std::pow(10., r.uni(-1, 2));
  EM<double> A = EM<double>::Zero(n, n); d::BlockTriDiagonalMatrix<L> T; d::BlockPentaDiagonalMatrix<L> P;
  auto at = [&](int i, int j) { return penta ? P.GetValuePointer(i, j) : T.GetValuePointer(i, j); };
  int rep = 0;
  for (; rep < 2; ++rep) {
    if (rep && r.chance(0.5)) { nb = r.irange(penta ? 4 : 2, 12); n = nb * L; } // re-initialise
    if (penta) { P.Initialize(nb); P.setZero(); } else { T.Initialize(nb); T.setZero(); }
    A = EM<double>::Zero(n, n);
    std::set<double *> seen;
    for (int i = -2; i < (int)nb + 2; ++i) for (int j = -2; j < (int)nb + 2; ++j) { double *p = at(i, j); bool in = i >= 0 && j >= 0 && i < (int)nb && j < (int)nb && std::abs(i - j) <= w; if (!CK((p != nullptr) == in && (!in || seen.insert(p).second), "banded storage has one place per block of the band", "(%d,%d) of %u, width %d", i, j, nb, w)) return; }
    for (unsigned e = 0; e + w < nb; ++e) {
      if (penta) { double em[3][3][L][L]; for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q) for (int a = 0; a < L; ++a) for (int c = 0; c < L; ++c) { em[p][q][a][c] = r.uni(-1, 1) * sc; A((e + p) * L + a, (e + q) * L + c) += em[p][q][a][c]; } P.Merge(e, em); }
      else { double em[2][2][L][L]; for (int p = 0; p < 2; ++p) for (int q = 0; q < 2; ++q) for (int a = 0; a < L; ++a) for (int c = 0; c < L; ++c) { em[p][q][a][c] = r.uni(-1, 1) * sc; A((e + p) * L + a, (e + q) * L + c) += em[p][q][a][c]; } T.Merge(e, em); }
    }
    for (unsigned a = 0; a < n; ++a) { double s = 0; for (unsigned c = 0; c < n; ++c) if (a != c) s += std::abs(A(a, c)); double v = s + std::abs(A(a, a)) + r.uni(0.3, 2) * sc; at(a / L, a / L)[(a % L) * L + a % L] += v; A(a, a) += v; }
    if (penta) { unsigned i = r.irange(0, nb - 1), j = std::min<unsigned>(nb - 1, i + r.irange(0, 2)); double bl[L * L]; for (int k = 0; k < L * L; ++k) { bl[k] = r.uni(-0.1, 0.1) * sc; A(i * L + k / L, j * L + k % L) += bl[k]; } P.MergeBlock(i, j, bl); }
    for (unsigned a = 0; a < n; ++a) if (r.chance(0.1)) { A.row(a).setZero(); A.col(a).setZero(); A(a, a) = 1; if (penta) P.FixBC(a / L, a % L); else T.FixBC(a / L, a % L); ctx.count("fixed"); }
    for (unsigned i = 0; i < nb; ++i) for (unsigned j = 0; j < nb; ++j) if (double *p = at(i, j)) for (int k = 0; k < L * L; ++k) if (!CKN(p[k], A(i * L + k / L, j * L + k % L), 1e-12 * sc * nb * 10, "assembled band", "block (%u,%u)", i, j)) return;
    if (penta) P.Decompose(); else T.Decompose();
    for (int k = 0; k < 2; ++k) {
      auto b = rhs<double>(r, n), x = b; if (penta) P.Solve(x); else T.Solve(x);
      EV<double> xs = A.partialPivLu().solve(ev(b));
      CK((xs - ev(x)).norm() <= 1e-8 * xs.norm(), penta ? "block pentadiagonal factorisation solves exactly" : "block tridiagonal factorisation solves exactly", "difference %.3g of %.3g; nb %u L %d", (xs - ev(x)).norm(), xs.norm(), nb, L);
      ctx.count(vh::fmt(penta ? "penta%d" : "tri%d", L)); ctx.sig(vh::Hash().vd(x).h);
    }
  }
  if (L >= 2 && r.chance(0.5)) { // front end
    constexpr int K = L >= 2 ? L - 1 : 1; nb = r.irange(4, 10); n = nb * L; d::LinearSystemSolver_BlockPentaDiagonal<L> S; S.Initialize(nb); A = EM<double>::Zero(n, n);
    if (!CK(S.nblk() == nb && S.ndof() == n, "pentadiagonal front end sizes", "%zu", S.ndof())) return;
    for (int rp = 0; rp < 2; ++rp) {
      S.BeginMerge(); A = EM<double>::Zero(n, n);
      for (unsigned e = 0; e + 2 < nb; ++e) { unsigned ir[2] = {e + (unsigned)r.irange(0, 1), e + 2}, ic[3] = {e, e + 1, e + 2}; r.shuffle(*(std::array<unsigned, 3> *)ic);
        double em[2][3][L][K]; for (int p = 0; p < 2; ++p) for (int q = 0; q < 3; ++q) for (int a = 0; a < L; ++a) for (int c = 0; c < K; ++c) { em[p][q][a][c] = r.uni(-1, 1); A(ir[p] * L + a, ic[q] * L + c) += em[p][q][a][c]; }
        S.template Merge<2, 3, L, K>(ir, ic, em); }
      for (unsigned a = 0; a < n; ++a) { double v = r.uni(0.5, 1) + 2 * A.row(a).cwiseAbs().sum(); A(a, a) += v; S.AddValueToDiagonal(a / L, a % L, v); }
      EV<double> b(n); for (unsigned a = 0; a < n; ++a) { b(a) = r.uni(-1, 1); S.vec_r[a] = b(a); S.dof_bcflag[a] = r.chance(0.15); if (S.dof_bcflag[a]) b(a) = 0; }
      for (unsigned a = 0; a < n; ++a) if (S.dof_bcflag[a]) { A.row(a).setZero(); A.col(a).setZero(); A(a, a) = 1; }
      S.Solve(); EV<double> xs = A.partialPivLu().solve(b);
      CK((xs - ev(S.vec_x)).norm() <= 1e-8 * (1e-3 + xs.norm()), "pentadiagonal front end solves the assembled system", "difference %.3g; nb %u L %d", (xs - ev(S.vec_x)).norm(), nb, L);
      ctx.count("penta_front");
    }
  }
}
VH_FAMILY(banded, 1500, 30000) { switch (ctx.rng.irange(1, 4)) { case 1: banded<1>(ctx); break; case 2: banded<2>(ctx); break; case 3: banded<3>(ctx); break; default: banded<4>(ctx); } }

template <class T> static void prim(vh::Ctx &ctx) {
  auto &r = ctx.rng; unsigned n = r.irange(1, 40); double eps = (std::is_same_v<T, float> ? 1e-5 : 1e-13) * n * 4;
  std::vector<T> a(n), b(n), y(n); for (auto &v : a) v = rnd<T>(r); for (auto &v : b) v = rnd<T>(r); for (auto &v : y) v = rnd<T>(r);
  std::vector<int> f(n); for (auto &v : f) v = r.irange(0, 2);
  cd dot = 0; double dist = 0; for (unsigned i = 0; i < n; ++i) { dot += cd(a[i]) * std::conj(cd(b[i])); dist += std::norm(cd(a[i]) - cd(b[i])); }
  CK(std::abs(cd(d::Dot(a, b)) - dot) < eps && std::abs(cd(d::DotX(a.data(), b.data(), n)) - dot) < eps, "inner product", "n %u", n);
  T s = rnd<T>(r); auto z = y; d::AXPY(s, a, z); auto z2 = y; d::AXPY(s, a.data(), z2.data(), n); auto z3 = y; d::XPlusAY(z3, n, f, s, a);
  auto z5 = y; int keep = r.irange(0, 2); if constexpr (!std::is_same_v<T, float>) d::setRHS_Zero(z5, f, keep);
  for (unsigned i = 0; i < n; ++i) {
    CK(std::abs(z[i] - (y[i] + s * a[i])) < eps && std::abs(z2[i] - (y[i] + s * a[i])) < eps, "scaled addition", "entry %u", i);
    CK(f[i] ? z3[i] == y[i] : std::abs(z3[i] - (y[i] + s * a[i])) < eps, "scaled addition to the free entries", "entry %u flag %d", i, f[i]);
    if constexpr (!std::is_same_v<T, float>) CK(z5[i] == (f[i] == keep ? y[i] : T(0)), "zeroing by flag", "entry %u flag %d keep %d", i, f[i], keep);
  }
  if constexpr (!std::is_same_v<T, cd>) {
    CK(std::abs(d::Distance(a, b) - std::sqrt(dist)) < eps, "Euclidean distance", "%g vs %g", (double)d::Distance(a, b), std::sqrt(dist));
    auto z4 = a; d::ScaleX(z4.data(), s, n); for (unsigned i = 0; i < n; ++i) CK(std::abs(z4[i] - a[i] * s) < eps, "scaling", "entry %u", i);
  }
  ctx.sig(vh::Hash().u(n).d(std::abs(a[0])).h); ctx.count("primitives");
}
VH_FAMILY(primitives, 1200, 24000) {
  auto &r = ctx.rng; int k = r.irange(0, 2);
  if (k == 0) return prim<float>(ctx); if (k == 2) prim<cd>(ctx); else prim<double>(ctx);
  unsigned n = r.irange(1, 20), m = r.irange(1, 9); std::vector<double> a(n), b(n), c(n), y(n); for (auto *v : {&a, &b, &c, &y}) for (auto &x : *v) x = r.uni(-1, 1);
  std::vector<int> f(n); for (auto &v : f) v = r.irange(-1, 1); double al = r.uni(-2, 2), be = r.uni(-2, 2), ga = r.uni(-2, 2);
  auto z = y; d::XPlusAYBZ(z, n, f, al, a, be, b); auto w = y; d::XPlusAYBZCW(w, n, f, al, a, be, b, ga, c);
  for (unsigned i = 0; i < n; ++i) CK(f[i] ? z[i] == y[i] && w[i] == y[i] : std::abs(z[i] - (y[i] + al * a[i] + be * b[i])) < 1e-12 && std::abs(w[i] - (y[i] + al * a[i] + be * b[i] + ga * c[i])) < 1e-12, "combined additions to the free entries", "entry %u", i);
  auto u = a; d::NormalizeX(u.data(), n); CKN(ev(u).norm(), 1., 1e-12, "normalisation", "n %u", n); CK((ev(u) * ev(a).norm() - ev(a)).norm() < 1e-12, "normalisation keeps the direction", "n %u", n);
  auto o = b; d::OrthogonalizeToUnitVectorX(o.data(), u.data(), n); CK(std::abs(ev(o).dot(ev(u))) < 1e-12 && (ev(o) - ev(b) + ev(u) * ev(u).dot(ev(b))).norm() < 1e-12, "orthogonalisation", "n %u", n);
  std::vector<cd> p(n), q(n); cd ms = 0; for (unsigned i = 0; i < n; ++i) { p[i] = rnd<cd>(r); q[i] = rnd<cd>(r); ms += p[i] * q[i]; } CK(std::abs(d::MultSumX(p.data(), q.data(), n) - ms) < 1e-12, "unconjugated product", "n %u", n);
  EM<double> M = EM<double>::Random(n, m); std::vector<double> Mr(n * m); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < m; ++j) Mr[i * m + j] = M(i, j) = r.uni(-1, 1);
  std::vector<double> x(m), yy(n, 7.), yt(m), y0; for (auto &v : x) v = r.uni(-1, 1); for (auto &v : yt) v = r.uni(-1, 1); y0 = yt;
  d::MatVec(yy.data(), Mr.data(), n, m, x.data()); d::MatTVec(yt.data(), al, Mr.data(), n, m, a.data(), be);
  CK((ev(yy) - M * ev(x)).norm() < 1e-12 && (ev(yt) - al * M.transpose() * ev(a) - be * ev(y0)).norm() < 1e-12, "dense matrix-vector products", "%ux%u", n, m);
  { unsigned l = r.irange(1, 6); std::vector<double> B(m * l), Bt(l * m), C(n * l, 3.), C2(n * l, 3.); EM<double> Be(m, l); for (unsigned i = 0; i < m; ++i) for (unsigned j = 0; j < l; ++j) Be(i, j) = B[i * l + j] = Bt[j * m + i] = r.uni(-1, 1);
    MatMatX(C.data(), n, l, Mr.data(), m, B.data()); MatMatTX(C2.data(), n, l, Mr.data(), m, Bt.data()); EM<double> R = M * Be; for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < l; ++j) CK(std::abs(C[i * l + j] - R(i, j)) < 1e-12 && std::abs(C2[i * l + j] - R(i, j)) < 1e-12, "dense matrix products", "%ux%ux%u", n, m, l); }
  { double A4[16], I4[16], P4[16]; EM<double> E(4, 4); for (int i = 0; i < 16; ++i) A4[i] = E(i / 4, i % 4) = r.uni(-1, 1) + (i % 5 == 0 ? 4.5 : 0); std::copy(A4, A4 + 16, I4); CK((d::Inverse_Matrix<double, 4>(I4)), "small inverse succeeds", "4x4"); d::MatMat<double, 4>(P4, A4, I4); for (int i = 0; i < 16; ++i) CKN(P4[i], i % 5 == 0 ? 1. : 0., 1e-10, "small inverse and product", "entry %d", i);
    double S4[16]; std::fill(S4, S4 + 16, 2.); d::Sub_MatMat<double, 4>(S4, A4, A4); EM<double> S = EM<double>::Constant(4, 4, 2.) - E * E; for (int i = 0; i < 16; ++i) CKN(S4[i], S(i / 4, i % 4), 1e-11, "small product subtraction", "entry %d", i); }
  ctx.count("dense");
}
