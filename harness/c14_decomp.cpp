// C14: eigen/singular/polar decompositions reconstruct their input; derivatives against finite differences.
#include "../lib/vh.h"
#include "delfem2/mat2.h"
#include "delfem2/vec3.h"
#include "delfem2/svd3.h"
#include "delfem2/mat3.h"
#include "delfem2/fem_invertiblefem.h"
#include <eigen3/Eigen/Dense>
namespace d = delfem2;
typedef Eigen::Matrix<double, 3, 3, Eigen::RowMajor> E3; typedef Eigen::Matrix<double, 2, 2, Eigen::RowMajor> E2;
typedef Eigen::Matrix<long double, 3, 3, Eigen::RowMajor> L3; typedef Eigen::Matrix<long double, 2, 2, Eigen::RowMajor> L2;
static E3 randrot(vh::Rng &r) { if (r.chance(0.15)) { E3 p = E3::Zero(); int a[3] = {0, 1, 2}; for (int i = 2; i > 0; --i) std::swap(a[i], a[r.irange(0, i)]); for (int i = 0; i < 3; ++i) p(i, a[i]) = r.chance(0.5) ? 1 : -1; if (p.determinant() < 0) p.row(0) *= -1; return p; } Eigen::Quaterniond q(r.gauss(), r.gauss(), r.gauss(), r.gauss()); q.normalize(); return q.toRotationMatrix(); }
static const char *KIND[] = {"general", "repeated2", "repeated3", "rank1", "rank2", "zero", "diagonal", "lattice", "ones", "graded", "rotation", "nearly_repeated"};
static E3 mat(vh::Rng &r, int &kind, bool sym) { kind = r.irange(0, 11); E3 U = randrot(r), V = sym ? U : randrot(r); double s = std::pow(10., r.chance(0.5) ? 0. : r.uni(-3, 3)); Eigen::Vector3d g(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)); switch (kind) {
  case 1: g[r.irange(0, 1)] = g[2]; break; case 2: g[0] = g[1] = g[2]; break; case 3: g[1] = g[2] = 0; break; case 4: g[r.irange(0, 2)] = 0; break; case 5: return E3::Zero(); case 6: return E3(g.asDiagonal()) * s; case 7: { E3 m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m(i, j) = r.irange(-2, 2); if (sym) m = (m + m.transpose()).eval(); return m; } case 8: { E3 m = E3::Constant(s * r.uni(-1, 1)); if (r.chance(0.5)) for (int i = 0; i < 3; ++i) { double f = r.chance(0.5) ? 1 : -1; m.row(i) *= f; if (sym) m.col(i) *= f; } return m; } case 9: g[1] *= 1e-4; g[2] *= 1e-8; break; case 10: return sym ? E3(E3::Identity() * s) : U; case 11: g[1] = g[0] * (1 + std::pow(10., r.uni(-12, -3))); break; default: break; }
  return U * g.asDiagonal() * V.transpose() * s; }
static void sig(vh::Ctx &c, const double *p, int n) { c.sig(vh::Hash().vd(std::vector<double>(p, p + n)).h); }

VH_FAMILY(eigen_sym3, 12000, 400000) {
  auto &r = ctx.rng; int k; E3 A = mat(r, k, true); double sm[6] = {A(0, 0), A(1, 1), A(2, 2), A(1, 2), A(2, 0), A(0, 1)}; sig(ctx, sm, 6); double u[9], l[3]; for (auto &x : u) x = 9; bool ok = d::EigenSym3(u, l, sm, r.irange(20, 40)); double n = A.norm(); E3 U = Eigen::Map<E3>(u); if (k == 5) { CK(!ok && U == E3::Identity() && l[0] == 0 && l[1] == 0 && l[2] == 0, "zero matrix is reported with identity vectors", ""); ctx.count("zero"); return; }
  if (n < 1e-12) return; CK(ok, "symmetric matrix is decomposed", "%s norm %g", KIND[k], n); E3 S; S << sm[0], sm[5], sm[4], sm[5], sm[1], sm[3], sm[4], sm[3], sm[2]; CK((U * U.transpose() - E3::Identity()).norm() < 1e-13, "eigenvectors are orthonormal", "%s", KIND[k]); CK(U.determinant() > 0.9, "eigenvectors form a rotation", "%s", KIND[k]); E3 R = U * Eigen::Vector3d(l[0], l[1], l[2]).asDiagonal() * U.transpose(); CK((R - S).norm() <= 1e-13 * n, "eigen decomposition reconstructs the matrix", "%s off %g of %g", KIND[k], (R - S).norm(), n); ctx.count(vh::fmt("eig_%s", KIND[k])); }

VH_FAMILY(svd3, 12000, 400000) {
  auto &r = ctx.rng; int k; E3 A = mat(r, k, false); double m[9]; for (int q = 0; q < 9; ++q) m[q] = A.data()[q]; sig(ctx, m, 9); int nit = r.irange(20, 40); double u[9], g[3], v[9]; d::Svd3(u, g, v, m, nit); double n = A.norm(); E3 U = Eigen::Map<E3>(u), V = Eigen::Map<E3>(v); auto str = [&] { return vh::str(std::vector<double>(m, m + 9)); };
  CK((U * U.transpose() - E3::Identity()).norm() < 1e-12, "left singular vectors are orthonormal", "%s %s", KIND[k], str().c_str()); CK((V * V.transpose() - E3::Identity()).norm() < 1e-12, "right singular vectors are orthonormal", "%s", KIND[k]); CK(U.determinant() > 0.9 && V.determinant() > 0.9, "singular vectors form rotations", "%s %g %g %s", KIND[k], U.determinant(), V.determinant(), str().c_str()); E3 R = U * Eigen::Vector3d(g[0], g[1], g[2]).asDiagonal() * V.transpose(); CK((R - A).norm() <= 1e-7 * n, "singular value decomposition reconstructs the matrix", "%s off %g of %g: %s", KIND[k], (R - A).norm(), n, str().c_str()); CK(g[0] >= g[1] && g[1] >= std::fabs(g[2]) - 1e-7 * n && g[1] >= 0, "singular values are ordered, only the last is signed", "%g %g %g", g[0], g[1], g[2]);
  Eigen::JacobiSVD<Eigen::Matrix3d> J(A); for (int i = 0; i < 3; ++i) CK(std::fabs(std::fabs(g[i]) - J.singularValues()[i]) <= 1e-7 * n, "singular values", "%s: %g expected %g", KIND[k], g[i], J.singularValues()[i]); if (std::fabs(A.determinant()) > 1e-6 * n * n * n) CK((g[2] > 0) == (A.determinant() > 0), "sign of the last singular value is the sign of the determinant", "");
  d::CMat3d M(m); auto [u2, s2, v2] = d::Svd3<d::CMat3d>(M, nit); CK(E3(Eigen::Map<E3>(u2.p_)) == U && E3(Eigen::Map<E3>(v2.p_)) == V && s2(0, 0) == g[0] && s2(1, 1) == g[1] && s2(2, 2) == g[2] && s2(0, 1) == 0, "class interface agrees", "");
  double p[9]; d::GetRotPolarDecomp(p, m, nit); E3 P = Eigen::Map<E3>(p); CK((P * P.transpose() - E3::Identity()).norm() < 1e-12 && P.determinant() > 0.9, "polar factor is a rotation", "%s %s", KIND[k], str().c_str()); E3 H = P.transpose() * A; CK((H - H.transpose()).norm() <= 1e-7 * n, "polar decomposition leaves a symmetric factor", "%s off %g of %g: %s", KIND[k], (H - H.transpose()).norm(), n, str().c_str());
  // the closest rotation: no other rotation has a larger inner product with the matrix
  double tr = H.trace(); CK(tr >= std::fabs(g[0]) + std::fabs(g[1]) + g[2] - 1e-6 * n, "polar factor is the closest rotation", ""); for (int i = 0; i < 3; ++i) { E3 Q = randrot(r); if (i == 0) Q = Eigen::AngleAxisd(r.uni(-0.1, 0.1), Eigen::Vector3d(r.gauss(), r.gauss(), r.gauss()).normalized()).toRotationMatrix() * P; CK((Q.transpose() * A).trace() <= tr + 1e-6 * n, "polar factor is the closest rotation", "%s", KIND[k]); }
  d::CMat3d cr; M.PolerDecomp(cr, nit); CK(E3(Eigen::Map<E3>(cr.p_)) == P, "class polar decomposition agrees", ""); ctx.count(vh::fmt("svd_%s", KIND[k])); }
// tiny and huge matrices are as good as others
VH_FAMILY(scale3, 4000, 60000) {
  auto &r = ctx.rng; int k; E3 A = mat(r, k, false); double sc = std::pow(10., r.uni(-14, 8)); if (A.norm() == 0) return; A *= sc / A.norm(); double m[9]; for (int q = 0; q < 9; ++q) m[q] = A.data()[q]; sig(ctx, m, 9); double u[9], g[3], v[9]; d::Svd3(u, g, v, m, 30); E3 U = Eigen::Map<E3>(u), V = Eigen::Map<E3>(v); E3 R = U * Eigen::Vector3d(g[0], g[1], g[2]).asDiagonal() * V.transpose(); CK((U * U.transpose() - E3::Identity()).norm() < 1e-12 && (V * V.transpose() - E3::Identity()).norm() < 1e-12 && U.determinant() > 0.9 && V.determinant() > 0.9, "scaled matrix: singular vectors form rotations", "%s scale %g", KIND[k], sc); CK((R - A).norm() <= 1e-7 * sc, "scaled matrix: singular value decomposition reconstructs the matrix", "%s off %g of %g", KIND[k], (R - A).norm(), sc); double p[9]; d::GetRotPolarDecomp(p, m, 30); E3 H = Eigen::Map<E3>(p).transpose() * A; CK((H - H.transpose()).norm() <= 1e-7 * sc, "scaled matrix: polar decomposition leaves a symmetric factor", "%s scale %g", KIND[k], sc); ctx.count("scale3"); }

template <class T> static void two(vh::Ctx &ctx) {
  auto &r = ctx.rng; double e = sizeof(T) == 4 ? 4e-6 : 1e-13; int kind = r.irange(0, 8); double s = std::pow(10., r.chance(0.5) ? 0. : r.uni(-2, 2)); auto rot = [&](double t) { E2 z; z << std::cos(t), -std::sin(t), std::sin(t), std::cos(t); return z; }; double t1 = r.uni(-4, 4), t2 = r.uni(-4, 4); if (r.chance(0.2)) t1 = 1.5707963267948966 * r.irange(-2, 2); Eigen::Vector2d g(r.uni(-1, 1), r.uni(-1, 1)); E2 A; if (kind == 0) g[1] = g[0]; if (kind == 1) g[1] = -g[0]; if (kind == 2) g[1] = 0; A = rot(t1) * g.asDiagonal() * rot(t2) * s; if (kind == 3) A = E2(g.asDiagonal()) * s; if (kind == 4) A << r.irange(-2, 2), r.irange(-2, 2), r.irange(-2, 2), r.irange(-2, 2); if (kind == 5) A = A * std::pow(10., r.uni(-6, 0)); if (kind == 6) { A = E2(g.asDiagonal()); A(0, 1) = A(1, 0) = std::pow(10., r.uni(-9, -1)); } for (int i = 0; i < 4; ++i) A.data()[i] = (T)A.data()[i]; double n = A.norm(); sig(ctx, A.data(), 4); double det = A.determinant(); auto str = [&] { return vh::str(std::vector<double>(A.data(), A.data() + 4)); };
  d::CMat2<T> m((T)A(0, 0), (T)A(0, 1), (T)A(1, 0), (T)A(1, 1)), R, S; d::polar_decomposition(R, S, m); auto up = [](const d::CMat2<T> &c) { E2 z; z << c(0, 0), c(0, 1), c(1, 0), c(1, 1); return z; }; E2 RR = up(R), SS = up(S); if (n == 0) { ctx.count("zero2"); } 
  double xy = std::hypot(A(0, 0) + A(1, 1), A(1, 0) - A(0, 1)); double pe = xy > 0 ? e * std::max(1., n / xy) : e; CK((RR * RR.transpose() - E2::Identity()).norm() <= 4 * e && RR.determinant() > 0.9, "2D polar factor is a rotation", "%s", str().c_str()); CK((RR * SS - A).norm() <= 4 * e * n, "2D polar decomposition reconstructs the matrix", "%s", str().c_str()); CK(std::fabs(SS(0, 1) - SS(1, 0)) <= 8 * pe * n, "2D polar decomposition leaves a symmetric factor", "%s", str().c_str()); CK(SS.trace() >= -4 * e * n, "2D polar factor is the closest rotation", "%s", str().c_str());
  d::CMat2<T> U, G, V; for (auto &x : G.p) x = 77; d::svd(U, G, V, m); E2 UU = up(U), GG = up(G), VV = up(V); double se = std::max(8 * pe, 8 * e); CK((UU * UU.transpose() - E2::Identity()).norm() <= 8 * e && (VV * VV.transpose() - E2::Identity()).norm() <= 8 * e, "2D singular vectors are orthonormal", "%s", str().c_str()); CK((UU * GG * VV.transpose() - A).norm() <= se * n, "2D singular value decomposition reconstructs the matrix", "%s off %g", str().c_str(), (UU * GG * VV.transpose() - A).norm()); CK(std::fabs(GG(0, 1)) + std::fabs(GG(1, 0)) <= se * n, "2D singular value matrix is diagonal", "%s: %g %g", str().c_str(), GG(0, 1), GG(1, 0)); CK(GG(0, 0) >= GG(1, 1), "2D singular values are ordered", "%s", str().c_str()); Eigen::JacobiSVD<Eigen::Matrix2d> J(A, Eigen::ComputeFullU | Eigen::ComputeFullV); CK(std::fabs(std::fabs(GG(0, 0)) - J.singularValues()[0]) <= se * n && std::fabs(std::fabs(GG(1, 1)) - J.singularValues()[1]) <= se * n, "2D singular values", "%s: %g %g expected %g %g", str().c_str(), GG(0, 0), GG(1, 1), J.singularValues()[0], J.singularValues()[1]); CK(GG(0, 0) >= -se * n, "2D first singular value is not negative", "%s %g", str().c_str(), GG(0, 0)); if (std::fabs(det) > 1e-5 * n * n) CK((GG(1, 1) > 0) == (det > 0) , "2D sign of the last singular value", "%s", str().c_str());
  if constexpr (sizeof(T) == 8) { double q[4], mm[4] = {A(0, 0), A(0, 1), A(1, 0), A(1, 1)}; for (auto &x : q) x = 5; if (n == 0 || n > 1e-8) { d::RotationalComponentOfMatrix2(q, mm); E2 Q = Eigen::Map<E2>(q); double s0 = J.singularValues()[0], s1 = J.singularValues()[1]; if (s1 > 1e-4 * s0 || n == 0) { E2 W = J.matrixU().determinant() * J.matrixV().determinant() > 0 ? E2::Identity() : E2::Identity(); (void)W; double te = 1e-9 * (s1 > 0 ? (s0 / s1) * (s0 / s1) : 1); CK((Q * Q.transpose() - E2::Identity()).norm() <= te + 1e-9, "2D orthogonal factor is orthogonal", "%s: %s", str().c_str(), vh::str(std::vector<double>(q, q + 4)).c_str()); E2 H = Q.transpose() * A; CK((H - H.transpose()).norm() <= (te + 1e-9) * n && H.trace() >= -1e-9 * n && H.determinant() >= -1e-9 * n * n, "2D orthogonal factor leaves a symmetric positive factor", "%s", str().c_str()); ctx.count("orthogonal2"); } else CK(std::isfinite(q[0] + q[1] + q[2] + q[3]), "2D orthogonal factor of a singular matrix is finite", "%s", str().c_str()); } }
  ctx.count(det < 0 ? "two_reflection" : "two"); }
VH_FAMILY(two_d, 12000, 300000) { two<double>(ctx); }
VH_FAMILY(two_f, 5000, 100000) { two<float>(ctx); }

// derivatives: diff[0..2] spins U, diff[3..5] changes the singular values, diff[6..8] spins V
VH_FAMILY(svd_derivative, 6000, 150000) {
  auto &r = ctx.rng; E3 U0 = randrot(r), V0 = randrot(r); Eigen::Vector3d g(r.uni(0.2, 2), r.uni(0.2, 2), r.uni(0.2, 2)); int kind = r.irange(0, 4); if (kind == 0) g[2] = -g[2]; if (kind == 1) g[2] = g[1]; if (kind == 2) g[0] = g[1] = g[2]; std::sort(g.data(), g.data() + 3, [](double a, double b) { return std::fabs(a) > std::fabs(b); }); E3 A = U0 * g.asDiagonal() * V0.transpose(); if (r.chance(0.1)) { A = E3(g.asDiagonal()); U0 = V0 = E3::Identity(); } double m[9]; for (int q = 0; q < 9; ++q) m[q] = A.data()[q]; sig(ctx, m, 9); d::CMat3d M(m); auto [u, s, v] = d::Svd3<d::CMat3d>(M, 40); double df[9][3][3]; d::Svd3Differential(df, u, s, v); E3 U = Eigen::Map<E3>(u.p_), V = Eigen::Map<E3>(v.p_), S = Eigen::Map<E3>(s.p_); auto sk = [](double a, double b, double c) { E3 z; z << 0, -c, b, c, 0, -a, -b, a, 0; return z; };
  double gap = std::min({std::fabs(std::fabs(S(0, 0)) - std::fabs(S(1, 1))), std::fabs(std::fabs(S(1, 1)) - std::fabs(S(2, 2))), std::fabs(std::fabs(S(0, 0)) - std::fabs(S(2, 2)))}); 
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { bool fin = true; for (int k = 0; k < 9; ++k) fin = fin && std::isfinite(df[k][i][j]); if (!CK(fin, "derivatives of the decomposition are finite", "%g %g %g", S(0, 0), S(1, 1), S(2, 2))) return; if (gap < 1e-2) continue; E3 dU = -U * sk(df[0][i][j], df[1][i][j], df[2][i][j]), dV = -V * sk(df[6][i][j], df[7][i][j], df[8][i][j]), dS = E3::Zero(); for (int k = 0; k < 3; ++k) dS(k, k) = df[3 + k][i][j]; E3 D = dU * S * V.transpose() + U * dS * V.transpose() + U * S * dV.transpose(); E3 e = E3::Zero(); e(i, j) = 1; CK((D - e).norm() < 1e-6 / gap, "product rule reproduces the perturbation", "%g %g %g: off %g", S(0, 0), S(1, 1), S(2, 2), (D - e).norm());
      // finite differences of the singular values and of the rotation U V^T
      double h = 1e-5; auto at = [&](double t, Eigen::Vector3d &sv, E3 &R) { E3 B = A + t * e; Eigen::JacobiSVD<Eigen::Matrix3d> J(B, Eigen::ComputeFullU | Eigen::ComputeFullV); sv = J.singularValues(); E3 a = J.matrixU(), b = J.matrixV(); double sg = a.determinant() * b.determinant(); E3 F = E3::Identity(); F(2, 2) = sg; if (sg < 0) sv[2] = -sv[2]; R = a * F * b.transpose(); }; Eigen::Vector3d s0, s1; E3 R0, R1; at(-h, s0, R0); at(h, s1, R1); Eigen::Vector3d fd = (s1 - s0) / (2 * h); for (int k = 0; k < 3; ++k) CK(std::fabs(fd[k] - dS(k, k)) < 1e-6 / gap, "derivative of a singular value", "%d: %g expected %g", k, dS(k, k), fd[k]); E3 dR = dU * V.transpose() + U * dV.transpose(), fR = (R1 - R0) / (2 * h); CK((dR - fR).norm() < 1e-5 / gap / gap, "derivative of the rotation", "off %g (%g %g %g)", (dR - fR).norm(), S(0, 0), S(1, 1), S(2, 2)); }
  ctx.count(gap < 1e-2 ? "repeated" : "fd"); }
// a matrix with opposite singular values (mirrored element)
VH_FAMILY(svd_derivative_mirror, 1000, 20000) {
  auto &r = ctx.rng; double a = r.uni(0.3, 2), b = r.chance(0.5) ? a : a + r.uni(0, 1); E3 A = randrot(r) * Eigen::Vector3d(b, a, -a).asDiagonal() * randrot(r).transpose(); if (r.chance(0.3)) A = E3(Eigen::Vector3d(b, a, -a).asDiagonal()); double m[9]; for (int q = 0; q < 9; ++q) m[q] = A.data()[q]; sig(ctx, m, 9); auto [u, s, v] = d::Svd3<d::CMat3d>(d::CMat3d(m), 40); double df[9][3][3]; d::Svd3Differential(df, u, s, v); bool fin = true; for (auto &x : df) for (auto &y : x) for (double z : y) fin = fin && std::isfinite(z); CK(fin, "derivatives of the decomposition of a mirrored element are finite", "%g %g %g", s(0, 0), s(1, 1), s(2, 2)); ctx.count("mirror"); }
