// C13: vector, matrix, quaternion algebra against long-double references and algebraic identities.
#include "../lib/vh.h"
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/mat2.h"
#include "delfem2/mat3.h"
#include "delfem2/mat3_funcs.h"
#include "delfem2/mat4.h"
#include "delfem2/matn.h"
#include "delfem2/quat.h"
namespace d = delfem2;
typedef long double LD;
template <class T> struct Eps { static constexpr double v = sizeof(T) == 4 ? 1.2e-7 : 2.3e-16; };
template <int R, int C> struct M { LD a[R][C] = {}; LD *operator[](int i) { return a[i]; } const LD *operator[](int i) const { return a[i]; } };
template <int R, int K, int C> M<R, C> operator*(const M<R, K> &x, const M<K, C> &y) { M<R, C> z; for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) for (int k = 0; k < K; ++k) z[i][j] += x[i][k] * y[k][j]; return z; }
template <int R, int C> M<R, C> operator+(M<R, C> x, const M<R, C> &y) { for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) x[i][j] += y[i][j]; return x; }
template <int R, int C> M<R, C> operator*(LD s, M<R, C> x) { for (auto &r : x.a) for (auto &v : r) v *= s; return x; }
template <int R, int C> M<C, R> T_(const M<R, C> &x) { M<C, R> z; for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) z[j][i] = x[i][j]; return z; }
template <int R, int C, class S> M<R, C> mk(const S *p) { M<R, C> z; for (int i = 0; i < R * C; ++i) z[i / C][i % C] = p[i]; return z; }
template <int R, int C> double nrm(const M<R, C> &x) { LD s = 0; for (auto &r : x.a) for (LD v : r) s += v * v; return (double)std::sqrt(s); }
template <int N> M<N, N> eye() { M<N, N> z; for (int i = 0; i < N; ++i) z[i][i] = 1; return z; }
template <int R, int C, class S> double gap(const S *p, const M<R, C> &x) { LD m = 0; for (int i = 0; i < R * C; ++i) { LD e = std::fabs(p[i] - x[i / C][i % C]); if (!(e <= m)) m = e; } return (double)m; }
template <int N> bool inv(M<N, N> a, M<N, N> &o) { o = eye<N>(); for (int c = 0; c < N; ++c) { int p = c; for (int i = c; i < N; ++i) if (std::fabs(a[i][c]) > std::fabs(a[p][c])) p = i; if (a[p][c] == 0) return false; for (int j = 0; j < N; ++j) { std::swap(a[p][j], a[c][j]); std::swap(o[p][j], o[c][j]); } LD s = 1 / a[c][c]; for (int j = 0; j < N; ++j) { a[c][j] *= s; o[c][j] *= s; } for (int i = 0; i < N; ++i) if (i != c) { LD f = a[i][c]; for (int j = 0; j < N; ++j) { a[i][j] -= f * a[c][j]; o[i][j] -= f * o[c][j]; } } } return true; }
static LD det3(const M<3, 3> &m) { return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]); }
static M<3, 3> skew(LD x, LD y, LD z) { M<3, 3> s; s[0][1] = -z; s[0][2] = y; s[1][0] = z; s[1][2] = -x; s[2][0] = -y; s[2][1] = x; return s; }
static M<3, 3> expm(LD x, LD y, LD z) { LD t = std::sqrt(x * x + y * y + z * z); M<3, 3> K = skew(x, y, z), R = eye<3>(); LD a = t < 1e-6L ? 1 - t * t / 6 : std::sin(t) / t, h = t / 2, b = t < 1e-6L ? 0.5L : (h == 0 ? .5L : std::sin(h) * std::sin(h) / (h * h) / 2); return R + a * K + b * (K * K); }
static M<3, 3> axis(int i, LD t) { return expm(i == 0 ? t : 0, i == 1 ? t : 0, i == 2 ? t : 0); }
template <class T> struct Gen { // entries of mixed kinds
  vh::Rng &r; int kind; double sc;
  explicit Gen(vh::Rng &q) : r(q) { kind = r.irange(0, 5); sc = kind == 1 ? 1e-3 : kind == 2 ? 1e3 : 1; }
  T operator()() { if (kind == 3) return (T)r.irange(-3, 3); if (kind == 4 && r.chance(0.4)) return 0; if (kind == 5 && r.chance(0.3)) return (T)(r.uni(-1, 1) * 1e-12); return (T)(sc * r.uni(-1, 1)); }
  void fill(T *p, int n) { for (int i = 0; i < n; ++i) p[i] = (*this)(); } };
template <class T> void sigp(vh::Ctx &c, const T *p, int n) { std::vector<double> v(p, p + n); c.sig(vh::Hash().vd(v).h); }

// ---------------- vectors
template <class T> static void vec(vh::Ctx &ctx) {
  auto &r = ctx.rng; Gen<T> g(r); double e = Eps<T>::v * 16; T a[3], b[3], c[3]; g.fill(a, 3); g.fill(b, 3); g.fill(c, 3); sigp(ctx, a, 3); M<3, 1> A = mk<3, 1>(a), B = mk<3, 1>(b), C = mk<3, 1>(c); double na = nrm(A), nb = nrm(B), nc = nrm(C); LD dt = (T_(A) * B)[0][0]; M<3, 1> X = skew(A[0][0], A[1][0], A[2][0]) * B;
  d::CVec3<T> u(a[0], a[1], a[2]), v(b), w(std::array<T, 3>{c[0], c[1], c[2]});
  CKN((double)u.dot(v), (double)dt, e * na * nb, "3D dot product", ""); CKN((double)d::Dot3(u, v), (double)dt, e * na * nb, "3D dot product function", "");
  CKN((double)u.norm(), na, e * na, "3D norm", ""); CKN((double)u.squaredNorm(), na * na, e * na * na, "3D squared norm", ""); CKN((double)d::Length3(a), na, e * na, "3D length of an array", ""); CKN((double)d::SquareLength3(a), na * na, e * na * na, "3D squared length of an array", "");
  CK(gap(u.cross(v).p, X) <= e * na * nb, "3D cross product", ""); { T z[3]; d::Cross(z, a, b); CK(gap(z, X) <= e * na * nb, "3D cross product of arrays", ""); d::CVec3<T> z2 = d::Cross(u, v); CK(gap(z2.p, X) <= e * na * nb, "3D cross product by value", ""); }
  CKN((double)d::ScalarTripleProduct(u, v, w), (double)(T_(A) * (skew(B[0][0], B[1][0], B[2][0]) * C))[0][0], e * na * nb * nc, "scalar triple product", "");
  M<3, 1> D = A + (-1.L) * B; CKN((double)d::Distance3(u, v), nrm(D), e * (na + nb), "3D distance", ""); CKN((double)d::SquareDistance3(u, v), nrm(D) * nrm(D), e * (na + nb) * (na + nb), "3D squared distance", "");
  T s = g(); CK(gap((u + v).p, A + B) <= e * (na + nb) && gap((u - v).p, D) <= e * (na + nb) && gap((u * s).p, (LD)s * A) <= e * na * std::fabs(s) && gap((s * u).p, (LD)s * A) <= e * na * std::fabs(s) && gap((-u).p, (-1.L) * A) == 0, "3D sums and multiples", ""); if (s != 0) CK(gap((u / s).p, (1.L / s) * A) <= e * na / std::fabs(s), "3D quotient", "");
  { d::CVec3<T> t = u; t += v; t -= w; t *= s; CK(gap(t.p, (LD)s * (A + B + (-1.L) * C)) <= 2 * e * (na + nb + nc) * std::fabs(s), "3D compound assignment", ""); t = u; t += t; CK(gap(t.p, 2.L * A) == 0, "3D self addition", ""); t -= t; CK(t.norm() == 0, "3D self subtraction", ""); if (s != 0) { t = u; t /= s; CK(gap(t.p, (1.L / s) * A) <= e * na / std::fabs(s), "3D in-place quotient", ""); } }
  { d::CVec3<T> t = u.mult(v); for (int i = 0; i < 3; ++i) CK(t.p[i] == (T)(a[i] * b[i]), "3D element-wise product", ""); CK((u == u) && !(u != u), "3D equality", ""); d::CVec3<T> t2 = u; t2.p[r.irange(0, 2)] += 1; CK((u != t2) && !(u == t2), "3D inequality", ""); }
  if (na > 1e-6) { d::CVec3<T> t = u.normalized(); CK(gap(t.p, (1 / (LD)na) * A) <= e, "3D normalisation", ""); t = u; t.normalize(); CK(gap(t.p, (1 / (LD)na) * A) <= e, "3D in-place normalisation", ""); T q[3] = {a[0], a[1], a[2]}; d::Normalize3(q); CK(gap(q, (1 / (LD)na) * A) <= e, "3D array normalisation", ""); }
  { T o[3]; u.CopyTo(o); CK(gap(o, A) == 0, "3D copy out", ""); u.CopyToScale(o, s); CK(gap(o, (LD)s * A) <= e * na * std::fabs(s), "3D scaled copy out", ""); T o2[3] = {b[0], b[1], b[2]}; u.AddToScale(o2, s); CK(gap(o2, B + (LD)s * A) <= e * (nb + na * std::fabs(s)), "3D scaled addition", ""); std::vector<T> pv = {7}; u.push_back_to_vector(pv); CK(pv.size() == 4 && pv[0] == 7 && gap(pv.data() + 1, A) == 0, "3D append", ""); T av[3]; d::AverageTwo3(av, a, b); CK(gap(av, 0.5L * (A + B)) <= e * (na + nb), "average of two points", ""); T dd[3]; g.fill(dd, 3); d::AverageFour3(av, a, b, c, dd); CK(gap(av, 0.25L * (A + B + C + mk<3, 1>(dd))) <= e * (na + nb + nc + 3 * nrm(mk<3, 1>(dd))), "average of four points", ""); T ad[3] = {b[0], b[1], b[2]}; d::Add3(ad, a); CK(gap(ad, A + B) <= e * (na + nb), "add in place", ""); CK(gap(u.template cast<double>().p, A) == 0, "3D cast", ""); }
  // frames and rotations of vectors
  if (na > 1e-3) { d::CVec3<T> n = u.normalized(), x, y; d::FrameFromVectorZ(x, y, n); double fe = Eps<T>::v * 40; CK(std::fabs(x.norm() - 1) < fe && std::fabs(y.norm() - 1) < fe && std::fabs(x.dot(y)) < fe && std::fabs(x.dot(n)) < fe && std::fabs(y.dot(n)) < fe && x.cross(y).dot(n) > 0.99, "frame around a unit vector is right-handed and orthonormal", "n=%g %g %g", (double)n.p[0], (double)n.p[1], (double)n.p[2]); }
  // 2D
  { d::CVec2<T> p(a[0], a[1]), q(b[0], b[1]), t(c[0], c[1]); LD l2 = std::hypot((LD)a[0], (LD)a[1]), m2 = std::hypot((LD)b[0], (LD)b[1]); double le = e * (double)(l2 * m2); LD cr = (LD)a[0] * b[1] - (LD)a[1] * b[0], dd = (LD)a[0] * b[0] + (LD)a[1] * b[1]; CKN((double)p.dot(q), (double)dd, le, "2D dot product", ""); CKN((double)(p ^ q), (double)cr, le, "2D cross product operator", ""); CKN((double)d::Cross(p, q), (double)cr, le, "2D cross product", ""); CKN((double)d::Cross2(p, q), (double)cr, le, "2D cross product of vectors", ""); CKN((double)d::Dot(p, q), (double)dd, le, "2D dot function", ""); CKN((double)d::Dot2(p.p, q.p), (double)dd, le, "2D dot of arrays", ""); CKN((double)p.norm(), (double)l2, e * l2, "2D norm", ""); CKN((double)p.squaredNorm(), (double)(l2 * l2), e * l2 * l2, "2D squared norm", "");
    LD ds = std::hypot((LD)a[0] - b[0], (LD)a[1] - b[1]); double de = e * (double)(l2 + m2); CKN((double)d::Distance(p, q), (double)ds, de, "2D distance", ""); CKN((double)d::Distance2(p.p, q.p), (double)ds, de, "2D distance of arrays", ""); CKN((double)d::SquareDistance(p, q), (double)(ds * ds), de * (l2 + m2), "2D squared distance", ""); CKN((double)d::SquareLength(p), (double)(l2 * l2), e * l2 * l2, "2D squared length", ""); CKN((double)d::Length(p), (double)l2, e * l2, "2D length", "");
    T th = (T)r.uni(-7, 7); LD cs = std::cos((LD)th), sn = std::sin((LD)th); M<2, 1> rr; rr[0][0] = cs * a[0] - sn * a[1]; rr[1][0] = sn * a[0] + cs * a[1]; CK(gap(p.Rotate(th).p, rr) <= e * 4 * l2, "2D rotation", ""); CK(gap(d::rotate(p, (double)th).p, rr) <= e * 4 * l2, "2D rotation function", ""); d::CVec2<T> r9 = d::rotate90(p); CK(r9.p[0] == -p.p[1] && r9.p[1] == p.p[0], "2D quarter turn", ""); if (l2 > 1e-5) { LD i = 1 / l2; M<2, 1> nn; nn[0][0] = a[0] * i; nn[1][0] = a[1] * i; CK(gap(p.normalized().p, nn) <= e, "2D normalisation", ""); d::CVec2<T> z = p; z.normalize(); CK(gap(z.p, nn) <= e, "2D in-place normalisation", ""); T zz[2] = {a[0], a[1]}; d::Normalize2(zz); CK(gap(zz, nn) <= e, "2D array normalisation", ""); }
    d::CVec2<T> sum = p; sum += q; sum -= t; CK(std::fabs(sum.p[0] - ((LD)a[0] + b[0] - c[0])) <= 4 * e * (na + nb + nc) && std::fabs(sum.p[1] - ((LD)a[1] + b[1] - c[1])) <= 4 * e * (na + nb + nc), "2D sums", ""); d::CVec2<T> ml = s * p, mr = p * s; CK(std::fabs(ml.p[0] - (LD)s * a[0]) <= e * std::fabs(s) * l2 && std::fabs(mr.p[1] - (LD)s * a[1]) <= e * std::fabs(s) * l2, "2D multiples", ""); CK((-p).p[0] == -p.p[0] && (-p).p[1] == -p.p[1], "2D negation", ""); }
  // affine maps of the plane
  { T m[9]; g.fill(m, 9); M<3, 3> Z = mk<3, 3>(m); M<3, 1> h; h[0][0] = a[0]; h[1][0] = a[1]; h[2][0] = 1; M<3, 1> y = Z * h; d::CVec2<T> p(a[0], a[1]); double sc = nrm(Z) * nrm(h); if (std::fabs(y[2][0]) > 1e-3 * sc) { M<2, 1> o; o[0][0] = y[0][0] / y[2][0]; o[1][0] = y[1][0] / y[2][0]; double te = 40 * e * sc / std::fabs((double)y[2][0]) * (1 + nrm(o)); T q[2]; d::Vec2_Mat3Vec2_Homography(q, m, p.p); CK(gap(q, o) <= te, "plane homography", ""); CK(gap(d::Vec2_Mat3Vec2_Homography(m, p.p).data(), o) <= te, "plane homography by value", ""); CK(gap(p.Mat3Vec2_AffineProjection(m).p, o) <= te, "plane homography by class", ""); }
    M<2, 1> l; l[0][0] = Z[0][0] * a[0] + Z[0][1] * a[1]; l[1][0] = Z[1][0] * a[0] + Z[1][1] * a[1]; T q[2]; d::Vec2_Mat3Vec2_AffineDirection(q, m, p.p); CK(gap(q, l) <= 4 * e * sc, "plane affine direction", ""); CK(gap(p.Mat3Vec2_AffineDirection(m).p, l) <= 4 * e * sc, "plane affine direction by class", ""); T th = (T)r.uni(-7, 7), tl[2] = {g(), g()}, R[9], L[9]; d::Mat3_AffineRotation(R, th); d::Mat3_AffineTranslation(L, tl); CK(gap(R, axis(2, th)) <= 4 * e, "plane rotation matrix", ""); M<3, 3> TL = eye<3>(); TL[0][2] = tl[0]; TL[1][2] = tl[1]; CK(gap(L, TL) == 0, "plane translation matrix", ""); }
  ctx.count("vec"); }
VH_FAMILY(vec_d, 15000, 400000) { vec<double>(ctx); }
VH_FAMILY(vec_f, 10000, 200000) { vec<float>(ctx); }

// ---------------- small matrices
template <class T, unsigned N> static void matn(vh::Ctx &ctx) {
  Gen<T> g(ctx.rng); double e = Eps<T>::v * 16; constexpr int n = N; T a[N * N], b[N * N], c[N * N], x[N], y[N]; g.fill(a, n * n); g.fill(b, n * n); g.fill(x, n); auto A = mk<n, n>(a), B = mk<n, n>(b); auto X = mk<n, 1>(x); for (T &v : c) v = 55; for (T &v : y) v = 55;
  d::MatMat<T, N>(c, a, b); double s = nrm(A) * nrm(B); CK(gap(c, A * B) <= e * s, "N-dimensional product", "%u", N); T c2[N * N]; g.fill(c2, n * n); auto C2 = mk<n, n>(c2); d::Sub_MatMat<T, N>(c2, a, b); CK(gap(c2, C2 + (-1.L) * (A * B)) <= e * (s + nrm(C2)), "N-dimensional product subtraction", "%u", N); d::MatVec<T, N, N>(y, a, x); CK(gap(y, A * X) <= e * nrm(A) * nrm(X), "N-dimensional matrix-vector product", "%u", N);
  T i[N * N]; std::copy(a, a + n * n, i); M<n, n> R; if (inv(A, R)) { double k = nrm(A) * nrm(R); LD piv = 1e300L; { auto Q = A; for (int p = 0; p < n; ++p) { piv = std::min(piv, std::fabs(Q[p][p]) / (nrm(A) + 1e-300L)); if (Q[p][p] == 0) break; for (int q = p + 1; q < n; ++q) { LD f = Q[q][p] / Q[p][p]; for (int z = 0; z < n; ++z) Q[q][z] -= f * Q[p][z]; } } }
    bool direct = N <= 3; if (k < 1e4 && (direct ? nrm(A) > 1e-2 : piv > 1e-3)) { bool ok = d::Inverse_Matrix<T, N>(i); CK(ok, "N-dimensional inverse exists", "%u condition %g", N, k); CK(gap(i, R) <= 40 * e * k * nrm(R) * (direct ? k : 1e3), "N-dimensional inverse", "%u condition %g", N, k); ctx.count("inverse_n"); } }
  ctx.count("matn"); }
VH_FAMILY(matn_d, 10000, 200000) { switch (ctx.rng.irange(0, 4)) { case 0: matn<double, 1>(ctx); break; case 1: matn<double, 2>(ctx); break; case 2: matn<double, 3>(ctx); break; case 3: matn<double, 4>(ctx); break; default: matn<double, 6>(ctx); } }
template <class T> static void mat23(vh::Ctx &ctx) {
  auto &r = ctx.rng; Gen<T> g(r); double e = Eps<T>::v * 24; T a[9], b[9], x[3], y[3]; g.fill(a, 9); g.fill(b, 9); g.fill(x, 3); g.fill(y, 3); sigp(ctx, a, 9); auto A = mk<3, 3>(a), B = mk<3, 3>(b); auto X = mk<3, 1>(x), Y = mk<3, 1>(y); double na = nrm(A), nb = nrm(B), nx = nrm(X), s = na * nb; T o[9], v[3]; T al = g(), be = g(); M<3, 3> AI; bool ok = inv(A, AI); double k = ok ? na * nrm(AI) : 1e300;
  d::MatMat3(o, a, b); CK(gap(o, A * B) <= e * s, "3D product", ""); d::MatMatT3(o, a, b); CK(gap(o, A * T_(B)) <= e * s, "3D product with a transpose", ""); d::MatTMat3(o, a, b); CK(gap(o, T_(A) * B) <= e * s, "3D transposed product", ""); T o2[9]; g.fill(o2, 9); auto O2 = mk<3, 3>(o2); d::MatTMat3_ScaleAdd(o2, a, b, al, be); CK(gap(o2, (LD)al * (T_(A) * B) + (LD)be * O2) <= e * (std::fabs(al) * s + std::fabs(be) * nrm(O2)), "3D scaled transposed product", "");
  { T z[9]; std::copy(a, a + 9, z); d::MatMat3(z, a, b); CK(gap(z, A * B) <= e * s, "3D product into another array", ""); }
  d::MatVec3(v, a, x); CK(gap(v, A * X) <= e * na * nx, "3D matrix-vector product", ""); d::MatTVec3(v, a, x); CK(gap(v, T_(A) * X) <= e * na * nx, "3D transposed matrix-vector product", ""); { T w[3] = {y[0], y[1], y[2]}; d::MatVec3_ScaleAdd(w, a, x, al, be); CK(gap(w, (LD)al * (A * X) + (LD)be * Y) <= e * (std::fabs(al) * na * nx + std::fabs(be) * nrm(Y)), "3D scaled matrix-vector product", ""); T w2[3] = {y[0], y[1], y[2]}; d::MatTVec3_ScaleAdd(w2, a, x, al, be); CK(gap(w2, (LD)al * (T_(A) * X) + (LD)be * Y) <= e * (std::fabs(al) * na * nx + std::fabs(be) * nrm(Y)), "3D scaled transposed matrix-vector product", ""); auto w3 = d::Mat3Vec3(a, d::CVec3<T>(x)); CK(gap(w3.data(), A * X) <= e * na * nx, "3D matrix-vector product by value", ""); if constexpr (sizeof(T) == 8) { double w4[3]; d::VecMat3(w4, x, a); CK(gap(w4, T_(A) * X) <= e * na * nx, "3D vector-matrix product", ""); } }
  d::Transpose_Mat3(o, a); CK(gap(o, T_(A)) == 0, "3D transpose", ""); CKN((double)d::Det_Mat3(a), (double)det3(A), e * na * na * na, "3D determinant", ""); if (k < (sizeof(T) == 4 ? 1e2 : 1e5)) { d::Inverse_Mat3(o, a); CK(gap(o, AI) <= 20 * e * k * k * nrm(AI), "3D inverse", "condition %g", k); T p[9]; std::copy(a, a + 9, p); d::Inverse_Mat3(p); CK(gap(p, AI) <= 20 * e * k * k * nrm(AI), "3D in-place inverse", "condition %g", k); d::CMat3<T> q(a); CK(gap(q.Inverse().p_, AI) <= 20 * e * k * k * nrm(AI), "3D class inverse", ""); q.SetInverse(); CK(gap(q.p_, AI) <= 20 * e * k * k * nrm(AI), "3D class in-place inverse", ""); if (sizeof(T) == 8) ctx.count("inverse3"); }
  { d::CMat3<T> p(a), q(b); CK(gap((p * q).p_, A * B) <= e * s, "3D class product", ""); CK(gap(p.MatMat(q).p_, A * B) <= e * s, "3D class product member", ""); CK(gap(p.MatMatTrans(q).p_, T_(A) * B) <= e * s, "3D class product of the transpose", ""); CK(gap((p + q).p_, A + B) <= e * (na + nb) && gap((p - q).p_, A + (-1.L) * B) <= e * (na + nb) && gap((al * p).p_, (LD)al * A) <= e * std::fabs(al) * na && gap((p * al).p_, (LD)al * A) <= e * std::fabs(al) * na && gap((-p).p_, (-1.L) * A) == 0, "3D class sums and multiples", ""); if (al != 0) CK(gap((p / al).p_, (1.L / al) * A) <= e * na / std::fabs(al), "3D class quotient", ""); d::CMat3<T> z = p; z += q; z -= p; z *= al; CK(gap(z.p_, (LD)al * B) <= e * std::fabs(al) * (2 * na + nb), "3D class compound assignment", ""); CK(gap(p.transpose().p_, T_(A)) == 0, "3D class transpose", ""); CK(gap(p.Sym().p_, 0.5L * (A + T_(A))) <= e * na, "symmetric part", ""); CKN((double)p.determinant(), (double)det3(A), e * na * na * na, "3D class determinant", ""); CKN((double)p.trace(), (double)(A[0][0] + A[1][1] + A[2][2]), e * na, "3D trace", ""); CKN((double)p.squaredNorm(), na * na, e * na * na, "3D Frobenius norm", ""); { LD tr = A[0][0] + A[1][1] + A[2][2]; M<3, 3> A2 = A * A; LD si = (tr * tr - (A2[0][0] + A2[1][1] + A2[2][2])) / 2; CKN((double)p.SecondInvarint(), (double)si, 2 * e * na * na, "second invariant", ""); }
    auto mv = p.MatVec(x); CK(gap(mv.data(), A * X) <= e * na * nx, "3D class matrix-vector product", ""); T mt[3]; p.MatVecTrans(x, mt); CK(gap(mt, T_(A) * X) <= e * na * nx, "3D class transposed matrix-vector product", ""); d::CVec3<T> cx(x); CK(gap((p * cx).p, A * X) <= e * na * nx && gap((cx * p).p, T_(A) * X) <= e * na * nx, "3D class operators with vectors", "");
    T m4[16], t4[16]; p.CopyToMat4(m4); p.AffineMatrixTrans(t4); bool g4 = true; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) g4 = g4 && m4[4 * i + j] == a[3 * i + j] && t4[4 * j + i] == a[3 * i + j]; CK(g4, "3D block inside a 4D matrix", ""); d::CMat3<T> bk; bk.SetMat4(m4); CK(gap(bk.p_, A) == 0, "3D block back from a 4D matrix", ""); T sm[6]; g.fill(sm, 6); d::CMat3<T> sy; sy.SetSymetric(sm); bool gs = sy(0, 0) == sm[0] && sy(1, 1) == sm[1] && sy(2, 2) == sm[2] && sy(1, 2) == sm[3] && sy(2, 1) == sm[3] && sy(0, 2) == sm[4] && sy(2, 0) == sm[4] && sy(0, 1) == sm[5] && sy(1, 0) == sm[5]; CK(gs, "symmetric matrix from six values", ""); CKN((double)d::SquareNormFrobenius_SymMat3(sm), nrm(mk<3, 3>(sy.p_)) * nrm(mk<3, 3>(sy.p_)), e * nrm(mk<3, 3>(sy.p_)) * nrm(mk<3, 3>(sy.p_)), "norm of a symmetric matrix", ""); }
  { d::CVec3<T> u(x), w(y); auto sp = d::Mat3_Spin(u); CK(gap(sp.data(), skew(x[0], x[1], x[2])) == 0, "spin matrix", ""); T sr[9]; d::Mat3_Spin(sr, x); CK(gap(sr, skew(x[0], x[1], x[2])) == 0, "spin matrix of an array", ""); T sa[9]; std::copy(a, a + 9, sa); d::Mat3_Spin_ScaleAdd(sa, x, al, be); CK(gap(sa, (LD)al * skew(x[0], x[1], x[2]) + (LD)be * A) <= e * (std::fabs(al) * nx + std::fabs(be) * na), "scaled spin matrix", ""); CK(gap(d::CMat3<T>::Skew(u).p_, skew(x[0], x[1], x[2])) == 0, "skew matrix", ""); M<3, 3> S = skew(x[0], x[1], x[2]); CK(gap(d::Mat3_CrossCross(u).data(), S * S) <= e * nx * nx, "double cross matrix", ""); CK(gap(d::Mat3_IrotPoint<d::CVec3<T>, T>(u).data(), (-1.L) * (S * S)) <= e * nx * nx, "inertia of a point", ""); CK(gap(d::Mat3_OuterProduct(u, w).data(), X * T_(Y)) <= e * nx * nrm(Y), "outer product", ""); CK(gap(d::CMat3<T>::OuterProduct(x, y).p_, X * T_(Y)) <= e * nx * nrm(Y), "class outer product", ""); if (nx > 1e-3) { M<3, 3> P = eye<3>() + (-1 / ((LD)nx * nx)) * (X * T_(X)); CK(gap(d::Mat3_NormalProjection(u).data(), P) <= e, "projection along a normal", ""); CK(gap(d::Mat3_Mirror(u).data(), eye<3>() + (-2 / ((LD)nx * nx)) * (X * T_(X))) <= e, "mirror", ""); } d::CVec3<T> z(b); auto m3 = d::Mat3_From3Bases(u, w, z); bool gb = true; for (int i = 0; i < 3; ++i) gb = gb && m3[3 * i] == x[i] && m3[3 * i + 1] == y[i] && m3[3 * i + 2] == b[i]; CK(gb, "matrix of column vectors", ""); T id[9]; d::Mat3_Identity(id, al); CK(gap(id, (LD)al * eye<3>()) == 0, "multiple of the identity", ""); CK(gap(d::Mat3_Identity(al).data(), (LD)al * eye<3>()) == 0, "identity by value", ""); T ia[9]; std::copy(a, a + 9, ia); d::Mat3_Identity_ScaleAdd(ia, al, be); CK(gap(ia, (LD)al * eye<3>() + (LD)be * A) <= e * (std::fabs(al) + std::fabs(be) * na), "identity scaled addition", "");
    auto sv = d::Vec3_SpinVectorFromMat3<d::CMat3<T>, T>(d::CMat3<T>(a)); M<3, 1> SV; SV[0][0] = (A[2][1] - A[1][2]) / 2; SV[1][0] = (A[0][2] - A[2][0]) / 2; SV[2][0] = (A[1][0] - A[0][1]) / 2; CK(gap(sv.data(), SV) <= e * na, "spin vector of the antisymmetric part", "got %g %g %g expected %Lg %Lg %Lg", (double)sv[0], (double)sv[1], (double)sv[2], SV[0][0], SV[1][0], SV[2][0]); }
  // 2D
  { auto A2 = mk<2, 2>(a), B2 = mk<2, 2>(b); auto X2 = mk<2, 1>(x); double n2 = nrm(A2), m2 = nrm(B2); T p[4], q[2]; d::MatVec2(q, a, x); CK(gap(q, A2 * X2) <= e * n2 * nrm(X2), "2D matrix-vector product", ""); d::MatMat2(p, a, b); CK(gap(p, A2 * B2) <= e * n2 * m2, "2D product", ""); d::CMat2<T> c(a[0], a[1], a[2], a[3]), c2(b[0], b[1], b[2], b[3]); CKN((double)c.determinant(), (double)(A2[0][0] * A2[1][1] - A2[0][1] * A2[1][0]), e * n2 * n2, "2D determinant", ""); CK(gap(c.transpose().p, T_(A2)) == 0, "2D transpose", ""); d::CMat2<T> ct = c; ct.transposeInPlace(); CK(gap(ct.p, T_(A2)) == 0, "2D in-place transpose", ""); CK(gap((c + c2).p, A2 + B2) <= e * (n2 + m2) && gap((c - c2).p, A2 + (-1.L) * B2) <= e * (n2 + m2) && gap((al * c).p, (LD)al * A2) <= e * std::fabs(al) * n2, "2D sums and multiples", ""); T w[2]; c.multiply_vec2(w, x); CK(gap(w, A2 * X2) <= e * n2 * nrm(X2), "2D class matrix-vector product", ""); CK(gap(d::CMat2<T>::outer_product(x, y).p, X2 * T_(mk<2, 1>(y))) <= e * nx * nrm(Y), "2D outer product", ""); if constexpr (sizeof(T) == 8) { M<2, 2> I2; if (inv(A2, I2)) { double k2 = n2 * nrm(I2); if (k2 < 1e5 && n2 > 1e-2) { double o4[4]; CK(d::InverseMat2(o4, a), "2D inverse exists", ""); CK(gap(o4, I2) <= 4 * e * k2 * nrm(I2), "2D inverse", ""); } } double gr[4]; d::gramian2(gr, a); CK(gap(gr, T_(A2) * A2) <= e * n2 * n2, "2D Gram matrix", ""); double vl[4]; double l0 = r.uni(-2, 2), l1 = r.uni(-2, 2); d::VLVt2(vl, l0, l1, b); M<2, 2> L; L[0][0] = l0; L[1][1] = l1; CK(gap(vl, B2 * L * T_(B2)) <= e * 2 * m2 * m2, "2D congruence", ""); } }
  ctx.count("mat23"); }
VH_FAMILY(mat23_d, 15000, 400000) { mat23<double>(ctx); }
VH_FAMILY(mat23_f, 7000, 100000) { mat23<float>(ctx); }

// ---------------- rotations
template <class T> static void rot(vh::Ctx &ctx) {
  auto &r = ctx.rng; double e = Eps<T>::v * 40; const LD pi = 3.14159265358979323846264338327950288L; T a[3]; d::CVec3<T> ax((T)r.gauss(), (T)r.gauss(), (T)r.gauss()); if (r.chance(0.3)) { ax = d::CVec3<T>(0, 0, 0); ax.p[r.irange(0, 2)] = r.chance(0.5) ? 1 : -1; } ax.normalize(); double th; int kind = r.irange(0, 7); switch (kind) { case 0: th = 0; break; case 1: th = std::pow(10., r.uni(-12, -4)); break; case 2: th = std::pow(10., r.uni(-5, -1)); break; case 3: th = (double)pi - std::pow(10., r.uni(-6, -1)); break; case 4: th = r.uni(3.2, 12); break; case 5: th = (double)pi * r.irange(-2, 2) / 4; break; default: th = r.uni(0, 3.1); } for (int i = 0; i < 3; ++i) a[i] = (T)(ax.p[i] * th); sigp(ctx, a, 3); th = std::sqrt((double)a[0] * a[0] + (double)a[1] * a[1] + (double)a[2] * a[2]); M<3, 3> R = expm(a[0], a[1], a[2]); double te = e * (1 + th);
  T m[9]; d::Mat3_RotMatFromAxisAngleVec(m, a); CK(gap(m, R) <= te, "rotation matrix of an axis-angle vector", "angle %g off %g", th, gap(m, R)); auto m2 = d::Mat3_RotMatFromAxisAngleVec(d::CVec3<T>(a)); CK(gap(m2.data(), R) <= te, "rotation matrix of an axis-angle class vector", "angle %g", th); auto m2b = d::Mat3_RotMatFromAxisAngleVec(std::array<T, 3>{a[0], a[1], a[2]}); CK(gap(m2b.data(), R) <= te, "rotation matrix of an axis-angle array", "angle %g", th);
  T q[4]; d::Quat_CartesianAngle(q, a); LD h = th / 2, sc = th < 1e-8 ? 0.5L : std::sin(h) / th; M<4, 1> Q; for (int i = 0; i < 3; ++i) Q[i][0] = sc * a[i]; Q[3][0] = std::cos(h); CK(gap(q, Q) <= te, "quaternion of an axis-angle vector", "angle %g off %g", th, gap(q, Q)); auto q2 = d::Quat_CartesianAngle(d::CVec3<T>(a)); CK(gap(q2.data(), Q) <= te, "quaternion of an axis-angle class vector", "angle %g", th);
  T mq[9]; d::Mat3_Quat(mq, q); CK(gap(mq, R) <= 2 * te, "matrix of a quaternion", "angle %g", th); CK(gap(d::CMat3<T>::Quat(q).p_, R) <= 2 * te, "class matrix of a quaternion", ""); d::CMat3<T> sq; sq.SetRotMatrix_Quaternion(q); CK(gap(sq.p_, R) <= 2 * te, "class set from a quaternion", ""); T m4[16]; d::Mat4_AffineQuaternion(m4, q); M<4, 4> R4 = eye<4>(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R4[i][j] = R[i][j]; CK(gap(m4, R4) <= 2 * te, "4D matrix of a quaternion", ""); T m4c[16]; d::Mat4_AffineQuaternionConjugate(m4c, q); CK(gap(m4c, T_(R4)) <= 2 * te, "4D matrix of a conjugate quaternion", ""); CK(gap(d::CMat4<T>::Quat(q).mat, R4) <= 2 * te, "class 4D matrix of a quaternion", ""); T m4r[16]; d::Mat4_AffineRotationCartesian(m4r, a); CK(gap(m4r, R4) <= te, "4D rotation of an axis-angle vector", "angle %g", th);
  { T qr[4]; d::Quat_Mat3(qr, m); LD dt = 0; for (int i = 0; i < 4; ++i) dt += qr[i] * Q[i][0]; LD sg = dt < 0 ? -1 : 1; CK(gap(qr, sg * Q) <= 8 * te, "quaternion of a matrix", "angle %g off %g", th, gap(qr, sg * Q)); auto gq = d::CMat3<T>(m).GetQuaternion(); CK(gap(gq.data(), sg * Q) <= 8 * te || gap(gq.data(), (-sg) * Q) <= 8 * te, "class quaternion of a matrix", ""); }
  // logarithm: accuracy degrades towards half a turn
  if (th < (double)pi - 1e-3) { double lt = te * 60 / std::min(1., (double)pi - th) / std::min(1., (double)pi - th) + (sizeof(T) == 4 ? 2e-3 * std::min(1., th) : 0); M<3, 1> V = mk<3, 1>(a); if (th < 1e-2) lt += 1e-5 * th + te; if (th < 0.2) lt += Eps<T>::v * 40 / std::max(th, 1e-3); T l[3]; d::AxisAngleVectorCartesian_Mat3(l, m); CK(gap(l, V) <= lt, "axis-angle vector of a matrix", "angle %g off %g of %g", th, gap(l, V), lt); auto l2 = d::Vec3_AxisAngleVecFromMat3<d::CMat3<T>, T>(d::CMat3<T>(m)); CK(gap(l2.data(), V) <= lt, "axis-angle vector of a class matrix", "angle %g off %g of %g", th, gap(l2.data(), V), lt); T crv[3]; d::AxisAngleVectorCRV_Mat3(crv, m); auto mr = d::Mat3_RotMatFromConformalRotationVector(std::array<T, 3>{crv[0], crv[1], crv[2]}); CK(gap(mr.data(), R) <= 100 * te, "conformal rotation vector round trip", "angle %g off %g", th, gap(mr.data(), R)); ctx.count("log"); }
  { T v[3] = {(T)r.uni(-1, 1), (T)r.uni(-1, 1), (T)r.uni(-1, 1)}; if (r.chance(0.1)) for (int i = 0; i < 3; ++i) v[i] = a[i]; if (r.chance(0.05)) v[0] = v[1] = v[2] = 0; M<3, 1> W = R * mk<3, 1>(v); T o[3]; d::QuatVec(o, q, v); CK(gap(o, W) <= 4 * te * (1 + nrm(W)), "quaternion rotates a vector", ""); auto o2 = d::QuatVec3(q, d::CVec3<T>(v)); CK(gap(o2.data(), W) <= 4 * te * (1 + nrm(W)), "quaternion rotates a class vector", ""); d::QuatConjVec(o, q, v); CK(gap(o, T_(R) * mk<3, 1>(v)) <= 4 * te * (1 + nrm(W)), "conjugate quaternion rotates a vector back", ""); d::CQuat<T> cq(q[3], q[0], q[1], q[2]); CK(cq.p[0] == q[0] && cq.p[3] == q[3] && cq.w == q[3] && cq.x == q[0], "class quaternion layout", ""); auto o3 = cq.RotateVector(d::CVec3<T>(v)); CK(gap(o3.data(), W) <= 4 * te * (1 + nrm(W)), "class quaternion rotates a vector", "");
    { d::CVec3<T> rv = d::RotateVec3WithAxisAngleVector(d::CVec3<T>(v), d::CVec3<T>(a)); CK(gap(rv.p, W) <= 4 * te * (1 + nrm(W)), "axis-angle rotation of a vector", "angle %g", th); } }
  { T b[3] = {(T)r.uni(-3, 3), (T)r.uni(-3, 3), (T)r.uni(-3, 3)}, q1[4], p[4]; d::Quat_CartesianAngle(q1, b); d::QuatQuat(p, q, q1); T pm[9]; d::Mat3_Quat(pm, p); CK(gap(pm, R * expm(b[0], b[1], b[2])) <= 16 * te, "product of quaternions is the product of rotations", ""); auto p2 = d::Mult_QuatQuat(q, q1); for (int i = 0; i < 4; ++i) CK(std::fabs(p2[i] - p[i]) <= te, "product of quaternions by value", ""); d::CQuat<T> c0(q[3], q[0], q[1], q[2]), c1(q1[3], q1[0], q1[1], q1[2]), c2 = c0 * c1; for (int i = 0; i < 4; ++i) CK(std::fabs(c2.p[i] - p[i]) <= te, "product of class quaternions", ""); d::CQuat<T> id = c0 * c0.conjugate(); CK(std::fabs(id.w - 1) <= 4 * te && std::fabs(id.x) + std::fabs(id.y) + std::fabs(id.z) <= 4 * te, "a quaternion times its conjugate is one", ""); { T qi[4]; d::Inverse_Quat(qi, q); T z[4]; d::QuatQuat(z, q, qi); CK(std::fabs(z[3] - 1) <= 4 * te && std::fabs(z[0]) + std::fabs(z[1]) + std::fabs(z[2]) <= 4 * te, "a quaternion times its inverse is one", "%g %g %g %g", (double)z[0], (double)z[1], (double)z[2], (double)z[3]); } CKN((double)d::Length_Quat(q), 1., te, "length of a rotation quaternion", ""); LD dq = 0; for (int i = 0; i < 4; ++i) dq += (LD)q[i] * q1[i]; CKN((double)d::Dot_Quat(q, q1), (double)dq, te, "quaternion dot product", ""); T qs[4]; double f = r.uni(0.1, 5); for (int i = 0; i < 4; ++i) qs[i] = (T)(q[i] * f); d::Normalize_Quat(qs); CK(gap(qs, Q) <= 4 * te, "normalised quaternion", ""); d::CQuat<T> sm = c0 * (T)f; sm.normalize(); CK(gap(sm.p, Q) <= 4 * te, "normalised class quaternion", ""); sm.SetSmallerRotation(); CK(sm.w >= 0 && (gap(sm.p, Q) <= 4 * te || gap(sm.p, (-1.L) * Q) <= 4 * te), "same rotation with non-negative scalar part", ""); d::CQuat<T> df = (c0 + c1) - c1; CK(gap(df.p, Q) <= 4 * te, "quaternion sum and difference", "");
    // spherical interpolation: constant-speed arc between the two
    LD cd = std::clamp<LD>(dq, -1, 1), ph = std::acos(cd); if (ph < 3.1L) { T t = (T)r.pick({0., 1., 0.5, r.u01()}); d::CQuat<T> s = d::SphericalLinearInterp(c0, c1, t); LD n1 = std::sin(ph), w0, w1; if (n1 < 1e-5L) { w0 = 1 - t; w1 = t; } else { w0 = std::sin(ph * (1 - (LD)t)) / n1; w1 = std::sin(ph * t) / n1; } M<4, 1> S = w0 * Q; for (int i = 0; i < 4; ++i) S[i][0] += w1 * q1[i]; CK(gap(s.p, S) <= 40 * te / std::max(0.03, (double)(pi - ph)) / std::max(1e-2, (double)n1), "spherical interpolation", "between %Lg rad at %g: off %g", ph, (double)t, gap(s.p, S)); ctx.count("slerp"); }
    { T jq[4]; double dl = std::pow(10., r.uni(-17, -6)); for (int i = 0; i < 4; ++i) jq[i] = (T)(q[i] + dl * r.uni(-1, 1)); d::CQuat<T> cj(jq[3], jq[0], jq[1], jq[2]); cj.normalize(); T t = (T)r.u01(); d::CQuat<T> s = d::SphericalLinearInterp(c0, cj, t), s0 = d::SphericalLinearInterp(c0, c0, t); CK(gap(s.p, Q) <= 4 * te + 4 * dl + (sizeof(T) == 4 ? 1e-3 : 3e-8), "spherical interpolation between nearly equal rotations", "%g %g %g %g", (double)s.p[0], (double)s.p[1], (double)s.p[2], (double)s.p[3]); CK(gap(s0.p, Q) <= 4 * te + (sizeof(T) == 4 ? 1e-3 : 3e-8), "spherical interpolation between equal rotations", "%g %g %g %g", (double)s0.p[0], (double)s0.p[1], (double)s0.p[2], (double)s0.p[3]); } }
  // tangent-scaled (Rodrigues) vectors: angle is 2 atan(|v|/2)
  { LD l = th, ang = l > 0 ? 2 * std::atan(l / 2) / l : 1; M<3, 3> RR = expm(a[0] * ang, a[1] * ang, a[2] * ang); CK(gap(d::Mat3_RotMatFromRodriguesVector(d::CVec3<T>(a)).data(), RR) <= 4 * te, "rotation matrix of a Rodrigues vector", "length %g", th); auto m4 = d::Mat4_AffineRotationRodriguez(a[0], a[1], a[2]); bool ok = true; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) ok = ok && std::fabs(m4[4 * i + j] - RR[i][j]) <= 4 * te; CK(ok && m4[15] == 1 && m4[3] == 0 && m4[12] == 0, "4D rotation of a Rodrigues vector", ""); T A[16]; for (T &x : A) x = (T)r.uni(-1, 1); auto A0 = mk<4, 4>(A); M<4, 4> R44 = eye<4>(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R44[i][j] = RR[i][j]; d::Rotate_Mat4AffineRodriguez(A, a); CK(gap(A, R44 * A0) <= 16 * te, "4D rotation applied in place", ""); }
  // Euler angles
  { T x = (T)r.uni(-3, 3), y = (T)r.uni(-3, 3), z = (T)r.uni(-3, 3); M<3, 3> B = axis(2, z) * axis(1, y) * axis(0, x); T bq[4], bm[9]; d::Quat_Bryant(bq, x, y, z); d::Mat3_Quat(bm, bq); CK(gap(bm, B) <= 8 * e, "Bryant angles as a quaternion", ""); auto bq2 = d::Quat_Bryant(x, y, z); for (int i = 0; i < 4; ++i) CK(std::fabs(bq2[i] - bq[i]) <= e, "Bryant angles by value", ""); d::CMat3<T> bc; bc.SetRotMatrix_BryantAngle(x, y, z); CK(gap(bc.p_, B) <= 8 * e, "Bryant angles as a matrix", "");
    std::array<int, 3> od = {r.irange(0, 2), r.irange(0, 2), r.irange(0, 2)}; std::array<T, 3> an = {x, y, z}; T eq[4], em[9]; d::Quaternion_EulerAngle(eq, an, od); d::Mat3_Quat(em, eq); M<3, 3> E = axis(od[0], x) * axis(od[1], y) * axis(od[2], z); CK(gap(em, E) <= 8 * e, "Euler angles as a quaternion", "");
    for (auto o : {std::array<int, 3>{2, 1, 0}, std::array<int, 3>{2, 0, 1}}) { T yy = (T)r.uni(-1.5, 1.5); if (r.chance(0.1)) yy = 0; std::array<T, 3> a3 = {r.chance(0.1) ? (T)0 : x, yy, z}; M<3, 3> EE = axis(o[0], a3[0]) * axis(o[1], yy) * axis(o[2], a3[2]); T mm[9], ea[3]; for (int i = 0; i < 9; ++i) mm[i] = (T)EE[i / 3][i % 3]; d::EulerAngle_Mat3(ea, mm, o); double cy = std::cos(yy); CK(gap(ea, mk<3, 1>(a3.data())) <= 20 * e / cy / cy, "Euler angles of a matrix", "order %d%d%d angles %g %g %g got %g %g %g", o[0], o[1], o[2], (double)a3[0], (double)a3[1], (double)a3[2], (double)ea[0], (double)ea[1], (double)ea[2]); ctx.count("euler"); } }
  // smallest rotation taking one direction to another
  { d::CVec3<T> p((T)r.gauss(), (T)r.gauss(), (T)r.gauss()), s((T)r.gauss(), (T)r.gauss(), (T)r.gauss()); if (r.chance(0.3)) { p = d::CVec3<T>(0, 0, 0); p.p[r.irange(0, 2)] = r.chance(0.5) ? 1 : -1; } int kk = r.irange(0, 5); if (kk == 0) s = p * (T)r.uni(0.3, 3); if (kk == 1) s = p * (T)-r.uni(0.3, 3); if (kk == 2) s = p + s * (T)std::pow(10., r.uni(-8, -2)); if (kk == 3) s = s * (T)std::pow(10., r.uni(-8, -2)) - p; if (p.norm() > 0.05 && s.norm() > 0.05) { auto mr = d::Mat3_MinimumRotation(p, s); M<3, 3> G = mk<3, 3>(mr.data()); M<3, 1> P = (1.L / std::sqrt((LD)p.p[0] * p.p[0] + (LD)p.p[1] * p.p[1] + (LD)p.p[2] * p.p[2])) * mk<3, 1>(p.p), S = (1.L / std::sqrt((LD)s.p[0] * s.p[0] + (LD)s.p[1] * s.p[1] + (LD)s.p[2] * s.p[2])) * mk<3, 1>(s.p); double l = 60 * Eps<T>::v + 1e-11 + (sizeof(T) == 4 ? 2e-5 : 0), cd = (double)(T_(P) * S)[0][0]; double lo = cd < -0.99 ? std::max(l, sizeof(T) == 4 ? 1e-3 : 3e-8) : l; CK(nrm(T_(G) * G + (-1.L) * eye<3>()) <= lo && std::fabs(det3(G) - 1) <= lo, "minimum rotation is a rotation", "kind %d cos %g: off %g", kk, cd, nrm(T_(G) * G + (-1.L) * eye<3>())); CK(nrm(G * P + (-1.L) * S) <= lo, "minimum rotation takes the first direction to the second", "kind %d cos %g: off %g", kk, cd, nrm(G * P + (-1.L) * S)); LD tr = G[0][0] + G[1][1] + G[2][2]; CK(std::fabs((double)(tr - 1) / 2 - cd) <= lo, "minimum rotation has the smallest angle", "kind %d: cos %g instead of %g", kk, (double)(tr - 1) / 2, cd); ctx.count(kk == 1 || kk == 3 ? "min_rotation_opposite" : "min_rotation"); } }
  ctx.count("rot"); }
VH_FAMILY(rot_d, 20000, 400000) { rot<double>(ctx); }
VH_FAMILY(rot_f, 7000, 100000) { rot<float>(ctx); }

// ---------------- 4D
template <class T> static void mat4(vh::Ctx &ctx) {
  auto &r = ctx.rng; Gen<T> g(r); double e = Eps<T>::v * 24; T a[16], b[16], c[16], x[4], y[4]; g.fill(a, 16); g.fill(b, 16); g.fill(x, 4); sigp(ctx, a, 16); auto A = mk<4, 4>(a), B = mk<4, 4>(b); auto X = mk<4, 1>(x); double na = nrm(A), nb = nrm(B), nx = nrm(X); d::MatMat4(c, a, b); CK(gap(c, A * B) <= e * na * nb, "4D product", ""); d::CMat4<T> p(a), q(b); CK(gap((p * q).mat, A * B) <= e * na * nb && gap((p + q).mat, A + B) <= e * (na + nb) && gap((p - q).mat, A + (-1.L) * B) <= e * (na + nb), "4D class operators", ""); d::Transpose_Mat4(c, a); CK(gap(c, T_(A)) == 0 && gap(p.transpose().mat, T_(A)) == 0, "4D transpose", "");
  { T z[16]; std::copy(a, a + 16, z); d::MatVec4(y, a, x); CK(gap(y, A * X) <= e * na * nx, "4D matrix-vector product", ""); d::VecMat4(y, x, a); CK(gap(y, T_(A) * X) <= e * na * nx, "4D vector-matrix product", ""); }
  { M<4, 4> I; if (inv(A, I)) { double k = na * nrm(I); if (k < (sizeof(T) == 4 ? 1e3 : 1e9)) { d::Inverse_Mat4(c, a); CK(gap(c, I) <= 40 * e * k * nrm(I), "4D inverse", "condition %g off %g", k, gap(c, I)); CK(gap(p.Inverse().mat, I) <= 40 * e * k * nrm(I), "4D class inverse", ""); ctx.count("inverse4"); } } }
  M<3, 1> X3 = mk<3, 1>(x); M<4, 1> H; for (int i = 0; i < 3; ++i) H[i][0] = x[i]; H[3][0] = 1; M<4, 1> Y = A * H, Yt = T_(A) * H; { T o[3]; d::Mat4Vec3(o, a, x); M<3, 1> L; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) L[i][0] += A[i][j] * x[j]; CK(gap(o, L) <= e * na * nx, "4D matrix acting on a direction", ""); CK(gap(p.MultVec3(x).data(), L) <= e * na * nx, "4D class matrix acting on a direction", ""); if constexpr (sizeof(T) == 8) { M<3, 1> Lt; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) Lt[i][0] += A[j][i] * x[j]; d::Vec3Mat4(o, x, a); CK(gap(o, Lt) <= e * na * nx, "direction times a 4D matrix", ""); } d::Vec3_Mat4Vec3_Affine(o, a, x); M<3, 1> Aff; for (int i = 0; i < 3; ++i) Aff[i][0] = Y[i][0]; CK(gap(o, Aff) <= e * na * (1 + nx), "affine map of a point", "");
    auto hom = [&](const M<4, 1> &Z) { M<3, 1> h; for (int i = 0; i < 3; ++i) h[i][0] = Z[i][0] / Z[3][0]; return h; }; double sc = na * (1 + nx); if (std::fabs(Y[3][0]) > 1e-3 * sc) { M<3, 1> h = hom(Y); double te = 40 * e * sc / std::fabs((double)Y[3][0]) * (1 + nrm(h)); CK(gap(d::Vec3_Mat4Vec3_Homography(a, x).data(), h) <= te, "homography", ""); CK(gap(p.MultVec3_Homography(x).data(), h) <= te, "class homography", ""); M<2, 1> h2; h2[0][0] = h[0][0]; h2[1][0] = h[1][0]; CK(gap(d::Vec2_Mat4Vec3_Homography(a, x).data(), h2) <= te && gap(p.Vec2_MultVec3_Homography(x).data(), h2) <= te, "homography to the plane", ""); } if (std::fabs(Yt[3][0]) > 1e-3 * sc) { M<3, 1> h = hom(Yt); d::Vec3_Vec3Mat4_Homography(o, x, a); CK(gap(o, h) <= 40 * e * sc / std::fabs((double)Yt[3][0]) * (1 + nrm(h)), "transposed homography", ""); } }
  { T m[16]; M<4, 4> S = eye<4>(); d::Mat4_Identity(m); CK(gap(m, S) == 0 && gap(d::CMat4<T>::Identity().mat, S) == 0, "4D identity", ""); M<4, 4> L = eye<4>(); for (int i = 0; i < 3; ++i) L[i][3] = x[i]; d::Mat4_AffineTranslation(m, x[0], x[1], x[2]); CK(gap(m, L) == 0 && gap(d::Mat4_AffineTranslation(x[0], x[1], x[2]).data(), L) == 0 && gap(d::CMat4<T>::Translation(x).mat, L) == 0 && gap(d::CMat4<T>::Translation(std::array<T, 3>{x[0], x[1], x[2]}).mat, L) == 0, "translation", ""); d::CMat4<T> st; st.SetAffineTranslate(x[0], x[1], x[2]); CK(gap(st.mat, L) == 0 && st.GetTranslationComponent()[1] == x[1], "class translation", ""); T s = g(); for (int i = 0; i < 3; ++i) S[i][i] = s; d::Mat4_AffineScale(m, s); CK(gap(m, S) == 0 && gap(d::CMat4<T>::AffineScale(s).mat, S) == 0, "scaling", ""); for (int i = 0; i < 3; ++i) S[i][i] = x[i]; st.SetScale(x[0], x[1], x[2]); CK(gap(st.mat, S) == 0 && gap(d::CMat4<T>::ScaleXYZ(x[0], x[1], x[2]).mat, S) == 0, "scaling along the axes", ""); T tr[16]; std::copy(a, a + 16, tr); tr[12] = tr[13] = tr[14] = 0; tr[15] = 1; auto TR = mk<4, 4>(tr); d::Translate_Mat4Affine(tr, x); CK(gap(tr, L * TR) <= e * (na + 1) * (1 + nx), "translation applied in place", ""); d::Mat4_Mat3(m, b); bool ok = true; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) ok = ok && m[4 * i + j] == b[3 * i + j] && d::CMat4<T>::Mat3(b).mat[4 * i + j] == b[3 * i + j]; CK(ok && m[15] == 1, "3D block of a 4D matrix", ""); auto g3 = p.GetMat3(); ok = true; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) ok = ok && g3[3 * i + j] == a[4 * i + j]; CK(ok, "3D part of a 4D matrix", ""); T cp[16]; p.CopyTo(cp); CK(gap(cp, A) == 0, "4D copy out", ""); M<4, 4> K; { auto s3 = skew(x[0], x[1], x[2]); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) K[i][j] = s3[i][j]; K[3][3] = 1; } CK(gap(d::CMat4<T>::Skew(x).mat, K) == 0, "4D skew matrix", ""); T rt[16]; d::Mat4_AffineTrans_RotTransl(rt, b, x); M<4, 4> RT = eye<4>(); for (int i = 0; i < 3; ++i) { RT[i][3] = x[i]; for (int j = 0; j < 3; ++j) RT[i][j] = b[3 * i + j]; } CK(gap(rt, T_(RT)) == 0, "transposed rotation and translation", ""); }
  // projections
  { T lo[3], hi[3]; for (int i = 0; i < 3; ++i) { lo[i] = (T)r.uni(-3, 3); hi[i] = lo[i] + (T)(r.uni(0.2, 3) * (r.chance(0.3) ? -1 : 1)); } T m[16]; d::Mat4_AffineProjectionOrtho(m, lo[0], hi[0], lo[1], hi[1], lo[2], hi[2]); auto Z = mk<4, 4>(m); T w[3] = {(T)r.u01(), (T)r.u01(), (T)r.u01()}; M<4, 1> pt; for (int i = 0; i < 3; ++i) pt[i][0] = lo[i] + ((LD)hi[i] - lo[i]) * w[i]; pt[3][0] = 1; M<4, 1> im = Z * pt; for (int i = 0; i < 3; ++i) CK(std::fabs((double)(im[i][0] - (2 * (LD)w[i] - 1))) <= 60 * e, "orthographic projection maps the box to the cube", "axis %d", i); CK(im[3][0] == 1, "orthographic projection is affine", ""); CK(gap(d::CMat4<T>::AffineOrthogonalProjection(lo[0], hi[0], lo[1], hi[1], lo[2], hi[2]).mat, Z) == 0, "class orthographic projection", "");
    T fov = (T)r.uni(0.2, 2.5), asp = (T)r.uni(0.3, 3), zn = (T)-r.uni(0.1, 2), zf = zn - (T)r.uni(0.5, 20); if (r.chance(0.3)) std::swap(zn, zf); d::Mat4_AffineProjectionFrustum(m, fov, asp, zn, zf); auto F = mk<4, 4>(m); LD u = r.uni(-1, 1), v = r.uni(-1, 1), z = zn + ((LD)zf - zn) * r.u01(); LD ty = std::tan((LD)fov / 2); M<4, 1> q4; q4[0][0] = u * ty * asp * -z; q4[1][0] = v * ty * -z; q4[2][0] = z; q4[3][0] = 1; M<4, 1> f = F * q4; CK(std::fabs((double)(f[0][0] / f[3][0] - u)) <= 100 * e && std::fabs((double)(f[1][0] / f[3][0] - v)) <= 100 * e, "perspective projection maps view rays to pixels", ""); for (int s = 0; s < 2; ++s) { M<4, 1> w4; w4[2][0] = s ? zf : zn; w4[3][0] = 1; M<4, 1> ff = F * w4; CK(std::fabs((double)(ff[2][0] / ff[3][0]) - (s ? 1 : -1)) <= 400 * e, "perspective depth range", "%d: %Lg", s, ff[2][0] / ff[3][0]); }
    T eye3[3], ct[3], up[3]; for (int i = 0; i < 3; ++i) { eye3[i] = (T)r.uni(-3, 3); ct[i] = (T)r.uni(-3, 3); up[i] = (T)r.uni(-1, 1); } d::CVec3<T> fw(ct[0] - eye3[0], ct[1] - eye3[1], ct[2] - eye3[2]), uu(up); if (fw.norm() > 0.1 && uu.norm() > 0.1 && fw.cross(uu).norm() > 0.05 * fw.norm() * uu.norm()) { d::Mat4_AffineLookAt(m, eye3[0], eye3[1], eye3[2], ct[0], ct[1], ct[2], up[0], up[1], up[2]); auto L = mk<4, 4>(m); M<3, 3> Lr; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) Lr[i][j] = L[i][j]; double le = e * 600; CK(nrm(T_(Lr) * Lr + (-1.L) * eye<3>()) <= le && std::fabs(det3(Lr) - 1) <= le, "look-at matrix is rigid", ""); M<4, 1> pe, pc, pu; for (int i = 0; i < 3; ++i) { pe[i][0] = eye3[i]; pc[i][0] = ct[i]; pu[i][0] = up[i]; } pe[3][0] = pc[3][0] = 1; M<4, 1> ie = L * pe, ic = L * pc, iu = L * pu; CK(nrm(M<3, 1>{{{ie[0][0]}, {ie[1][0]}, {ie[2][0]}}}) <= le, "look-at puts the eye at the origin", ""); CK(std::fabs((double)ic[0][0]) <= le && std::fabs((double)ic[1][0]) <= le && std::fabs((double)(ic[2][0] + fw.norm())) <= le, "look-at puts the target straight ahead", ""); CK(std::fabs((double)iu[0][0]) <= le && iu[1][0] > 0, "look-at keeps the up direction", ""); ctx.count("lookat"); } }
  if constexpr (sizeof(T) == 8) { double qv[3] = {r.uni(-2, 2), r.uni(-2, 2), r.uni(-2, 2)}, qq[4], m[16], sc = r.uni(0.1, 3); d::Quat_CartesianAngle(qq, qv); d::Mat4_ScaleRotTrans(m, sc, qq, x); M<3, 3> R = expm(qv[0], qv[1], qv[2]); M<4, 4> E = eye<4>(); for (int i = 0; i < 3; ++i) { E[i][3] = x[i]; for (int j = 0; j < 3; ++j) E[i][j] = sc * R[i][j]; } CK(gap(m, E) <= 20 * e, "scale, rotate, translate", ""); }
  ctx.count("mat4"); }
VH_FAMILY(mat4_d, 15000, 400000) { mat4<double>(ctx); }
VH_FAMILY(mat4_f, 7000, 100000) { mat4<float>(ctx); }
