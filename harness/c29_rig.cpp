// C29: bone hierarchies, linear blend skinning, motion files and the derivatives used for posing.
#include "../lib/vh.h"
#include <cmath>
#include <climits>
#include <array>
#include <map>
#include <fstream>
#include <sstream>
#include <iostream>
#include <unistd.h>
#include "delfem2/rig_geo3.h"
#include "delfem2/rig_bvh.h"
#include "delfem2/vec3.h"
#include "delfem2/mat3.h"
#include "delfem2/quat.h"
#include "delfem2/msh_primitive.h"
#include "delfem2/rig_msh.h"
#include "delfem2/rigopt.h"
namespace dfm2 = delfem2;

using M4 = std::array<double, 16>;
static M4 ident() { return {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}; }
static M4 mul(const M4 &a, const M4 &b) {
  M4 c{};
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (int k = 0; k < 4; ++k) { c[(size_t) (i * 4 + j)] += a[(size_t) (i * 4 + k)] * b[(size_t) (k * 4 + j)]; }
  return c;
}
static M4 trans(double x, double y, double z) { M4 m = ident(); m[3] = x; m[7] = y; m[11] = z; return m; }
static M4 quat(const double q[4]) {  // x y z w
  double x = q[0], y = q[1], z = q[2], w = q[3];
  return {1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 0, 2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x), 0, 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y), 0, 0, 0, 0, 1};
}
static M4 axis_rot(int ax, double a) {
  M4 m = ident(); double c = std::cos(a), s = std::sin(a);
  int i = (ax + 1) % 3, j = (ax + 2) % 3;
  m[(size_t) (i * 4 + i)] = c; m[(size_t) (j * 4 + j)] = c; m[(size_t) (i * 4 + j)] = -s; m[(size_t) (j * 4 + i)] = s;
  return m;
}
static M4 of(const double *p) { M4 m; for (size_t i = 0; i < 16; ++i) { m[i] = p[i]; } return m; }
static void xf(double r[3], const M4 &m, const double p[3]) { for (int i = 0; i < 3; ++i) { r[i] = m[(size_t) i * 4] * p[0] + m[(size_t) i * 4 + 1] * p[1] + m[(size_t) i * 4 + 2] * p[2] + m[(size_t) i * 4 + 3]; } }
static double diff(const M4 &a, const double *b) { double d = 0; for (size_t i = 0; i < 16; ++i) { d = std::max(d, std::fabs(a[i] - b[i])); } return d; }
static void rnd_quat(vh::Ctx &ctx, double q[4]) { double n = 0; for (int i = 0; i < 4; ++i) { q[i] = ctx.rng.gauss(); n += q[i] * q[i]; } for (int i = 0; i < 4; ++i) { q[i] /= std::sqrt(n); } }

static std::vector<unsigned> rnd_parents(vh::Ctx &ctx, unsigned n, bool multi) {
  std::vector<unsigned> p(n, UINT_MAX);
  int mode = ctx.rng.irange(0, 2);
  for (unsigned i = 1; i < n; ++i) {
    p[i] = mode == 0 ? i - 1 : mode == 1 ? (unsigned) ctx.rng.irange(0, (int) i - 1) : (unsigned) ctx.rng.irange((int) i / 2, (int) i - 1);
    if (multi && ctx.rng.chance(0.15)) { p[i] = UINT_MAX; ctx.count("second_root"); }
  }
  return p;
}
static std::vector<dfm2::CRigBone> rnd_skeleton(vh::Ctx &ctx, unsigned n, bool multi, std::vector<double> *jnt = nullptr) {
  std::vector<unsigned> par = rnd_parents(ctx, n, multi);
  std::vector<double> J(n * 3);
  for (double &v: J) { v = ctx.rng.uni(-2, 2); }
  std::vector<dfm2::CRigBone> b;
  if (ctx.rng.chance(0.3)) { b.resize((size_t) ctx.rng.irange(0, 3)); }
  b.clear();
  dfm2::InitBones_JointPosition(b, n, par.data(), J.data());
  for (unsigned i = 0; i < n; ++i) {
    CK(b[i].ibone_parent == (int) par[i], "parent of a bone", "bone %u", i);
    for (size_t k = 0; k < 3; ++k) { CKN(b[i].RootPosition()[k], J[i * 3 + k], 1e-10, "rest position of the joint", "bone %u", i); }
  }
  if (jnt) { *jnt = J; }
  return b;
}
static void pose(vh::Ctx &ctx, std::vector<dfm2::CRigBone> &b, bool scale, bool move) {
  for (auto &x: b) {
    if (ctx.rng.chance(0.2)) { x.SetRotationBryant(ctx.rng.uni(-3, 3), ctx.rng.uni(-3, 3), ctx.rng.uni(-3, 3)); }
    else { rnd_quat(ctx, x.quatRelativeRot); }
    if (scale && ctx.rng.chance(0.4)) { x.scale = ctx.rng.uni(0.3, 2); }
    if (move && ctx.rng.chance(0.4)) { x.SetTranslation(ctx.rng.uni(-1, 1), ctx.rng.uni(-1, 1), ctx.rng.uni(-1, 1)); }
  }
  dfm2::UpdateBoneRotTrans(b);
}
static std::vector<M4> chain(const std::vector<dfm2::CRigBone> &b) {
  std::vector<M4> A(b.size());
  for (size_t i = 0; i < b.size(); ++i) {
    M4 s = ident(); s[0] = s[5] = s[10] = b[i].scale;
    M4 l = mul(mul(trans(b[i].transRelative[0], b[i].transRelative[1], b[i].transRelative[2]), quat(b[i].quatRelativeRot)), s);
    A[i] = b[i].ibone_parent == -1 ? l : mul(A[(size_t) b[i].ibone_parent], l);
  }
  return A;
}
static std::vector<double> rnd_weights(vh::Ctx &ctx, unsigned np, unsigned nb, bool sparse) {
  std::vector<double> w(np * nb, 0.0);
  for (unsigned i = 0; i < np; ++i) {
    double s = 0;
    for (unsigned j = 0; j < nb; ++j) { if (!sparse || ctx.rng.chance(0.3)) { w[i * nb + j] = ctx.rng.u01(); } s += w[i * nb + j]; }
    if (s < 1e-3) { for (unsigned j = 0; j < nb; ++j) { w[i * nb + j] = 0; } w[i * nb + (unsigned) ctx.rng.irange(0, (int) nb - 1)] = 1; s = 1; }
    for (unsigned j = 0; j < nb; ++j) { w[i * nb + j] /= s; }
  }
  return w;
}

VH_FAMILY(kinematics, 300, 8000) {
  unsigned n = (unsigned) ctx.rng.irange(1, 14);
  std::vector<dfm2::CRigBone> b = rnd_skeleton(ctx, n, true);
  int np = ctx.rng.irange(1, 6);
  for (int i = 0; i < np; ++i) {  // at rest every bone leaves every point where it is
    double p[3] = {ctx.rng.uni(-3, 3), ctx.rng.uni(-3, 3), ctx.rng.uni(-3, 3)}, q[3];
    for (auto &x: b) { x.DeformSkin(q, p); for (int k = 0; k < 3; ++k) { CKN(q[k], p[k], 1e-10, "the rest pose leaves points unchanged", ""); } }
  }
  for (int rep = 0; rep < 3; ++rep) {
    pose(ctx, b, rep > 0, rep > 1);
    std::vector<M4> A = chain(b);
    for (unsigned i = 0; i < n; ++i) {
      CKN(diff(A[i], b[i].affmat3Global), 0.0, 1e-9, "world transform is the product of the local ones along the chain", "bone %u", i);
      double p[3] = {ctx.rng.uni(-3, 3), ctx.rng.uni(-3, 3), ctx.rng.uni(-3, 3)}, q[3], r[3];
      b[i].DeformSkin(q, p);
      xf(r, mul(A[i], of(b[i].invBindMat)), p);
      for (int k = 0; k < 3; ++k) { CKN(q[k], r[k], 1e-9, "a point attached to a bone moves with it", "bone %u", i); }
      ctx.count("bone_transforms");
    }
  }
  ctx.sig(vh::Hash().vd(std::vector<double>(b.back().affmat3Global, b.back().affmat3Global + 16)).h);
}

VH_FAMILY(skinning, 250, 6000) {
  unsigned n = (unsigned) ctx.rng.irange(1, 10), np = (unsigned) ctx.rng.irange(1, 30);
  std::vector<dfm2::CRigBone> b = rnd_skeleton(ctx, n, false);
  std::vector<double> X(np * 3), Y, W = rnd_weights(ctx, np, n, ctx.rng.chance(0.6));
  for (double &v: X) { v = ctx.rng.uni(-3, 3); }
  dfm2::Skinning_LBS(Y, X, b, W);
  for (size_t i = 0; i < X.size(); ++i) { CKN(Y[i], X[i], 1e-9, "skinning at rest leaves the points unchanged", ""); }
  pose(ctx, b, ctx.rng.chance(0.3), ctx.rng.chance(0.3));
  std::vector<M4> A = chain(b);
  std::vector<double> R(np * 3, 0.0);
  for (unsigned i = 0; i < np; ++i) for (unsigned j = 0; j < n; ++j) {
    double r[3]; xf(r, mul(A[j], of(b[j].invBindMat)), &X[i * 3]);
    for (unsigned k = 0; k < 3; ++k) { R[i * 3 + k] += W[i * n + j] * r[k]; }
  }
  Y.assign(ctx.rng.chance(0.5) ? 5 : X.size(), 7.0);
  dfm2::Skinning_LBS(Y, X, b, W);
  if (!CK(Y.size() == X.size(), "number of skinned points", "%zu", Y.size())) { return; }
  for (size_t i = 0; i < X.size(); ++i) { CKN(Y[i], R[i], 1e-9, "skinned position is the weighted mean over the bones", "%zu", i); }
  // sparse weights, twice into the same buffers
  std::vector<double> SW; std::vector<unsigned> SI;
  if (ctx.rng.chance(0.7)) {
    unsigned m0 = (unsigned) ctx.rng.irange(1, 30);
    std::vector<double> W0 = rnd_weights(ctx, m0, n, false);
    dfm2::SparsifyMatrixRow(SW, SI, W0.data(), m0, n, 0.0);
    ctx.count("sparse_buffers_reused");
  }
  double th = ctx.rng.pick({1e-15, 0.02, 0.1, 0.3});
  dfm2::SparsifyMatrixRow(SW, SI, W.data(), np, n, th);
  unsigned mx = 0;
  for (unsigned i = 0; i < np; ++i) { unsigned c = 0; for (unsigned j = 0; j < n; ++j) { c += W[i * n + j] >= th; } mx = std::max(mx, c); }
  if (!CK(SW.size() == (size_t) np * mx && SI.size() == SW.size(), "size of the sparse weights", "%zu vs %u x %u", SW.size(), np, mx)) { return; }
  std::vector<double> W2(np * n, 0.0);
  for (unsigned i = 0; i < np; ++i) for (unsigned k = 0; k < mx; ++k) { if (!CK(SI[i * mx + k] < n, "bone of a sparse weight", "%u", SI[i * mx + k])) { return; } W2[i * n + SI[i * mx + k]] += SW[i * mx + k]; }
  for (unsigned i = 0; i < np; ++i) for (unsigned j = 0; j < n; ++j) { CKN(W2[i * n + j], W[i * n + j] >= th ? W[i * n + j] : 0.0, 1e-12, "sparse weights are the dense ones not below the threshold", "point %u bone %u", i, j); }
  if (mx > 0) {
    std::vector<double> Z;
    dfm2::SkinningSparse_LBS(Z, X, b, SW, SI);
    dfm2::Skinning_LBS(Y, X, b, W2);
    for (size_t i = 0; i < X.size(); ++i) { CKN(Z[i], Y[i], 1e-9, "sparse and dense skinning agree", "%zu", i); }
    ctx.count("sparse_skinned");
  }
  // at most four bones per point, weights not normalised
  {
    std::vector<double> lw(np * 4); std::vector<unsigned> lj(np * 4);
    std::vector<double> Wn(np * n, 0.0), Z(np * 3, -9.0);
    for (unsigned i = 0; i < np; ++i) {
      double s = 0;
      for (unsigned k = 0; k < 4; ++k) {
        lj[i * 4 + k] = (unsigned) ctx.rng.irange(0, (int) n - 1);
        lw[i * 4 + k] = ctx.rng.chance(0.4) ? 0.0 : ctx.rng.uni(0.01, 5);
        if (k == 3 && s == 0) { lw[i * 4 + k] = 0.7; }
        s += lw[i * 4 + k];
      }
      for (unsigned k = 0; k < 4; ++k) { if (lw[i * 4 + k] == 0 && ctx.rng.chance(0.5)) { lj[i * 4 + k] = 60000; } else { Wn[i * n + lj[i * 4 + k]] += lw[i * 4 + k] / s; } }  // an unused slot may hold anything
    }
    dfm2::Skinning_LBS_LocalWeight(Z.data(), X.data(), np, b, lw.data(), lj.data());
    dfm2::Skinning_LBS(Y, X, b, Wn);
    for (size_t i = 0; i < X.size(); ++i) { CKN(Z[i], Y[i], 1e-9, "four-weight and dense skinning agree", "%zu", i); }
  }
  // weighted homogeneous reference positions: skinned position is linear in the entries of the bone matrices
  {
    std::vector<double> P;
    if (ctx.rng.chance(0.5)) { P.assign(3, 1.0); }
    dfm2::Rig_SkinReferncePositionsBoneWeighted(P, b, X, W);
    if (!CK(P.size() == (size_t) np * n * 4, "size of the weighted reference positions", "%zu", P.size())) { return; }
    for (unsigned i = 0; i < np; ++i) for (unsigned k = 0; k < 3; ++k) {
      double s = 0;
      for (unsigned j = 0; j < n; ++j) for (unsigned l = 0; l < 4; ++l) { s += P[i * n * 4 + j * 4 + l] * b[j].affmat3Global[k * 4 + l]; }
      CKN(s, R[i * 3 + k], 1e-9, "weighted reference positions times bone matrices", "point %u", i);
    }
  }
  // linear combinations of points
  {
    std::vector<double> Wt, P1, P2;
    dfm2::Transpose_Mat(Wt, W, np, n);
    for (unsigned i = 0; i < np; ++i) for (unsigned j = 0; j < n; ++j) { CK(Wt[j * np + i] == W[i * n + j], "transposed weights", "%u %u", i, j); }
    dfm2::Points3_WeighttranspPosition(P1, W, X);
    std::vector<double> s1; std::vector<unsigned> i1;
    dfm2::SparsifyMatrixRow(s1, i1, Wt.data(), n, np, 1e-15);
    if (!s1.empty()) { dfm2::Points3_WeightsparsePosition(P2, n, s1, i1, X); }
    else { P2.assign(n * 3, 0.0); }
    for (unsigned j = 0; j < n; ++j) for (unsigned k = 0; k < 3; ++k) {
      double s = 0; for (unsigned i = 0; i < np; ++i) { s += W[i * n + j] * X[i * 3 + k]; }
      CKN(P1[j * 3 + k], s, 1e-9, "points weighted by a transposed matrix", "%u", j); CKN(P2[j * 3 + k], s, 1e-9, "points weighted by a sparse matrix", "%u", j);
    }
  }
  ctx.count("skinned_points", (long) np);
  ctx.sig(vh::Hash().vd(Y).vd(SW).h);
}

VH_FAMILY(rebind, 250, 6000) {  // the current pose becomes the rest pose; skeleton given by joint rotations
  unsigned n = (unsigned) ctx.rng.irange(1, 10), np = 8;
  std::vector<double> J;
  std::vector<dfm2::CRigBone> b = rnd_skeleton(ctx, n, false, &J);
  std::vector<double> X(np * 3), Y0, Y1, W = rnd_weights(ctx, np, n, true);
  for (double &v: X) { v = ctx.rng.uni(-3, 3); }
  pose(ctx, b, false, ctx.rng.chance(0.4));
  {
    std::vector<double> Q; std::vector<int> par; std::vector<double> A(n * 16, 3.0);
    std::vector<dfm2::CRigBone> c = b;
    for (unsigned i = 0; i < n; ++i) { par.push_back(b[i].ibone_parent); Q.insert(Q.end(), b[i].quatRelativeRot, b[i].quatRelativeRot + 4); }
    double tr[3] = {ctx.rng.uni(-1, 1), ctx.rng.uni(-1, 1), ctx.rng.uni(-1, 1)}, q0[3];
    xf(q0, quat(Q.data()), J.data());
    c[0].SetTranslation(tr[0] + q0[0], tr[1] + q0[1], tr[2] + q0[2]);
    for (unsigned i = 1; i < n; ++i) { for (unsigned k = 0; k < 3; ++k) { c[i].transRelative[k] = J[i * 3 + k] - J[(unsigned) par[i] * 3 + k]; } }
    dfm2::UpdateBoneRotTrans(c);
    dfm2::SetMat4AffineBone_FromJointRelativeRotation(A, tr, Q, par, J);
    for (unsigned i = 0; i < n; ++i) { CKN(diff(mul(of(c[i].affmat3Global), of(c[i].invBindMat)), &A[i * 16]), 0.0, 1e-9, "bone transforms from joint rotations", "bone %u", i); }
    ctx.count("from_joint_rotations");
  }
  dfm2::Skinning_LBS(Y0, X, b, W);
  std::vector<std::array<double, 3>> pos;
  for (auto &x: b) { pos.push_back(x.RootPosition()); }
  dfm2::SetCurrentBoneRotationAsDefault(b);
  dfm2::Skinning_LBS(Y1, X, b, W);
  for (size_t i = 0; i < X.size(); ++i) { CKN(Y1[i], Y0[i], 1e-8, "skin unchanged when the pose becomes the rest pose", "%zu", i); }
  std::vector<M4> A = chain(b);
  for (unsigned i = 0; i < n; ++i) {
    for (size_t k = 0; k < 3; ++k) { CKN(b[i].RootPosition()[k], pos[i][k], 1e-9, "joint unchanged when the pose becomes the rest pose", "bone %u", i); }
    for (int k = 0; k < 4; ++k) { CK(b[i].quatRelativeRot[k] == (k == 3), "relative rotations are reset", "bone %u", i); }
    CKN(diff(A[i], b[i].affmat3Global), 0.0, 1e-9, "world transform is the product of the local ones along the chain", "bone %u", i);
  }
  // rotating one joint afterwards turns what hangs below it about the joint, the rest stays
  unsigned ib = (unsigned) ctx.rng.irange(0, (int) n - 1);
  double q[4]; rnd_quat(ctx, q);
  for (int k = 0; k < 4; ++k) { b[ib].quatRelativeRot[k] = q[k]; }
  dfm2::UpdateBoneRotTrans(b);
  M4 T = mul(mul(trans(pos[ib][0], pos[ib][1], pos[ib][2]), quat(q)), trans(-pos[ib][0], -pos[ib][1], -pos[ib][2]));
  std::vector<char> below(n, 0);
  for (unsigned i = 0; i < n; ++i) {
    below[i] = i == ib || (b[i].ibone_parent >= 0 && below[(size_t) b[i].ibone_parent]);
    M4 e = below[i] ? mul(T, A[i]) : A[i];
    CKN(diff(e, b[i].affmat3Global), 0.0, 1e-9, "a joint turns what hangs below it and nothing else", "bone %u joint %u", i, ib);
  }
  ctx.count("rebinds");
  ctx.sig(vh::Hash().vd(Y1).h);
}

// ---------------- motion files ----------------
struct Node { std::string name; double off[3]; int parent; std::vector<std::pair<int, bool>> ch; bool end; };
static std::string sp(vh::Ctx &ctx, bool plain) { if (plain) { return " "; } static const char *w[] = {" ", "\t", "  ", " \t "}; return w[ctx.rng.irange(0, 3)]; }
static std::string eol(vh::Ctx &ctx, int style) { if (style == 0) { return "\n"; } if (style == 1) { return "\r\n"; } return ctx.rng.chance(0.3) ? (ctx.rng.chance(0.5) ? " \n" : "\t\r\n") : "\n"; }
static const char *chname[] = {"Xposition", "Yposition", "Zposition", "Xrotation", "Yrotation", "Zrotation"};
static void write_node(vh::Ctx &ctx, std::vector<Node> &nodes, int parent, int depth, std::string &s, int style, int &budget, bool root_offset) {
  bool plain = style == 0;
  Node nd; nd.parent = parent; nd.end = false;
  nd.name = vh::fmt("%s%d", parent < 0 ? "Hips" : ctx.rng.pick({"Bone_", "joint-", "L.arm:"}), (int) nodes.size());
  std::string ind((size_t) depth, '\t');
  if (!plain && ctx.rng.chance(0.5)) { ind = std::string((size_t) depth * 2, ' '); }
  for (double &v: nd.off) { v = (parent < 0 && !root_offset) ? 0.0 : std::round(ctx.rng.uni(-20, 20) * 1e4) / 1e4; }
  std::vector<int> rot{0, 1, 2}; ctx.rng.shuffle(rot);
  bool hp = parent < 0 ? ctx.rng.chance(0.85) : ctx.rng.chance(0.15);
  if (hp) { std::vector<int> po{0, 1, 2}; if (ctx.rng.chance(0.3)) { ctx.rng.shuffle(po); } for (int a: po) { nd.ch.push_back({a, false}); } }
  if (parent >= 0 && hp) { ctx.count("joint_with_position"); }
  if (parent < 0 && !hp) { ctx.count("root_without_position"); }
  int nr = ctx.rng.chance(0.85) ? 3 : ctx.rng.irange(0, 2);
  for (int i = 0; i < nr; ++i) { nd.ch.push_back({rot[(size_t) i], true}); }
  if (hp && ctx.rng.chance(0.15)) { std::rotate(nd.ch.begin(), nd.ch.begin() + 3, nd.ch.end()); ctx.count("rotation_before_position"); }
  int me = (int) nodes.size();
  s += ind + (parent < 0 ? "ROOT" : "JOINT") + sp(ctx, plain) + nd.name + eol(ctx, style) + ind + "{" + eol(ctx, style);
  std::string i2 = ind + "\t";
  s += i2 + "OFFSET" + sp(ctx, plain) + vh::fmt("%.4f", nd.off[0]) + sp(ctx, plain) + vh::fmt("%.4f", nd.off[1]) + sp(ctx, plain) + vh::fmt("%.4f", nd.off[2]) + eol(ctx, style);
  s += i2 + "CHANNELS" + sp(ctx, plain) + std::to_string(nd.ch.size());
  for (auto &c: nd.ch) { s += sp(ctx, plain) + chname[c.first + (c.second ? 3 : 0)]; }
  s += eol(ctx, style);
  nodes.push_back(nd);
  int nchild = budget > 0 ? ctx.rng.irange(parent < 0 ? 1 : 0, 3) : 0;
  bool any = false;
  for (int i = 0; i < nchild && budget > 0; ++i) { --budget; write_node(ctx, nodes, me, depth + 1, s, style, budget, root_offset); any = true; if (style == 2 && ctx.rng.chance(0.1)) { s += ctx.rng.pick({"\n", "  \n", "\t\r\n"}); ctx.count("blank_lines"); } }
  if (!any) {
    Node e; e.parent = me; e.end = true; e.name = "Site";
    for (double &v: e.off) { v = std::round(ctx.rng.uni(-20, 20) * 1e4) / 1e4; }
    s += i2 + "End" + sp(ctx, plain) + "Site" + eol(ctx, style) + i2 + "{" + eol(ctx, style) + i2 + "\tOFFSET" + sp(ctx, plain) + vh::fmt("%.4f", e.off[0]) + sp(ctx, plain) + vh::fmt("%.4f", e.off[1]) + sp(ctx, plain) + vh::fmt("%.4f", e.off[2]) + eol(ctx, style) + i2 + "}" + eol(ctx, style);
    nodes.push_back(e);
    ctx.count("end_sites");
  }
  s += ind + "}" + eol(ctx, style);
}
static void check_pose(vh::Ctx &ctx, const dfm2::BioVisionHierarchy &bvh, const std::vector<Node> &N, const double *val, const char *what) {
  std::vector<M4> A(N.size());
  size_t ic = 0;
  for (size_t i = 0; i < N.size(); ++i) {
    double t[3] = {N[i].off[0], N[i].off[1], N[i].off[2]};
    M4 R = ident();
    for (auto &c: N[i].ch) { double v = val[ic++]; if (!c.second) { t[c.first] = v; } else { R = mul(R, axis_rot(c.first, v * M_PI / 180)); } }
    M4 l = mul(trans(t[0], t[1], t[2]), R);
    A[i] = N[i].parent < 0 ? l : mul(A[(size_t) N[i].parent], l);
    CKN(diff(A[i], bvh.bones[i].affmat3Global), 0.0, 1e-7, what, "bone %zu of %zu", i, N.size());
  }
  double bb[6] = {1e300, 1e300, 1e300, -1e300, -1e300, -1e300};
  for (auto &a: A) for (int k = 0; k < 3; ++k) { bb[k] = std::min(bb[k], a[(size_t) k * 4 + 3]); bb[k + 3] = std::max(bb[k + 3], a[(size_t) k * 4 + 3]); }
  std::vector<double> mm = bvh.MinMaxXYZ();
  for (int k = 0; k < 6; ++k) { CKN(mm[(size_t) k], bb[k], 1e-7, "bounding box of the joints", "%d", k); }
  ctx.count("poses");
}
static std::string tmp(const char *ext) { return vh::cfg().dir + "/c29_" + std::to_string((long) getpid()) + "." + ext; }
VH_FAMILY(motion_file, 250, 6000) {
  int style = ctx.rng.irange(0, 2), budget = ctx.rng.irange(0, 14);
  std::vector<Node> N;
  std::string s = "HIERARCHY" + eol(ctx, style);
  write_node(ctx, N, -1, 0, s, style, budget, ctx.rng.chance(0.4));
  size_t nc = 0;
  for (auto &x: N) { nc += x.ch.size(); }
  int nf = ctx.rng.irange(0, 6);
  double dt = ctx.rng.pick({0.008333, 0.0333333, 0.1, 1.0});
  s += "MOTION" + eol(ctx, style == 2 ? 0 : style) + "Frames:" + sp(ctx, style == 0) + std::to_string(nf) + eol(ctx, style == 1) + "Frame Time: " + vh::fmt("%g", dt) + eol(ctx, style == 1);
  std::vector<double> V;
  for (int f = 0; f < nf; ++f) {
    for (size_t c = 0; c < nc; ++c) { double v = std::round((ctx.rng.chance(0.1) ? 0.0 : ctx.rng.uni(-180, 180)) * 1e3) / 1e3; V.push_back(v); s += (c ? sp(ctx, style == 0) : "") + vh::fmt("%.4f", v); }
    s += eol(ctx, style);
  }
  if (nc == 0) { return; }
  std::string p = tmp("bvh"), p2 = tmp("out.bvh");
  { std::ofstream o(p, std::ios::binary); o << s; }
  dfm2::BioVisionHierarchy bvh;
  if (ctx.rng.chance(0.2)) { bvh.Open(p); ctx.count("reopened"); }
  bvh.Open(p);
  auto same = [&](const dfm2::BioVisionHierarchy &h, double tol) {
    if (!CK(h.bones.size() == N.size(), "one bone per joint and end site", "%zu vs %zu", h.bones.size(), N.size())) { return false; }
    size_t ic = 0, roots = 0;
    for (size_t i = 0; i < N.size(); ++i) {
      roots += h.bones[i].ibone_parent == -1;
      if (!CK(h.bones[i].ibone_parent == N[i].parent && h.bones[i].name == N[i].name, "bones in file order with their names and parents", "bone %zu: %s %d vs %s %d", i, h.bones[i].name.c_str(), h.bones[i].ibone_parent, N[i].name.c_str(), N[i].parent)) { return false; }
      for (auto &c: N[i].ch) {
        if (!CK(ic < h.channels.size(), "number of channels", "%zu", h.channels.size())) { return false; }
        CK(h.channels[ic].ibone == i && h.channels[ic].iaxis == c.first && h.channels[ic].isrot == c.second, "channels in file order", "channel %zu", ic);
        ++ic;
      }
    }
    CK(roots == 1, "one root", "%zu", roots);
    if (!CK(ic == h.channels.size() && h.nframe == (size_t) nf && h.frame_channel.size() == V.size(), "number of channels and frames", "%zu %zu %zu", h.channels.size(), h.nframe, h.frame_channel.size())) { return false; }
    CKN(h.frame_time, dt, 1e-6, "frame time", "");
    for (size_t i = 0; i < V.size(); ++i) { CKN(h.frame_channel[i], V[i], tol * (1 + std::fabs(V[i])), "channel values", "%zu", i); }
    return !ctx.failed;
  };
  if (!same(bvh, 1e-12)) { ctx.sample(s.substr(0, 600)); unlink(p.c_str()); return; }
  // as opened: bones at rest
  std::vector<std::array<double, 3>> rest(N.size());
  for (size_t i = 0; i < N.size(); ++i) {
    for (size_t k = 0; k < 3; ++k) {
      rest[i][k] = N[i].off[k] + (N[i].parent < 0 ? 0.0 : rest[(size_t) N[i].parent][k]);
      CKN(bvh.bones[i].RootPosition()[k], rest[i][k], 1e-9, "joint at rest is the sum of the offsets", "bone %zu", i);
    }
    double x[3] = {1, -2, 3}, y[3];
    bvh.bones[i].DeformSkin(y, x);
    for (int k = 0; k < 3; ++k) { CKN(y[k], x[k], 1e-9, "the rest pose leaves points unchanged", "bone %zu", i); }
  }
  {  // the local transforms as read make up the rest pose as well
    std::vector<dfm2::CRigBone> c = bvh.bones;
    dfm2::UpdateBoneRotTrans(c);
    for (size_t i = 0; i < N.size(); ++i) { for (size_t k = 0; k < 3; ++k) { CKN(c[i].RootPosition()[k], rest[i][k], 1e-9, "local transforms as read give the rest pose", "bone %zu", i); } }
  }
  int nq = ctx.rng.irange(1, 8);
  for (int i = 0; i < nq && !ctx.failed; ++i) {
    int f = ctx.rng.irange(0, nf + 1);
    if (f >= nf) {
      std::vector<double> before;
      for (auto &b: bvh.bones) { before.insert(before.end(), b.affmat3Global, b.affmat3Global + 16); }
      bvh.SetFrame((unsigned) f);
      std::vector<double> after;
      for (auto &b: bvh.bones) { after.insert(after.end(), b.affmat3Global, b.affmat3Global + 16); }
      CK(before == after, "a frame beyond the end changes nothing", "");
      ctx.count("frame_out_of_range");
    } else {
      bvh.SetFrame((unsigned) f);
      check_pose(ctx, bvh, N, V.data() + (size_t) f * nc, "pose of a frame: channels applied in file order along the chain");
    }
    if (ctx.rng.chance(0.2)) { bvh.ClearPose(); std::vector<double> z(nc, 0.0); check_pose(ctx, bvh, N, z.data(), "cleared pose"); ctx.count("cleared"); }
  }
  bvh.Save(p2);
  dfm2::BioVisionHierarchy b2(p2);
  same(b2, 1e-5);
  ctx.count("saved_and_read");
  unlink(p.c_str()); unlink(p2.c_str());
  ctx.sig(vh::Hash().s(s).h);
}

// ---------------- derivatives and posing by targets ----------------
VH_FAMILY(sensitivity, 150, 4000) {
  unsigned n = (unsigned) ctx.rng.irange(1, 8);
  std::vector<dfm2::CRigBone> b = rnd_skeleton(ctx, n, false);
  pose(ctx, b, ctx.rng.chance(0.4), ctx.rng.chance(0.4));
  std::vector<double> L(ctx.rng.chance(0.5) ? 12 : 0, 1.0);
  dfm2::Rig_Sensitivity_Skeleton(L, b);
  size_t ns = n * 3 + 3;
  if (!CK(L.size() == ns * n * 12, "size of the sensitivities", "%zu", L.size())) { return; }
  unsigned np = 4, nbp = (unsigned) ctx.rng.irange(1, 4);
  std::vector<double> X(np * 3), SW(np * nbp); std::vector<unsigned> SI(np * nbp);
  for (double &v: X) { v = ctx.rng.uni(-2, 2); }
  for (unsigned i = 0; i < np * nbp; ++i) { SW[i] = ctx.rng.u01(); SI[i] = (unsigned) ctx.rng.irange(0, (int) n - 1); }
  std::vector<std::vector<double>> dP(np);
  for (unsigned i = 0; i < np; ++i) { dP[i].assign(2, 5.0); dfm2::Sensitivity_RigSkinPoint(dP[i], i, &X[i * 3], b, L, nbp, SW, SI); if (!CK(dP[i].size() == 3 * ns, "size of the point sensitivities", "")) { return; } }
  dfm2::CTarget tg; tg.ib = (unsigned) ctx.rng.irange(0, (int) n - 1); tg.pos = dfm2::CVec3d(ctx.rng.uni(-1, 1), ctx.rng.uni(-1, 1), ctx.rng.uni(-1, 1));
  std::vector<double> w, dw;
  dfm2::Rig_WdW_Target(w, dw, b, tg, L);
  if (!CK(w.size() == 2 && dw.size() == 2 * ns, "size of the target residual", "")) { return; }
  double e = 1e-4;
  for (size_t is = 0; is < ns; ++is) {
    std::vector<std::vector<double>> A(2), Y(2); std::vector<double> ww[2];
    for (int sg = 0; sg < 2; ++sg) {
      std::vector<dfm2::CRigBone> c = b;
      double h = sg ? -e : e;
      if (is < n * 3) {
        double a = h * 0.5, s = std::sin(a), co = std::cos(a), *q = c[is / 3].quatRelativeRot;
        double d[3] = {0, 0, 0}; d[is % 3] = s;
        double r[4] = {co * q[0] + d[0] * q[3] + d[1] * q[2] - d[2] * q[1], co * q[1] + d[1] * q[3] + d[2] * q[0] - d[0] * q[2], co * q[2] + d[2] * q[3] + d[0] * q[1] - d[1] * q[0], co * q[3] - d[0] * q[0] - d[1] * q[1] - d[2] * q[2]};
        for (int k = 0; k < 4; ++k) { q[k] = r[k]; }
      } else { c[0].transRelative[is - n * 3] += h; }
      dfm2::UpdateBoneRotTrans(c);
      for (auto &x: c) { A[(size_t) sg].insert(A[(size_t) sg].end(), x.affmat3Global, x.affmat3Global + 12); }
      dfm2::SkinningSparse_LBS(Y[(size_t) sg], X, c, SW, SI);
      std::vector<double> dd;
      dfm2::Rig_WdW_Target(ww[sg], dd, c, tg, L);
    }
    for (size_t i = 0; i < n * 12; ++i) { CKN(L[is * n * 12 + i], (A[0][i] - A[1][i]) / (2 * e), 1e-5, "derivative of the bone matrices", "parameter %zu entry %zu", is, i); }
    for (unsigned i = 0; i < np; ++i) for (unsigned k = 0; k < 3; ++k) { CKN(dP[i][k * ns + is], (Y[0][i * 3 + k] - Y[1][i * 3 + k]) / (2 * e), 1e-5, "derivative of a skinned point", "parameter %zu point %u", is, i); }
    for (size_t k = 0; k < 2; ++k) { CKN(dw[k * ns + is], (ww[0][k] - ww[1][k]) / (2 * e), 1e-5, "derivative of the target residual", "parameter %zu", is); }
    ctx.count("derivatives");
  }
  ctx.sig(vh::Hash().vd(L).h);
}
VH_FAMILY(posing, 120, 3000) {  // bones brought to targets
  unsigned n = (unsigned) ctx.rng.irange(1, 8);
  std::vector<dfm2::CRigBone> b = rnd_skeleton(ctx, n, false);
  if (ctx.rng.chance(0.5)) { pose(ctx, b, false, false); }
  unsigned nt = (unsigned) ctx.rng.irange(1, 3);
  std::vector<dfm2::CRigBone> c = b;  // reachable targets: where a nearby pose puts the bones
  for (auto &x: c) { double a[3] = {ctx.rng.uni(-1, 1) * 1e-2, ctx.rng.uni(-1, 1) * 1e-2, ctx.rng.uni(-1, 1) * 1e-2}; double dq[4] = {a[0], a[1], a[2], std::sqrt(1 - a[0] * a[0] - a[1] * a[1] - a[2] * a[2])}, q[4]; dfm2::QuatQuat(q, dq, x.quatRelativeRot); for (int k = 0; k < 4; ++k) { x.quatRelativeRot[k] = q[k]; } }
  for (double &v: c[0].transRelative) { v += ctx.rng.uni(-1, 1) * 0.02; }
  dfm2::UpdateBoneRotTrans(c);
  std::vector<dfm2::CTarget> T(nt);
  for (auto &t: T) { t.ib = (unsigned) ctx.rng.irange(0, (int) n - 1); t.pos = dfm2::CVec3d(c[t.ib].RootPosition()); }
  auto err = [&]() { double s = 0; for (auto &t: T) { auto p = b[t.ib].RootPosition(); s += (p[0] - t.pos.x) * (p[0] - t.pos.x) + (p[1] - t.pos.y) * (p[1] - t.pos.y); } return std::sqrt(s); };
  double e0 = err();
  std::vector<std::array<double, 3>> bone;
  for (int it = 0; it < 3; ++it) {
    // how independently the targets can be reached from here
    std::vector<double> L, w, J;
    dfm2::Rig_Sensitivity_Skeleton(L, b);
    for (auto &x: T) { dfm2::Rig_WdW_Target(w, J, b, x, L); }
    size_t m = w.size(), ns = J.size() / m;
    std::vector<double> G(m * m, 0.0);
    for (size_t r = 0; r < m; ++r) for (size_t q = 0; q < m; ++q) for (size_t k = 0; k < ns; ++k) { G[r * m + q] += J[r * ns + k] * J[q * ns + k]; }
    double mn = 1e300, mxp = 0;
    for (size_t k = 0; k < m; ++k) {
      mn = std::min(mn, G[k * m + k]); mxp = std::max(mxp, G[k * m + k]);
      if (G[k * m + k] < 1e-9) { break; }
      for (size_t r = k + 1; r < m; ++r) { double f = G[r * m + k] / G[k * m + k]; for (size_t q = k; q < m; ++q) { G[r * m + q] -= f * G[k * m + q]; } }
    }
    dfm2::Solve_MinRigging(b, T);
    double e1 = err();
    if (mn > 0.05 * mxp) { CK(e1 <= 0.05 * e0 + 30 * e0 * e0 + 1e-9, "bones approach their targets", "step %d: %g -> %g with %u targets on %u bones", it, e0, e1, nt, n); ctx.count("independent_targets"); if (e0 > 1e-3) { ctx.count("independent_targets_far"); } }
    e0 = e1;
    std::vector<M4> A = chain(b);
    for (unsigned i = 0; i < n; ++i) {
      CKN(diff(A[i], b[i].affmat3Global), 0.0, 1e-9, "world transform is the product of the local ones along the chain", "bone %u", i);
      double q2 = 0; for (double v: b[i].quatRelativeRot) { q2 += v * v; }
      CKN(q2, 1.0, 1e-6, "rotations stay rotations", "bone %u", i);
    }
    ctx.count("posing_steps");
  }
  ctx.sig(vh::Hash().d(e0).h);
}
VH_FAMILY(bone_mesh, 100, 2000) {
  unsigned n = (unsigned) ctx.rng.irange(2, 9);
  std::vector<dfm2::CRigBone> b = rnd_skeleton(ctx, n, true);
  pose(ctx, b, false, false);
  std::vector<double> X; std::vector<unsigned> T;
  dfm2::Mesh_RigBones_Octahedron(X, T, b);
  unsigned nb = 0;
  for (auto &x: b) { nb += x.ibone_parent >= 0; }
  if (nb == 0) { CK(X.empty() && T.empty(), "no bones, no mesh", ""); return; }
  if (!CK(X.size() % (nb * 3) == 0 && T.size() % (nb * 3) == 0, "every bone has the same mesh", "%zu %zu", X.size(), T.size())) { return; }
  unsigned nv = (unsigned) (X.size() / 3 / nb), nt = (unsigned) (T.size() / 3 / nb), ib = 0;
  for (unsigned i = 0; i < n; ++i) {
    if (b[i].ibone_parent < 0) { continue; }
    auto p1 = b[i].RootPosition(), p0 = b[(size_t) b[i].ibone_parent].RootPosition();
    double d0 = 1e9, d1 = 1e9, vol = 0;
    for (unsigned v = ib * nv; v < (ib + 1) * nv; ++v) {
      double a = 0, c = 0; for (size_t k = 0; k < 3; ++k) { a += (X[v * 3 + k] - p0[k]) * (X[v * 3 + k] - p0[k]); c += (X[v * 3 + k] - p1[k]) * (X[v * 3 + k] - p1[k]); }
      d0 = std::min(d0, a); d1 = std::min(d1, c);
    }
    CKN(std::sqrt(d0), 0.0, 1e-6, "bone mesh starts at the parent joint", "bone %u", i); CKN(std::sqrt(d1), 0.0, 1e-6, "bone mesh ends at the joint", "bone %u", i);
    std::map<std::pair<unsigned, unsigned>, int> E;
    for (unsigned t = ib * nt; t < (ib + 1) * nt; ++t) {
      for (unsigned k = 0; k < 3; ++k) { unsigned v = T[t * 3 + k]; if (!CK(v >= ib * nv && v < (ib + 1) * nv, "vertices of the bone mesh", "%u", v)) { return; } E[{v, T[t * 3 + (k + 1) % 3]}]++; }
      const double *a = &X[T[t * 3] * 3], *c = &X[T[t * 3 + 1] * 3], *d = &X[T[t * 3 + 2] * 3];
      vol += (a[0] * (c[1] * d[2] - c[2] * d[1]) + a[1] * (c[2] * d[0] - c[0] * d[2]) + a[2] * (c[0] * d[1] - c[1] * d[0])) / 6;
    }
    for (auto &e: E) { CK(e.second == 1 && E.count({e.first.second, e.first.first}), "bone mesh is closed and consistently oriented", "bone %u", i); }
    CK(std::fabs(vol) > 0, "bone mesh encloses a volume", "volume %g", vol);
    ++ib;
    ctx.count("bone_meshes");
  }
  ctx.sig(vh::Hash().vd(X).h);
}
