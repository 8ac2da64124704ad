// C17: element forces / stiffnesses are the derivatives of their energy
#include "../lib/vh.h"
#include <functional>
#include <array>
#include <cmath>
#include "delfem2/svd3.h"
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/mat3.h"
#include "delfem2/mat3_funcs.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/quat.h"
#include "delfem2/geo_tri.h"
#include "delfem2/geo_tet.h"
#include "delfem2/ls_block_sparse.h"
#include "delfem2/msh_topology_uniform.h"
#include "delfem2/jagarray.h"
#include "delfem2/fem_stvk.h"
#include "delfem2/fem_solidhyper.h"
#include "delfem2/fem_solidlinear.h"
#include "delfem2/fem_mips.h"
#include "delfem2/fem_distance3.h"
#include "delfem2/fem_discreteshell.h"
#include "delfem2/fem_quadratic_bending.h"
#include "delfem2/fem_rod2.h"
#include "delfem2/fem_rod3_straight.h"
#include "delfem2/fem_rod3_darboux.h"
#include "delfem2/fem_invertiblefem.h"
#include "delfem2/femcloth.h"
#include "delfem2/fem_mitc3.h"
#include "delfem2/fem_dkt.h"
#include "delfem2/fem_beam2.h"
#include "delfem2/defarapenergy_geo3.h"

using namespace vh;
namespace dfm2 = delfem2;
typedef std::vector<double> V;
typedef std::function<void(const double*, double&, double*, double*)> EF;

static double mx(const double* p, size_t n){ double m = 0; for(size_t i=0;i<n;++i) m = std::max(m, std::fabs(p[i])); return m; }

// numerical derivative of a vector valued function, self validated: two step lengths must agree
static void numdiff(int m, const std::function<void(const double*, double*)>& f, const V& x0, double L,
                    std::vector<V>& D, std::vector<V>& E){
  int n = (int)x0.size();
  D.assign(n, V(m)); E.assign(n, V(m));
  V fp(m), fm(m), gp(m), gm(m);
  for(int i=0;i<n;++i){
    V d[2];
    for(int k=0;k<2;++k){
      double h = L * (k==0 ? 2e-3 : 5e-4);
      V x = x0;
      x[i] = x0[i]+h; f(x.data(), fp.data());
      x[i] = x0[i]-h; f(x.data(), fm.data());
      x[i] = x0[i]+2*h; f(x.data(), gp.data());
      x[i] = x0[i]-2*h; f(x.data(), gm.data());
      d[k].resize(m);
      for(int j=0;j<m;++j) d[k][j] = (8*(fp[j]-fm[j]) - (gp[j]-gm[j]))/(12*h);
    }
    for(int j=0;j<m;++j){ D[i][j] = d[1][j]; E[i][j] = std::fabs(d[1][j]-d[0][j]); }
  }
}

// hess: 0 = none, 1 = symmetric only, 2 = exact derivative of gradient (and symmetric)
static bool chk(Ctx& ctx, const char* name, const EF& f, const V& x0, double L, int hess, bool nonneg){
  int n = (int)x0.size();
  double W = 0; V g(n), H(n*n, 0.0);
  f(x0.data(), W, g.data(), H.data());
  bool ok = true;
  double gm = mx(g.data(), n), hm = mx(H.data(), n*n);
  double gs = gm + hm*L*0.1 + std::fabs(W)/L + 1e-300;
  double hs = hm + gm/L + 1e-300;
  ok &= CK(std::isfinite(W) && std::isfinite(gm) && std::isfinite(hm), fmt("%s: value not finite", name), "W=%g |g|=%g |H|=%g x=%s", W, gm, hm, str(x0).c_str());
  if(nonneg) ok &= CK(W >= -1e-10*(gs*L), fmt("%s: energy negative", name), "W=%.17g x=%s", W, str(x0).c_str());
  std::vector<V> D, E;
  numdiff(n+1, [&](const double* x, double* r){ double w; V hh(n*n); f(x, w, r+1, hh.data()); r[0] = w; }, x0, L, D, E);
  for(int i=0;i<n;++i){
    if(E[i][0] < 1e-4*gs){
      ctx.count("gradient_entries");
      ok &= CK(std::fabs(D[i][0]-g[i]) <= 2e-7*gs + 10*E[i][0], fmt("%s: gradient is not the derivative of the energy", name),
               "i=%d numeric=%.12g returned=%.12g scale=%g x=%s", i, D[i][0], g[i], gs, str(x0).c_str());
    } else ctx.count("rough_entries");
    if(hess>=2) for(int j=0;j<n;++j){
      if(E[i][1+j] < 1e-4*hs){
        ctx.count("hessian_entries");
        ok &= CK(std::fabs(D[i][1+j]-H[j*n+i]) <= 2e-7*hs + 10*E[i][1+j], fmt("%s: hessian is not the derivative of the gradient", name),
                 "g%d/x%d numeric=%.12g returned=%.12g scale=%g x=%s", j, i, D[i][1+j], H[j*n+i], hs, str(x0).c_str());
      } else ctx.count("rough_entries");
    }
  }
  if(hess>=1) for(int i=0;i<n;++i) for(int j=0;j<i;++j)
    ok &= CK(std::fabs(H[i*n+j]-H[j*n+i]) <= 1e-9*hs, fmt("%s: hessian not symmetric", name), "(%d,%d) %.15g vs %.15g", i, j, H[i*n+j], H[j*n+i]);
  ctx.sig(Hash().vd(x0).h);
  return ok;
}
// smallest eigenvalue >= -tol by Cholesky of H + tol I
static bool isPSD(V H, int n, double tol){
  for(int i=0;i<n;++i) H[i*n+i] += tol;
  for(int k=0;k<n;++k){
    if(!(H[k*n+k] > 0)) return false;
    double d = std::sqrt(H[k*n+k]);
    for(int i=k;i<n;++i) H[i*n+k] /= d;
    for(int j=k+1;j<n;++j) for(int i=j;i<n;++i) H[i*n+j] -= H[i*n+k]*H[j*n+k];
  }
  return true;
}
struct Rig { double R[9], t[3]; };
static Rig rig(Rng& r){
  Rig g; double q[4], s = 0;
  do{ s = 0; for(double& v : q){ v = r.gauss(); s += v*v; } }while(s < 0.01);
  s = 1/std::sqrt(s); for(double& v : q) v *= s;
  double x=q[0],y=q[1],z=q[2],w=q[3];
  double R[9] = {1-2*(y*y+z*z),2*(x*y-z*w),2*(x*z+y*w), 2*(x*y+z*w),1-2*(x*x+z*z),2*(y*z-x*w), 2*(x*z-y*w),2*(y*z+x*w),1-2*(x*x+y*y)};
  for(int i=0;i<9;++i) g.R[i] = R[i];
  for(double& v : g.t) v = r.uni(-3,3);
  return g;
}
static V moved(const Rig& g, const V& x, bool tr = true){
  V y(x.size());
  for(size_t p=0;p+2<x.size();p+=3) for(int i=0;i<3;++i){
    y[p+i] = tr ? g.t[i] : 0; for(int j=0;j<3;++j) y[p+i] += g.R[i*3+j]*x[p+j];
  }
  return y;
}
// invariance under rigid motion, balance of force and moment
static void chkRigid(Ctx& ctx, const char* name, const EF& f, const V& x0, double L, bool torque = true){
  int n = (int)x0.size();
  double W, W1; V g(n), g1(n), H(n*n), H1(n*n);
  f(x0.data(), W, g.data(), H.data());
  Rig r = rig(ctx.rng);
  V x1 = moved(r, x0);
  f(x1.data(), W1, g1.data(), H1.data());
  double gs = mx(g.data(), n) + 0.1*L*mx(H.data(), n*n) + std::fabs(W)/L;
  CK(std::fabs(W-W1) <= 1e-9*gs*L, fmt("%s: energy changes under a rigid motion", name), "W=%.15g moved=%.15g x=%s", W, W1, str(x0).c_str());
  V gr = moved(r, g, false);
  for(int i=0;i<n;++i)
    CK(std::fabs(gr[i]-g1[i]) <= 1e-9*gs, fmt("%s: force does not rotate with the body", name), "i=%d %.15g vs %.15g", i, gr[i], g1[i]);
  double F[3] = {0,0,0}, T[3] = {0,0,0};
  for(int p=0;p<n;p+=3){
    for(int i=0;i<3;++i) F[i] += g[p+i];
    for(int i=0;i<3;++i){ int j=(i+1)%3, k=(i+2)%3; T[i] += x0[p+j]*g[p+k]-x0[p+k]*g[p+j]; }
  }
  CK(mx(F,3) <= 1e-9*gs, fmt("%s: forces do not balance", name), "sum=%g,%g,%g scale=%g", F[0],F[1],F[2],gs);
  if(torque) CK(mx(T,3) <= 1e-9*gs*(L+mx(x0.data(),n)), fmt("%s: moments do not balance", name), "sum=%g,%g,%g scale=%g", T[0],T[1],T[2],gs);
  ctx.count("rigid_motion_checks");
}
static void chkZero(Ctx& ctx, const char* name, const EF& f, const V& x0, double Wscale, double gscale){
  int n = (int)x0.size();
  double W; V g(n), H(n*n);
  f(x0.data(), W, g.data(), H.data());
  CK(std::fabs(W) <= 1e-10*Wscale, fmt("%s: energy not zero at rest", name), "W=%g x=%s", W, str(x0).c_str());
  CK(mx(g.data(),n) <= 1e-7*gscale, fmt("%s: force not zero at rest", name), "|g|=%g x=%s", mx(g.data(),n), str(x0).c_str());
  ctx.count("rest_states");
}

static double tri2(const double* a, const double* b, const double* c){ return 0.5*((b[0]-a[0])*(c[1]-a[1])-(c[0]-a[0])*(b[1]-a[1])); }
// well shaped random rest triangle, ccw
static void restTri(Rng& r, double P[3][2], double L){
  for(;;){
    for(int i=0;i<3;++i) for(int j=0;j<2;++j) P[i][j] = L*r.uni(-1,1);
    double a = tri2(P[0],P[1],P[2]);
    if(a < 0.15*L*L) continue;
    double lm = 0; for(int i=0;i<3;++i) lm = std::max(lm, std::hypot(P[i][0]-P[(i+1)%3][0], P[i][1]-P[(i+1)%3][1]));
    if(a > 0.12*lm*lm) return;
  }
}
static double detTet(const double* a, const double* b, const double* c, const double* d){
  double u[3],v[3],w[3]; for(int i=0;i<3;++i){ u[i]=b[i]-a[i]; v[i]=c[i]-a[i]; w[i]=d[i]-a[i]; }
  return u[0]*(v[1]*w[2]-v[2]*w[1])-u[1]*(v[0]*w[2]-v[2]*w[0])+u[2]*(v[0]*w[1]-v[1]*w[0]);
}
static void restTet(Rng& r, double P[4][3], double L){
  for(;;){
    for(int i=0;i<4;++i) for(int j=0;j<3;++j) P[i][j] = L*r.uni(-1,1);
    if(detTet(P[0],P[1],P[2],P[3]) > 0.5*L*L*L) return;
  }
}
static double pickL(Ctx& ctx){ return ctx.rng.pick({1.0, 1.0, 0.05, 20.0}); }
// reorder the [a][b][i][j] block hessian into a plain matrix
template<int N, int M> static void plain(const double h[N][N][M][M], double* H){
  for(int a=0;a<N;++a) for(int b=0;b<N;++b) for(int i=0;i<M;++i) for(int j=0;j<M;++j) H[(a*M+i)*N*M+b*M+j] = h[a][b][i][j];
}
static void load3(const double* x, int n, double (*c)[3]){ for(int i=0;i<n*3;++i) (&c[0][0])[i] = x[i]; }

// ---------------------------------------------------------------- membranes
VH_FAMILY(membrane_cst, 400, 4000){
  Rng& r = ctx.rng; double L = pickL(ctx);
  double P2[3][2]; restTri(r, P2, L);
  double lam = r.uni(0, 3), myu = r.uni(0.1, 3);
  Rig g0 = rig(r);
  V X(9); for(int i=0;i<3;++i){ X[i*3]=P2[i][0]; X[i*3+1]=P2[i][1]; X[i*3+2]=0; }
  V Xw = X;                       // reference triangle lies anywhere in space
  if(r.chance(0.7)) Xw = moved(g0, X);
  double C[3][3]; load3(Xw.data(), 3, C);
  EF f = [&](const double* x, double& W, double* g, double* H){
    double c[3][3], dW[3][3], ddW[3][3][3][3]; load3(x,3,c);
    dfm2::WdWddW_CST(W, dW, ddW, C, c, lam, myu);
    for(int i=0;i<9;++i) g[i] = (&dW[0][0])[i];
    plain<3,3>(ddW, H);
  };
  bool tension = r.chance(0.5);
  V x = moved(rig(r), X);
  double cen[3] = {(x[0]+x[3]+x[6])/3,(x[1]+x[4]+x[7])/3,(x[2]+x[5]+x[8])/3};
  double sc = tension ? r.uni(1.3,1.6) : r.uni(0.6,1.4), nz = tension ? 0.03 : 0.4;
  for(int i=0;i<9;++i) x[i] = cen[i%3] + (x[i]-cen[i%3])*sc + nz*L*r.uni(-1,1);
  // second Piola stress from an independent evaluation decides whether the filtered hessian must be exact
  double E2[3], S2[3];
  {
    double T[4] = {P2[1][0]-P2[0][0], P2[2][0]-P2[0][0], P2[1][1]-P2[0][1], P2[2][1]-P2[0][1]};
    double det = T[0]*T[3]-T[1]*T[2], I[4] = {T[3]/det,-T[1]/det,-T[2]/det,T[0]/det};
    double F[3][2]; for(int k=0;k<3;++k){ double a = x[3+k]-x[k], b = x[6+k]-x[k]; F[k][0] = a*I[0]+b*I[2]; F[k][1] = a*I[1]+b*I[3]; }
    E2[0]=E2[1]=E2[2]=0; for(int k=0;k<3;++k){ E2[0]+=0.5*F[k][0]*F[k][0]; E2[1]+=0.5*F[k][1]*F[k][1]; E2[2]+=0.5*F[k][0]*F[k][1]; }
    E2[0]-=0.5; E2[1]-=0.5;
    S2[0]=lam*(E2[0]+E2[1])+2*myu*E2[0]; S2[1]=lam*(E2[0]+E2[1])+2*myu*E2[1]; S2[2]=2*myu*E2[2];
    double W; V g(9), H(81); f(x.data(), W, g.data(), H.data());
    double Wo = det*0.5*(0.5*lam*(E2[0]+E2[1])*(E2[0]+E2[1]) + myu*(E2[0]*E2[0]+E2[1]*E2[1]+2*E2[2]*E2[2]));
    CK(std::fabs(W-Wo) <= 1e-9*(std::fabs(Wo)+L*L*(lam+myu)*1e-3), "CST: energy is not area * St.Venant-Kirchhoff density", "W=%.15g expected=%.15g", W, Wo);
    V Hs = H; double hm = mx(H.data(),81);
    CK(isPSD(Hs, 9, 1e-8*hm), "CST: filtered hessian not positive semidefinite", "x=%s", str(x).c_str());
  }
  double tr = S2[0]+S2[1], dt = S2[0]*S2[1]-S2[2]*S2[2];
  bool pd = tr > 0.02*(lam+myu) && dt > 0.02*tr*tr*0.25;
  if(pd) ctx.count("cst_tension");
  chk(ctx, "CST", f, x, L, pd?2:1, true);
  chkRigid(ctx, "CST", f, x, L);
  chkZero(ctx, "CST", f, moved(rig(r), X), L*L*(lam+myu), L*(lam+myu));
  // the 2x2 projection itself
  double s3[3]; double s2[3] = {r.uni(-2,2), r.uni(-2,2), r.uni(-2,2)};
  if(r.chance(0.2)) s2[2] = 0;
  MakePositiveDefinite_Sim22(s2, s3);
  double m = 0.5*(s2[0]+s2[1]), d = std::sqrt(0.25*(s2[0]-s2[1])*(s2[0]-s2[1])+s2[2]*s2[2]);
  double l1 = m+d, l2 = m-d, e[3] = {0,0,0};
  if(l2 >= 0){ for(int i=0;i<3;++i) e[i]=s2[i]; }
  else if(l1 > 0){ double k = l1/(l1-l2); e[0]=k*(s2[0]-l2); e[1]=k*(s2[1]-l2); e[2]=k*s2[2]; }
  CK(std::fabs(e[0]-s3[0])+std::fabs(e[1]-s3[1])+std::fabs(e[2]-s3[2]) <= 1e-9*(1+1/(d+1e-9)*0), "MakePositiveDefinite_Sim22: not the positive part of the matrix",
     "s2=(%.9g,%.9g,%.9g) got (%.9g,%.9g,%.9g) expected (%.9g,%.9g,%.9g)", s2[0],s2[1],s2[2],s3[0],s3[1],s3[2],e[0],e[1],e[2]);
}

VH_FAMILY(membrane_constraints, 300, 3000){
  Rng& r = ctx.rng; double L = pickL(ctx);
  double P[3][2]; restTri(r, P, L);
  double lam = r.uni(0,3), myu = r.uni(0.1,3);
  V X(9); for(int i=0;i<3;++i){ X[i*3]=P[i][0]; X[i*3+1]=P[i][1]; X[i*3+2]=0; }
  V x = moved(rig(r), X); for(double& v : x) v += 0.3*L*r.uni(-1,1);
  EF fe = [&](const double* y, double& W, double* g, double*){ double p[3][3]; load3(y,3,p); dfm2::CdC_EnergyStVK(W, g, P, p, lam, myu); };
  chk(ctx, "EnergyStVK", fe, x, L, 0, true);
  chkRigid(ctx, "EnergyStVK", fe, x, L);
  { V z = moved(rig(r), X); chkZero(ctx, "EnergyStVK", fe, z, L*L*(lam+myu), L*(lam+myu)); }
  for(int k=0;k<3;++k){
    EF fc = [&](const double* y, double& W, double* g, double*){ double p[3][3], C[3], d[3][9]; load3(y,3,p); dfm2::CdC_StVK(C, d, P, p); W = C[k]; for(int i=0;i<9;++i) g[i] = d[k][i]; };
    chk(ctx, "CdC_StVK", fc, x, L, 0, false); chkRigid(ctx, "CdC_StVK", fc, x, L);
    { double W; V g(9), H(81); V z = moved(rig(r), X); fc(z.data(), W, g.data(), H.data()); CK(std::fabs(W) <= 1e-9, "CdC_StVK: strain not zero at rest", "k=%d C=%g", k, W); }
    EF fl = [&](const double* y, double& W, double* g, double*){ double p[3][3], C[3], d[3][9]; load3(y,3,p); dfm2::CdC_LengthTriEdges23(C, d, P, p); W = C[k]; for(int i=0;i<9;++i) g[i] = d[k][i]; };
    chk(ctx, "CdC_LengthTriEdges23", fl, x, L, 0, false); chkRigid(ctx, "CdC_LengthTriEdges23", fl, x, L);
    { double W; V g(9), H(81); V z = moved(rig(r), X); fl(z.data(), W, g.data(), H.data()); CK(std::fabs(W) <= 1e-9*L, "CdC_LengthTriEdges23: not zero at rest", "k=%d C=%g", k, W); }
  }
  double P3[4][3]; restTet(r, P3, L);
  V X3(12), x3(12); for(int i=0;i<12;++i){ X3[i] = (&P3[0][0])[i]; } x3 = moved(rig(r), X3); for(double& v : x3) v += 0.2*L*r.uni(-1,1);
  for(int k=0;k<6;++k){
    EF ft = [&](const double* y, double& W, double* g, double*){ double p[4][3], C[6], d[6][12]; load3(y,4,p); dfm2::CdC_LengthTetEdges(C, d, P3, p); W = C[k]; for(int i=0;i<12;++i) g[i] = d[k][i]; };
    chk(ctx, "CdC_LengthTetEdges", ft, x3, L, 0, false); chkRigid(ctx, "CdC_LengthTetEdges", ft, x3, L);
    { double W; V g(12), H(144); V z = moved(rig(r), X3); ft(z.data(), W, g.data(), H.data()); CK(std::fabs(W) <= 1e-9*L, "CdC_LengthTetEdges: not zero at rest", "k=%d C=%g", k, W); }
  }
}

VH_FAMILY(membrane_sensitivity, 250, 2500){
  Rng& r = ctx.rng; double L = pickL(ctx);
  double P[3][2]; restTri(r, P, L);
  double lam = r.uni(0,3), myu = r.uni(0.1,3);
  V X(9); for(int i=0;i<3;++i){ X[i*3]=P[i][0]; X[i*3+1]=P[i][1]; X[i*3+2]=0; }
  V x = moved(rig(r), X); for(double& v : x) v += 0.2*L*r.uni(-1,1);
  V Xw = r.chance(0.5) ? X : moved(rig(r), X);
  double c[3][3], C[3][3]; load3(x.data(),3,c); load3(Xw.data(),3,C);
  double K[3][3][3][3], R[3][3], dRdC[3][3][3][3];
  dfm2::WdWddW_CST_Sensitivity(K, R, dRdC, lam, myu, C, c);
  double W, dW[3][3], ddW[3][3][3][3];
  dfm2::WdWddW_CST(W, dW, ddW, C, c, lam, myu);
  double gs = mx(&dW[0][0],9)+L*mx(&ddW[0][0][0][0],81)*0.1;
  for(int i=0;i<9;++i) CK(std::fabs((&dW[0][0])[i]-(&R[0][0])[i]) <= 1e-9*gs, "CST_Sensitivity: residual differs from the CST gradient", "i=%d %.12g vs %.12g", i, (&R[0][0])[i], (&dW[0][0])[i]);
  double hs0 = mx(&ddW[0][0][0][0],81);
  for(int i=0;i<81;++i) CK(std::fabs((&ddW[0][0][0][0])[i]-(&K[0][0][0][0])[i]) <= 1e-9*hs0, "CST_Sensitivity: stiffness differs from the CST stiffness", "i=%d %.12g vs %.12g", i, (&K[0][0][0][0])[i], (&ddW[0][0][0][0])[i]);
  // stiffness: derivative of the residual
  EF f = [&](const double* y, double& w, double* g, double* H){
    double cc[3][3], k[3][3][3][3], rr[3][3], dd[3][3][3][3]; load3(y,3,cc);
    dfm2::WdWddW_CST_Sensitivity(k, rr, dd, lam, myu, C, cc);
    double a[3][3], b[3][3][3][3]; dfm2::WdWddW_CST(w, a, b, C, cc, lam, myu);
    for(int i=0;i<9;++i) g[i] = (&rr[0][0])[i]; plain<3,3>(k, H);
  };
  chk(ctx, "CST_Sensitivity", f, x, L, 1, true);
  std::vector<V> D, E;
  numdiff(9, [&](const double* y, double* o){ double C1[3][3]; load3(y,3,C1); double k[3][3][3][3], rr[3][3], dd[3][3][3][3]; dfm2::WdWddW_CST_Sensitivity(k, rr, dd, lam, myu, C1, c); for(int i=0;i<9;++i) o[i] = (&rr[0][0])[i]; }, Xw, L, D, E);
  double s = mx(&dRdC[0][0][0][0],81) + gs/L;
  for(int a=0;a<3;++a) for(int b=0;b<3;++b) for(int i=0;i<3;++i) for(int j=0;j<3;++j){
    double num = D[b*3+j][a*3+i], e = E[b*3+j][a*3+i];
    if(e > 1e-4*s) continue;
    ctx.count("sensitivity_entries");
    CK(std::fabs(num-dRdC[a][b][i][j]) <= 1e-6*s+10*e, "CST_Sensitivity: dRdC is not the derivative of the residual by the rest shape", "node %d dim %d by rest node %d dim %d: numeric=%.12g returned=%.12g", a,i,b,j,num,dRdC[a][b][i][j]);
  }
}

// ---------------------------------------------------------------- solids
static void hexRest(Rng& r, double P[8][3], double L){
  static const int o[8][3] = {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}};
  double ax[3] = {L*r.uni(0.6,1.4), L*r.uni(0.6,1.4), L*r.uni(0.6,1.4)}, jit = r.chance(0.3) ? 0 : 0.12*L;
  for(int i=0;i<8;++i) for(int d=0;d<3;++d) P[i][d] = o[i][d]*ax[d] + jit*r.uni(-1,1);
}
VH_FAMILY(solid_hyper_hex, 60, 600){
  Rng& r = ctx.rng; double L = pickL(ctx);
  double P[8][3]; hexRest(r, P, L);
  double c1 = r.uni(0.1,2), c2 = r.uni(0.1,2), kc = r.uni(0.1,3);
  unsigned ig = r.irange(0,2);
  bool comp = r.chance(0.5);
  double vol0 = 0;
  const char* nm = comp ? "Solid3Compression_Hex" : "MooneyRivlin_Hex";
  EF f = [&](const double* x, double& W, double* g, double* H){
    double u[8][3], dW[8][3], ddW[8][8][3][3]; for(int i=0;i<24;++i) (&u[0][0])[i] = x[i]-(&P[0][0])[i];
    W = 0; std::fill_n(&dW[0][0],24,0.0); std::fill_n(&ddW[0][0][0][0],576,0.0); double vol = 0;
    if(comp) dfm2::AddWdWddW_Solid3Compression_Hex(W,dW,ddW,vol,kc,P,u,ig);
    else dfm2::AddWdWddW_Solid3HyperMooneyrivlin2Reduced_Hex(W,dW,ddW,vol,c1,c2,P,u,ig);
    vol0 = vol;
    for(int i=0;i<24;++i) g[i] = (&dW[0][0])[i]; plain<8,3>(ddW, H);
  };
  V X(24); for(int i=0;i<24;++i) X[i] = (&P[0][0])[i];
  V x = r.chance(0.5) ? moved(rig(r), X) : X;
  for(double& v : x) v += 0.12*L*r.uni(-1,1);
  chk(ctx, nm, f, x, L, 2, true);
  chkRigid(ctx, nm, f, x, L);
  chkZero(ctx, nm, f, moved(rig(r), X), L*L*L*(c1+c2+kc), L*L*(c1+c2+kc));
  // volume: exact for the rest element when the rule integrates det J (degree 2 per axis) exactly
  if(ig >= 1){
    // oracle: trilinear hex volume by splitting faces (Grandy's formula)
    auto d3 = [&](const double* a, const double* b, const double* c){ return a[0]*(b[1]*c[2]-b[2]*c[1])-a[1]*(b[0]*c[2]-b[2]*c[0])+a[2]*(b[0]*c[1]-b[1]*c[0]); };
    // sum over gauss 3^3 of an independent jacobian
    const double gp[3] = {-std::sqrt(0.6),0,std::sqrt(0.6)}, gw[3] = {5/9.,8/9.,5/9.};
    static const int s[8][3] = {{-1,-1,-1},{1,-1,-1},{1,1,-1},{-1,1,-1},{-1,-1,1},{1,-1,1},{1,1,1},{-1,1,1}};
    double vo = 0;
    for(int a=0;a<3;++a) for(int b=0;b<3;++b) for(int c=0;c<3;++c){
      double q[3]={gp[a],gp[b],gp[c]}, J[3][3]={{0}};
      for(int n=0;n<8;++n) for(int d=0;d<3;++d){
        double dn = s[n][d]/8.; for(int e=0;e<3;++e) if(e!=d) dn *= 1+s[n][e]*q[e];
        for(int k=0;k<3;++k) J[d][k] += dn*P[n][k];
      }
      vo += gw[a]*gw[b]*gw[c]*d3(J[0],J[1],J[2]);
    }
    CK(std::fabs(vol0-vo) <= 1e-10*vo, "hex: reported volume is not the element volume", "got=%.15g expected=%.15g ig=%u", vol0, vo, ig);
  }
}

VH_FAMILY(mips, 300, 3000){
  Rng& r = ctx.rng; double L = pickL(ctx);
  double P[3][2], p2[3][2]; restTri(r, P, L); restTri(r, p2, L*r.uni(0.5,2));
  V X(9); for(int i=0;i<3;++i){ X[i*3]=P[i][0]; X[i*3+1]=P[i][1]; X[i*3+2]=0; }
  V x(9); for(int i=0;i<3;++i){ x[i*3]=p2[i][0]; x[i*3+1]=p2[i][1]; x[i*3+2]=0; }
  V X0 = moved(rig(r), X);  V x0 = moved(rig(r), x);
  double C[3][3]; load3(X0.data(),3,C);
  EF f = [&](const double* y, double& W, double* g, double* H){ double c[3][3], dE[3][3], ddE[3][3][3][3]; load3(y,3,c); dfm2::WdWddW_MIPS(W,dE,ddE,c,C); for(int i=0;i<9;++i) g[i]=(&dE[0][0])[i]; plain<3,3>(ddE,H); };
  chk(ctx, "MIPS", f, x0, L, 2, true);
  chkRigid(ctx, "MIPS", f, x0, L);
  // E = E_angle * E_area, E_angle = sum cot_i L_i^2 / (8 Area area), E_area = Area/area + area/Area (as documented in the source)
  auto formula = [&](const V& y){ double l[3], L2[3]; for(int i=0;i<3;++i){ int a=(i+1)%3,b=(i+2)%3; l[i]=L2[i]=0; for(int k=0;k<3;++k){ l[i]+=(y[a*3+k]-y[b*3+k])*(y[a*3+k]-y[b*3+k]); L2[i]+=(X[a*3+k]-X[b*3+k])*(X[a*3+k]-X[b*3+k]); } }
    auto ar=[](const double* q){ double s=q[0]+q[1]+q[2]; return 0.25*std::sqrt(std::max(0.0, s*s-2*(q[0]*q[0]+q[1]*q[1]+q[2]*q[2]))); };
    double a=ar(l), A=ar(L2), c=0; for(int i=0;i<3;++i) c+=(l[(i+1)%3]+l[(i+2)%3]-l[i])*L2[i];
    return std::array<double,2>{c/(8*A*a)*(A/a+a/A), a}; };
  V xr = moved(rig(r), X);
  for(int it=0;it<2;++it){ const V& y = it ? xr : x0;
    double W; V g(9), H(81); f(y.data(),W,g.data(),H.data()); auto o = formula(y);
    bool undivided = std::fabs(W-o[0]*o[1]) <= 1e-9*W;
    if(std::fabs(W-o[0]) <= 1e-9*W) ctx.count("mips_formula");
    else if(undivided) CK(false, "MIPS: energy leaves out the deformed area of its angle term", "W=%.12g formula=%.12g area=%.12g", W, o[0], o[1]);
    else CK(false, "MIPS: energy differs from its formula", "W=%.12g formula=%.12g area=%.12g", W, o[0], o[1]);
    if(it==1 && !undivided) CK(mx(g.data(),9)*L <= 1e-7*(std::fabs(W)+L*L*mx(H.data(),81)), "MIPS: undistorted triangle is not stationary", "|g|=%g W=%g", mx(g.data(),9), W);
  }
}

VH_FAMILY(springs, 400, 4000){
  Rng& r = ctx.rng; double L = pickL(ctx);
  double k = r.uni(0.1,5), len = L*r.uni(0.3,2);
  V x(6); do{ for(double& v : x) v = L*r.uni(-1,1); }while(std::hypot(std::hypot(x[0]-x[3],x[1]-x[4]),x[2]-x[5]) < 0.3*L);
  EF f = [&](const double* y, double& W, double* g, double* H){
    dfm2::CVec3d dw[2], p[2] = {dfm2::CVec3d(y), dfm2::CVec3d(y+3)}; dfm2::CMat3d dd[2][2];
    W = dfm2::WdWddW_SquareLengthLineseg3D(dw, dd, k, p, len);
    for(int a=0;a<2;++a) for(int i=0;i<3;++i){ g[a*3+i] = dw[a][i]; for(int b=0;b<2;++b) for(int j=0;j<3;++j) H[(a*3+i)*6+b*3+j] = dd[a][b](i,j); }
  };
  chk(ctx, "SquareLengthLineseg3D", f, x, L, 2, true);
  chkRigid(ctx, "SquareLengthLineseg3D", f, x, L);
  double l = std::sqrt((x[0]-x[3])*(x[0]-x[3])+(x[1]-x[4])*(x[1]-x[4])+(x[2]-x[5])*(x[2]-x[5]));
  V xr = x; for(int i=0;i<3;++i) xr[3+i] = x[i]+(x[3+i]-x[i])*len/l;
  chkZero(ctx, "SquareLengthLineseg3D", f, xr, k*L*L, k*L);
  EF fc = [&](const double* y, double& W, double* g, double*){ double p[2][3], dc[2][3]; load3(y,2,p); dfm2::CdC_SquareLengthLineseg3D<double>(W, dc, p, len); for(int i=0;i<6;++i) g[i]=(&dc[0][0])[i]; };
  chk(ctx, "CdC_SquareLengthLineseg3D", fc, x, L, 0, false); chkRigid(ctx, "CdC_SquareLengthLineseg3D", fc, x, L);
  { double W; V g(6), H(36); fc(xr.data(), W, g.data(), H.data()); CK(std::fabs(W) <= 1e-9*L, "CdC_SquareLengthLineseg3D: not zero at rest", "C=%g", W); }
}

// ---------------------------------------------------------------- bending
static void quad(Rng& r, double P[4][3], double L, bool flat){
  // hinge 2-3, wings 0 and 1
  double l = L*r.uni(0.6,1.4);
  double a[4][3] = {{l*r.uni(0,1), L*r.uni(0.4,1.2), 0},{l*r.uni(0,1), -L*r.uni(0.4,1.2), 0},{0,0,0},{l,0,0}};
  double th = flat ? 0 : r.uni(-1.5,1.5); double y = a[0][1]; a[0][1] = y*std::cos(th); a[0][2] = y*std::sin(th);
  V x(12); for(int i=0;i<12;++i) x[i] = (&a[0][0])[i]; x = moved(rig(r), x); for(int i=0;i<12;++i) (&P[0][0])[i] = x[i];
}
VH_FAMILY(bending, 300, 3000){
  Rng& r = ctx.rng; double L = pickL(ctx);
  bool flat = r.chance(0.6);
  double P[4][3], p[4][3]; quad(r, P, L, flat); quad(r, p, L, false);
  double k = r.uni(0.1,3);
  V X(12), x(12); for(int i=0;i<12;++i){ X[i]=(&P[0][0])[i]; x[i]=(&p[0][0])[i]; }
  EF f = [&](const double* y, double& W, double* g, double* H){ double c[4][3], dW[4][3], ddW[4][4][3][3]; load3(y,4,c); dfm2::WdWddW_Bend(W,dW,ddW,P,c,k); for(int i=0;i<12;++i) g[i]=(&dW[0][0])[i]; plain<4,3>(ddW,H); };
  chk(ctx, "Bend", f, x, L, 2, true);
  chkRigid(ctx, "Bend", f, x, L, true);
  double W0; V g0(12), H0(144); f(x.data(), W0, g0.data(), H0.data());
  if(flat) chkZero(ctx, "Bend", f, moved(rig(r), X), L*L*mx(H0.data(),144), L*mx(H0.data(),144));
  double Csum = 0;
  for(int d=0;d<3;++d){
    EF fc = [&](const double* y, double& W, double* g, double*){ double c[4][3], C[3], dd[3][4][3]; load3(y,4,c); dfm2::CdC_QuadBend(C,dd,P,c); W = C[d]; for(int i=0;i<12;++i) g[i] = (&dd[d][0][0])[i]; };
    chk(ctx, "QuadBend", fc, x, L, 0, false);
    double W; V g(12), H(144); fc(x.data(), W, g.data(), H.data()); Csum += W*W;
    V t = x; for(size_t i=0;i<12;i+=3) for(int j=0;j<3;++j) t[i+j] += 0.7*(j+1)*L;
    double Wt; fc(t.data(), Wt, g.data(), H.data());
    CK(std::fabs(W-Wt) <= 1e-9*(std::fabs(W)+L*mx(g.data(),12)), "QuadBend: changes under translation", "%g vs %g", W, Wt);
    if(flat){ V z = moved(rig(r), X); fc(z.data(), W, g.data(), H.data()); CK(std::fabs(W) <= 1e-9*L*mx(g.data(),12), "QuadBend: constraint not zero on the flat rest shape", "d=%d C=%g", d, W); }
  }
  { V y = moved(rig(r), x); double c[4][3], C[3], dd[3][4][3]; load3(y.data(),4,c); dfm2::CdC_QuadBend(C,dd,P,c); double s = C[0]*C[0]+C[1]*C[1]+C[2]*C[2];
    CK(std::fabs(s-Csum) <= 1e-9*(s+Csum)+1e-18, "QuadBend: magnitude changes under a rigid motion", "%.12g vs %.12g", s, Csum); }
  // sensitivity
  double K[4][4][3][3], R[4][3], dRdC[4][4][3][3];
  dfm2::WdWddW_QuadraticBending_Sensitivity(K,R,dRdC,P,p,k);
  double gs = mx(g0.data(),12)+0.1*L*mx(H0.data(),144);
  for(int i=0;i<12;++i) CK(std::fabs((&R[0][0])[i]-g0[i]) <= 1e-9*gs, "Bending_Sensitivity: residual differs from the bending gradient", "i=%d %.12g vs %.12g", i, (&R[0][0])[i], g0[i]);
  V Kp(144); plain<4,3>(K, Kp.data());
  for(int i=0;i<144;++i) CK(std::fabs(Kp[i]-H0[i]) <= 1e-9*mx(H0.data(),144), "Bending_Sensitivity: stiffness differs from the bending hessian", "i=%d %.12g vs %.12g", i, Kp[i], H0[i]);
  if(flat || r.chance(0.3)){
    // the shape derivative: rest shapes near a (flat or bent) quadrilateral, heights measured in each wing's plane
    std::vector<V> D, E;
    numdiff(12, [&](const double* y, double* o){ double C1[4][3]; load3(y,4,C1); double kk[4][4][3][3], rr[4][3], dd[4][4][3][3]; dfm2::WdWddW_QuadraticBending_Sensitivity(kk,rr,dd,C1,p,k); for(int i=0;i<12;++i) o[i]=(&rr[0][0])[i]; }, X, L, D, E);
    double s = mx(&dRdC[0][0][0][0],144)+gs/L;
    for(int a=0;a<4;++a) for(int b=0;b<4;++b) for(int i=0;i<3;++i) for(int j=0;j<3;++j){
      double num = D[b*3+j][a*3+i], e = E[b*3+j][a*3+i]; if(e > 1e-4*s) continue;
      ctx.count("sensitivity_entries");
      CK(std::fabs(num-dRdC[a][b][i][j]) <= 1e-6*s+10*e, "Bending_Sensitivity: dRdC is not the derivative of the residual by the rest shape", "node %d dim %d by rest node %d dim %d: numeric=%.12g returned=%.12g flat=%d", a,i,b,j,num,dRdC[a][b][i][j],(int)flat);
    }
  }
  // discrete shell
  EF fd = [&](const double* y, double& W, double* g, double*){ dfm2::CVec3d q[4] = {dfm2::CVec3d(y),dfm2::CVec3d(y+3),dfm2::CVec3d(y+6),dfm2::CVec3d(y+9)}, d[4]; dfm2::CdC_DiscreteShell<double>(W,d,q[0],q[1],q[2],q[3]); for(int a=0;a<4;++a) for(int i=0;i<3;++i) g[a*3+i]=d[a][i]; };
  chk(ctx, "DiscreteShell", fd, x, L, 0, false);
  chkRigid(ctx, "DiscreteShell", fd, x, L);
}

// ---------------------------------------------------------------- rods
VH_FAMILY(rod2, 300, 3000){
  Rng& r = ctx.rng; double L = pickL(ctx);
  double aL[2] = {L*r.uni(0.5,1.5), L*r.uni(0.5,1.5)}, k0 = r.uni(0.1,3), k1 = r.uni(0.1,3), kb = r.uni(0.1,3);
  double a0 = r.uni(-3.14,3.14), a1 = a0 + r.uni(-2.2,2.2), s0 = aL[0]*r.uni(0.7,1.4), s1 = aL[1]*r.uni(0.7,1.4);
  V x = {L*r.uni(-1,1), L*r.uni(-1,1), 0,0,0,0};
  x[2]=x[0]+s0*std::cos(a0); x[3]=x[1]+s0*std::sin(a0); x[4]=x[2]+s1*std::cos(a1); x[5]=x[3]+s1*std::sin(a1);
  EF f = [&](const double* y, double& W, double* g, double* H){ double p[3][2], dW[3][2], ddW[3][3][2][2]; for(int i=0;i<6;++i) (&p[0][0])[i]=y[i]; dfm2::WdWddW_Rod2(W,dW,ddW,p,aL,k0,k1,kb); for(int i=0;i<6;++i) g[i]=(&dW[0][0])[i]; plain<3,2>(ddW,H); };
  chk(ctx, "Rod2", f, x, L, 1, true);
  // rigid motion in the plane
  double W, W1; V g(6), H(36), g1(6); f(x.data(),W,g.data(),H.data());
  double th = r.uni(-3,3), c = std::cos(th), s = std::sin(th); V y(6); for(int i=0;i<3;++i){ y[i*2]=c*x[i*2]-s*x[i*2+1]+0.3*L; y[i*2+1]=s*x[i*2]+c*x[i*2+1]-0.8*L; }
  f(y.data(),W1,g1.data(),H.data());
  double gs = mx(g.data(),6)+0.1*L*mx(H.data(),36);
  CK(std::fabs(W-W1) <= 1e-9*(gs*L), "Rod2: energy changes under a rigid motion", "%.12g vs %.12g", W, W1);
  CK(std::fabs(g[0]+g[2]+g[4])+std::fabs(g[1]+g[3]+g[5]) <= 1e-9*gs, "Rod2: forces do not balance", "g=%s", str(g).c_str());
  V xr = x; xr[2]=xr[0]+aL[0]*std::cos(a0); xr[3]=xr[1]+aL[0]*std::sin(a0); xr[4]=xr[2]+aL[1]*std::cos(a0); xr[5]=xr[3]+aL[1]*std::sin(a0);
  chkZero(ctx, "Rod2", f, xr, L*L*(k0+k1)+kb, L*(k0+k1)+kb/L);
  // Gauss-Newton hessian is exact at rest
  chk(ctx, "Rod2 at rest", f, xr, L*0.3, 2, true);
}
VH_FAMILY(rod3_straight, 300, 3000){
  Rng& r = ctx.rng; double L = pickL(ctx);
  V x(9); 
  for(;;){
    for(double& v : x) v = L*r.uni(-1,1);
    dfm2::CVec3d a(x[3]-x[0],x[4]-x[1],x[5]-x[2]), b(x[6]-x[3],x[7]-x[4],x[8]-x[5]);
    if(a.norm() > 0.4*L && b.norm() > 0.4*L && a.dot(b) > -0.5*a.norm()*b.norm()) break;
  }
  EF f = [&](const double* y, double& W, double* g, double* H){ dfm2::CVec3d p[3]={dfm2::CVec3d(y),dfm2::CVec3d(y+3),dfm2::CVec3d(y+6)}, d[3]; dfm2::CMat3d dd[3][3]; W = dfm2::WdWddW_Rod3BendStraight(d,dd,p);
    for(int a=0;a<3;++a) for(int i=0;i<3;++i){ g[a*3+i]=d[a][i]; for(int b=0;b<3;++b) for(int j=0;j<3;++j) H[(a*3+i)*9+b*3+j]=dd[a][b](i,j); } };
  chk(ctx, "Rod3BendStraight", f, x, L, 2, true); chkRigid(ctx, "Rod3BendStraight", f, x, L);
  V xr = x; double s = r.uni(0.5,2); for(int i=0;i<3;++i) xr[6+i] = x[3+i]+s*(x[3+i]-x[i]);
  chkZero(ctx, "Rod3BendStraight", f, xr, 1, 1/L);
  double Wc = 0;
  for(int k=0;k<3;++k){
    EF fc = [&](const double* y, double& W, double* g, double*){ double p[3][3], C[3], d[3][3][3]; load3(y,3,p); dfm2::CdC_Rod3BendStraight<double>(C,d,p); W=C[k]; for(int i=0;i<9;++i) g[i]=(&d[k][0][0])[i]; };
    chk(ctx, "CdC_Rod3BendStraight", fc, x, L, 0, false);
    double W; V g(9), H(81); fc(x.data(),W,g.data(),H.data()); Wc += 0.5*W*W;
  }
  double W; V g(9), H(81); f(x.data(),W,g.data(),H.data());
  CK(std::fabs(W-Wc) <= 1e-10*(W+1e-12), "Rod3BendStraight: energy is not half the squared constraint", "%.12g vs %.12g", W, Wc);
}
// frame-based rod: unknowns are 3 positions and 2 twists about the base configuration
VH_FAMILY_CPU(rod3_darboux, 120, 1500, 60){
  Rng& r = ctx.rng; double L = pickL(ctx);
  dfm2::CVec3d P[3], S[2];
  for(;;){
    for(auto& p : P) p = dfm2::CVec3d(L*r.uni(-1,1),L*r.uni(-1,1),L*r.uni(-1,1));
    dfm2::CVec3d u0 = P[1]-P[0], u1 = P[2]-P[1];
    if(u0.norm() < 0.4*L || u1.norm() < 0.4*L) continue;
    u0.normalize(); u1.normalize();
    if(u0.dot(u1) < -0.2) continue;
    S[0] = dfm2::CVec3d(r.gauss(),r.gauss(),r.gauss()); S[0] -= S[0].dot(u0)*u0; if(S[0].norm() < 0.2) continue; S[0].normalize();
    S[1] = r.chance(0.5) ? dfm2::CVec3d(r.gauss(),r.gauss(),r.gauss()) : S[0]+0.3*dfm2::CVec3d(r.gauss(),r.gauss(),r.gauss());
    S[1] -= S[1].dot(u1)*u1; if(S[1].norm() < 0.2) continue; S[1].normalize();
    dfm2::CVec3d t0 = u0.cross(S[0]), t1 = u1.cross(S[1]);
    if(1+S[0].dot(S[1])+t0.dot(t1)+u0.dot(u1) > 0.5) break;
  }
  const double stiff[3] = {r.uni(0.2,3), r.uni(0.2,3), r.uni(0.2,3)};
  dfm2::CVec3d d0(r.uni(-1,1), r.uni(-1,1), r.uni(-1,1));
  auto chart = [&](const double* y, dfm2::CVec3d p[3], dfm2::CVec3d s[2]){
    dfm2::CVec3d dP[3] = {dfm2::CVec3d(y),dfm2::CVec3d(y+3),dfm2::CVec3d(y+6)}, fr[3];
    for(int i=0;i<3;++i) p[i] = P[i]+dP[i];
    dfm2::RodFrameTrans(fr, S[0], P[1]-P[0], dP[1]-dP[0], y[9]); s[0] = fr[0];
    dfm2::RodFrameTrans(fr, S[1], P[2]-P[1], dP[2]-dP[1], y[10]); s[1] = fr[0];
  };
  // oracle for the discrete Darboux vector: 2*... evaluated from the frames (axis of F^T G)
  auto darboux = [&](const dfm2::CVec3d p[3], const dfm2::CVec3d s[2], double C[3]){
    dfm2::CVec3d F[3], G[3]; F[2]=(p[1]-p[0]).normalized(); F[0]=s[0]; F[1]=F[2].cross(F[0]); G[2]=(p[2]-p[1]).normalized(); G[0]=s[1]; G[1]=G[2].cross(G[0]);
    double Y = 1+F[0].dot(G[0])+F[1].dot(G[1])+F[2].dot(G[2]);
    for(int i=0;i<3;++i){ int j=(i+1)%3,k=(i+2)%3; C[i] = (F[j].dot(G[k])-F[k].dot(G[j]))/Y; }
  };
  const char* nm[3] = {"Rod3Exact","Rod3Approx","HairApprox"};
  double Wn[3];
  for(int kind=0;kind<3;++kind){
    auto eval = [&](const dfm2::CVec3d p[3], const dfm2::CVec3d s[2], double* g, double* H)->double{
      if(kind==2){
        double dW[3][4], ddW[3][3][4][4]; double w = dfm2::WdWddW_HairApprox(dW,ddW,stiff,p,s,d0);
        auto id = [](int n,int d){ return d<3 ? n*3+d : 9+n; };
        for(int a=0;a<3;++a) for(int i=0;i<4;++i){ if(a==2&&i==3) continue; g[id(a,i)]=dW[a][i]; for(int b=0;b<3;++b) for(int j=0;j<4;++j){ if(b==2&&j==3) continue; H[id(a,i)*11+id(b,j)] = ddW[a][b][i][j]; } }
        for(int b=0;b<3;++b) for(int j=0;j<4;++j) CK(ddW[2][b][3][j]==0 && ddW[b][2][j][3]==0, "HairApprox: unused twist slot of the last vertex is not zero", "b=%d j=%d %g %g", b, j, ddW[2][b][3][j], ddW[b][2][j][3]);
        return w;
      }
      dfm2::CVec3d dP[3], dtdP[2][3]; double dt[2], ddt[2][2]; dfm2::CMat3d ddP[3][3];
      double w = kind==0 ? dfm2::WdWddW_Rod3Exact(dP,dt,ddP,dtdP,ddt,stiff,p,s,d0) : dfm2::WdWddW_Rod3Approx(dP,dt,ddP,dtdP,ddt,stiff,p,s,d0);
      for(int a=0;a<3;++a) for(int i=0;i<3;++i){ g[a*3+i]=dP[a][i]; for(int b=0;b<3;++b) for(int j=0;j<3;++j) H[(a*3+i)*11+b*3+j]=ddP[a][b](i,j); for(int e=0;e<2;++e) H[(a*3+i)*11+9+e]=H[(9+e)*11+a*3+i]=dtdP[e][a][i]; }
      for(int e=0;e<2;++e){ g[9+e]=dt[e]; for(int h=0;h<2;++h) H[(9+e)*11+9+h]=ddt[e][h]; }
      return w;
    };
    V g(11), H(121,0.0); double W = eval(P,S,g.data(),H.data()); Wn[kind] = W;
    double C[3]; darboux(P,S,C); double Wo = 0; for(int i=0;i<3;++i) Wo += 0.5*stiff[i]*(C[i]-d0[i])*(C[i]-d0[i]);
    CK(std::fabs(W-Wo) <= 1e-9*(Wo+1e-6), fmt("%s: energy is not the weighted squared Darboux difference", nm[kind]), "%.12g vs %.12g", W, Wo);
    // gradient / hessian with twists non-dimensionalised to lengths through L
    auto Wf = [&](const V& z){ V y = z; for(int i=0;i<9;++i) y[i]*=L; dfm2::CVec3d p[3], s[2]; chart(y.data(),p,s); double c[3]; darboux(p,s,c); double w=0; for(int i=0;i<3;++i) w += 0.5*stiff[i]*(c[i]-d0[i])*(c[i]-d0[i]); return w; };
    for(int i=0;i<9;++i){ g[i]*=L; for(int j=0;j<11;++j){ H[i*11+j]*=L; H[j*11+i]*=L; } }
    double gs = mx(g.data(),11)+0.1*mx(H.data(),121), hs = mx(H.data(),121)+mx(g.data(),11);
    for(int i=0;i<11;++i){
      V z(11,0.0); double d[2];
      for(int k=0;k<2;++k){ double h = k?1e-3:4e-3; double f1,f2,f3,f4; z[i]=h; f1=Wf(z); z[i]=-h; f2=Wf(z); z[i]=2*h; f3=Wf(z); z[i]=-2*h; f4=Wf(z); d[k]=(8*(f1-f2)-(f3-f4))/(12*h); }
      if(std::fabs(d[0]-d[1]) > 1e-4*gs){ ctx.count("rough_entries"); continue; }
      ctx.count("gradient_entries");
      CK(std::fabs(d[1]-g[i]) <= 5e-7*gs+10*std::fabs(d[0]-d[1]), fmt("%s: gradient is not the derivative of the energy", nm[kind]), "i=%d numeric=%.10g returned=%.10g", i, d[1], g[i]);
    }
    if(kind!=0) for(int i=0;i<11;++i) for(int j=0;j<i;++j) CK(std::fabs(H[i*11+j]-H[j*11+i]) <= 1e-9*hs, fmt("%s: hessian not symmetric", nm[kind]), "(%d,%d) %.12g %.12g", i,j,H[i*11+j],H[j*11+i]);
    // the frames are carried along with the positions (a curved configuration space), so the exact hessian is the derivative
    // of the returned gradient, and its symmetric part is the second derivative of the energy along the frame transport
    if(kind==0){
      std::vector<V> D, E;
      numdiff(11, [&](const double* z, double* o){ V y(z,z+11); for(int i=0;i<9;++i) y[i]*=L; dfm2::CVec3d p[3], s[2]; chart(y.data(),p,s); V gg(11), hh(121); eval(p,s,gg.data(),hh.data()); for(int i=0;i<11;++i) o[i]=gg[i]*(i<9?L:1); }, V(11,0.0), 1.0, D, E);
      for(int i=0;i<11;++i) for(int j=0;j<11;++j){ if(E[j][i] > 1e-4*hs){ ctx.count("rough_entries"); continue; } ctx.count("hessian_entries");
        CK(std::fabs(D[j][i]-H[i*11+j]) <= 5e-7*hs+10*E[j][i], fmt("%s: hessian is not the derivative of the gradient", nm[kind]), "(%d,%d) numeric=%.10g returned=%.10g scale=%g", i,j,D[j][i],H[i*11+j],hs); }
    }
    if(kind==0) for(int i=0;i<11;++i) for(int j=0;j<=i;++j){
      double d[2];
      for(int k=0;k<2;++k){
        auto sec = [&](double h){ V z(11,0.0); if(i==j){ z[i]=h; double a=Wf(z); z[i]=-h; double b=Wf(z); z[i]=0; return (a+b-2*Wf(z))/(h*h);} 
          double s = 0; for(int u=-1;u<=1;u+=2) for(int v=-1;v<=1;v+=2){ z[i]=u*h; z[j]=v*h; s += u*v*Wf(z);} return s/(4*h*h); };
        double h = k?6e-3:1.2e-2; d[k] = (4*sec(h/2)-sec(h))/3;
      }
      double e = std::fabs(d[0]-d[1]);
      if(e > 1e-3*hs){ ctx.count("rough_entries"); continue; }
      ctx.count("hessian_entries");
      CK(std::fabs(d[1]-0.5*(H[i*11+j]+H[j*11+i])) <= 1e-6*hs+10*e, fmt("%s: hessian is not the second derivative of the energy", nm[kind]), "(%d,%d) numeric=%.10g returned=%.10g scale=%g", i,j,d[1],H[i*11+j],hs);
    }
    if(kind!=0) CK(isPSD(H,11,1e-8*hs), fmt("%s: approximate hessian is not positive semidefinite", nm[kind]), "scale %g", hs);
    dfm2::CVec3d F(0,0,0); for(int a=0;a<3;++a) F += dfm2::CVec3d(g[a*3],g[a*3+1],g[a*3+2]); CK(F.norm() <= 1e-9*gs, fmt("%s: forces do not balance", nm[kind]), "%g", F.norm());
    // moments: forces plus twist torques about the segments (minimal rotation frames)
    { Rig q = rig(r); V xp(9), xs(6); for(int a=0;a<3;++a) for(int i=0;i<3;++i) xp[a*3+i]=P[a][i]; for(int a=0;a<2;++a) for(int i=0;i<3;++i) xs[a*3+i]=S[a][i];
      V yp = moved(q,xp), ys = moved(q,xs,false); dfm2::CVec3d p[3]={dfm2::CVec3d(&yp[0]),dfm2::CVec3d(&yp[3]),dfm2::CVec3d(&yp[6])}, s[2]={dfm2::CVec3d(&ys[0]),dfm2::CVec3d(&ys[3])};
      V g2(11), H2(121,0.0); double w2 = eval(p,s,g2.data(),H2.data());
      CK(std::fabs(W-w2) <= 1e-9*(W+gs), fmt("%s: energy changes under a rigid motion", nm[kind]), "%.12g vs %.12g", W, w2);
      V gr = moved(q, V(g.begin(),g.begin()+9), false); for(int i=0;i<9;++i) CK(std::fabs(gr[i]-g2[i]*L) <= 1e-8*gs, fmt("%s: force does not rotate with the body", nm[kind]), "i=%d %.12g vs %.12g", i, gr[i], g2[i]*L);
      ctx.count("rigid_motion_checks"); }
    // at the rest Darboux vector energy and force vanish
    { dfm2::CVec3d keep = d0; d0 = dfm2::Darboux_Rod(P,S); V g2(11), H2(121,0.0); double w2 = eval(P,S,g2.data(),H2.data()); CK(w2 <= 1e-16 && mx(g2.data(),11) <= 1e-7*(1+1/L), fmt("%s: rest state has energy or force", nm[kind]), "W=%g g=%g", w2, mx(g2.data(),11)); d0 = keep; ctx.count("rest_states"); }
  }
  CKN(Wn[0], Wn[1], 1e-9*(1+Wn[0]), "Rod3Exact and Rod3Approx report different energies", "%g %g", Wn[0], Wn[1]);
  // dot-frame potential
  {
    const double off[3] = {r.uni(-1,1), r.uni(-1,1), r.uni(-1,1)};
    auto eval = [&](const dfm2::CVec3d p[3], const dfm2::CVec3d s[2], double* g, double* H)->double{
      dfm2::CVec3d dP[3], dtdP[2][3]; double dt[2], ddt[2][2]; dfm2::CMat3d ddP[3][3];
      double w = dfm2::WdWddW_DotFrame(dP,dt,ddP,dtdP,ddt,p,s,off);
      for(int a=0;a<3;++a) for(int i=0;i<3;++i){ g[a*3+i]=dP[a][i]; for(int b=0;b<3;++b) for(int j=0;j<3;++j) H[(a*3+i)*11+b*3+j]=ddP[a][b](i,j); for(int e=0;e<2;++e) H[(a*3+i)*11+9+e]=H[(9+e)*11+a*3+i]=dtdP[e][a][i]; }
      for(int e=0;e<2;++e){ g[9+e]=dt[e]; for(int h=0;h<2;++h) H[(9+e)*11+9+h]=ddt[e][h]; }
      return w; };
    V g(11), H(121,0.0); eval(P,S,g.data(),H.data());
    for(int i=0;i<9;++i){ g[i]*=L; for(int j=0;j<11;++j){ H[i*11+j]*=L; H[j*11+i]*=L; } }
    double gs = mx(g.data(),11)+0.1*mx(H.data(),121), hs = mx(H.data(),121)+mx(g.data(),11);
    auto Wf = [&](const V& z){ V y=z; for(int i=0;i<9;++i) y[i]*=L; dfm2::CVec3d p[3], s[2]; chart(y.data(),p,s); V a(11), b(121); return eval(p,s,a.data(),b.data()); };
    for(int i=0;i<11;++i){
      V z(11,0.0); double d[2];
      for(int k=0;k<2;++k){ double h = k?1e-3:4e-3; double f1,f2,f3,f4; z[i]=h; f1=Wf(z); z[i]=-h; f2=Wf(z); z[i]=2*h; f3=Wf(z); z[i]=-2*h; f4=Wf(z); d[k]=(8*(f1-f2)-(f3-f4))/(12*h); }
      CK(std::fabs(d[1]-g[i]) <= 5e-7*gs+10*std::fabs(d[0]-d[1]), "DotFrame: gradient is not the derivative of the energy", "i=%d numeric=%.10g returned=%.10g", i, d[1], g[i]);
      for(int j=0;j<=i;++j){
        double dd[2];
        for(int k=0;k<2;++k){ auto sec=[&](double h){ V y(11,0.0); if(i==j){ y[i]=h; double a=Wf(y); y[i]=-h; double b=Wf(y); y[i]=0; return (a+b-2*Wf(y))/(h*h);} double s=0; for(int u=-1;u<=1;u+=2) for(int v=-1;v<=1;v+=2){ y[i]=u*h; y[j]=v*h; s+=u*v*Wf(y);} return s/(4*h*h); }; double h=k?6e-3:1.2e-2; dd[k]=(4*sec(h/2)-sec(h))/3; }
        double e = std::fabs(dd[0]-dd[1]); if(e > 1e-3*hs) continue;
        ctx.count("hessian_entries");
        CK(std::fabs(dd[1]-0.5*(H[i*11+j]+H[j*11+i])) <= 1e-6*hs+10*e, "DotFrame: hessian is not the second derivative of the energy", "(%d,%d) numeric=%.10g returned=%.10g", i,j,dd[1],H[i*11+j]);
      }
    }
  }
  ctx.sig(Hash().d(P[0].x).d(P[1].y).d(S[0].z).h);
}

// ---------------------------------------------------------------- invertible FEM
VH_FAMILY(invertible_fem, 200, 2000){
  Rng& r = ctx.rng; double L = pickL(ctx);
  double P[4][3]; restTet(r, P, L);
  V X(12); for(int i=0;i<12;++i) X[i]=(&P[0][0])[i];
  V x = moved(rig(r), X); for(double& v : x) v += 0.25*L*r.uni(-1,1);
  if(r.chance(0.3)) for(int i=2;i<12;i+=3) x[i] = -x[i];   // inverted element
  int model = r.irange(0,2);
  double mu = r.uni(0.3,2), la = r.uni(0.3,2);
  std::function<double(double[3],double[3][3],double,double,double)> nh = [&](double d[3], double dd[3][3], double a, double b, double c)->double{
    double l[3]={a,b,c}; for(int i=0;i<3;++i) for(int j=0;j<3;++j) dd[i][j]=0;
    if(model==0){ double w=0; for(int i=0;i<3;++i){ d[i]=mu*(l[i]-1); dd[i][i]=mu; w+=0.5*mu*(l[i]-1)*(l[i]-1);} return w; }
    if(model==1){ double s=a+b+c-3, w=0.5*la*s*s; for(int i=0;i<3;++i){ d[i]=mu*(l[i]-1)+la*s; w+=0.5*mu*(l[i]-1)*(l[i]-1); for(int j=0;j<3;++j) dd[i][j]=la+(i==j?mu:0);} return w; }
    double J=a*b*c, w=0.5*la*(J-1)*(J-1); double dj[3]={b*c,c*a,a*b};
    for(int i=0;i<3;++i){ w+=0.5*mu*(l[i]*l[i]-1)*(l[i]*l[i]-1); d[i]=2*mu*(l[i]*l[i]-1)*l[i]+la*(J-1)*dj[i]; for(int j=0;j<3;++j) dd[i][j]=la*dj[i]*dj[j]+(i==j?mu*(6*l[i]*l[i]-2):la*(J-1)*l[3-i-j]); }
    return w; };
  EF f = [&](const double* y, double& W, double* g, double* H){ double p[4][3], dW[4][3], ddW[4][4][3][3]; load3(y,4,p); W = dfm2::WdWddW_InvertibleFEM(dW,ddW,P,p,nh); for(int i=0;i<12;++i) g[i]=(&dW[0][0])[i]; plain<4,3>(ddW,H); };
  // singular values must be separated (the differential of the SVD divides by their differences)
  dfm2::CMat3d F = dfm2::DeformationGradientOfTet(dfm2::CVec3d(P[0]),dfm2::CVec3d(P[1]),dfm2::CVec3d(P[2]),dfm2::CVec3d(P[3]),dfm2::CVec3d(&x[0]),dfm2::CVec3d(&x[3]),dfm2::CVec3d(&x[6]),dfm2::CVec3d(&x[9]));
  auto [U,Sg,Vv] = dfm2::Svd3<dfm2::CMat3d>(F,30); double s[3]={Sg(0,0),Sg(1,1),Sg(2,2)};
  double sep=1e9; for(int i=0;i<3;++i) for(int j=0;j<i;++j) sep=std::min(sep,std::min(std::fabs(s[i]-s[j]),std::fabs(s[i]+s[j])));
  if(sep < 0.05){ ctx.count("close_singular_values"); return; }
  chk(ctx, "InvertibleFEM", f, x, L*std::min(1.0,sep), 2, true);
  chkRigid(ctx, "InvertibleFEM", f, x, L);
  if(F.determinant() < 0) ctx.count("inverted_elements");
}

// ---------------------------------------------------------------- contact, ARAP
struct SphereC : public dfm2::CInput_Contact { double R; dfm2::CVec3d c; double penetrationNormal(double& a,double& b,double& d,double x,double y,double z) const override { dfm2::CVec3d v(x-c.x,y-c.y,z-c.z); double l=v.norm(); a=v.x/l;b=v.y/l;d=v.z/l; return R-l; } };
VH_FAMILY(contact, 300, 3000){
  Rng& r = ctx.rng; double L = pickL(ctx);
  SphereC s; s.R = L*r.uni(0.5,1.5); s.c = dfm2::CVec3d(L*r.uni(-1,1),L*r.uni(-1,1),L*r.uni(-1,1));
  double k = r.uni(0.1,5), cl = L*r.uni(0,0.2);
  dfm2::CVec3d n(r.gauss(),r.gauss(),r.gauss()); n.normalize(); double d = s.R*r.uni(0.3,1.5); if(std::fabs(d-s.R-cl) < 0.02*L) d = s.R+cl+0.1*L;
  dfm2::CVec3d p = s.c+n*d; V x={p.x,p.y,p.z};
  EF f = [&](const double* y, double& W, double* g, double* H){ double dd[3][3]; dfm2::WdWddW_Contact(W,g,dd,y,k,cl,s); for(int i=0;i<9;++i) H[i]=(&dd[0][0])[i]; };
  chk(ctx, "Contact", f, x, 0.3*L, 1, true);
  double W; V g(3), H(9); f(x.data(),W,g.data(),H.data());
  if(d > s.R+cl){ CK(W==0 && mx(g.data(),3)==0 && mx(H.data(),9)==0, "Contact: separated point feels a force", "d=%g R=%g cl=%g W=%g", d, s.R, cl, W); ctx.count("contact_separated"); }
  else { CK(W > 0 && -(g[0]*n.x+g[1]*n.y+g[2]*n.z) > 0, "Contact: force does not push a penetrating point outwards", "W=%g", W); ctx.count("contact_penetrating"); CK(isPSD(H,3,1e-9*k), "Contact: hessian not positive semidefinite", "k=%g", k); }
}
VH_FAMILY(arap_energy, 150, 1500){
  Rng& r = ctx.rng; double L = pickL(ctx);
  int nx = r.irange(2,4), ny = r.irange(2,4); int np=(nx+1)*(ny+1);
  std::vector<unsigned> tri; V X;
  for(int j=0;j<=ny;++j) for(int i=0;i<=nx;++i){ X.push_back(L*(i+0.2*r.uni(-1,1))); X.push_back(L*(j+0.2*r.uni(-1,1))); X.push_back(L*0.3*r.uni(-1,1)); }
  for(int j=0;j<ny;++j) for(int i=0;i<nx;++i){ unsigned a=j*(nx+1)+i,b=a+1,c=a+nx+1,d=c+1; for(unsigned v : {a,b,d,a,d,c}) tri.push_back(v); }
  std::vector<unsigned> pi, ps; dfm2::JArray_PSuP_MeshElem(pi,ps,tri.data(),tri.size()/3,3,np);
  V x(X.size()), Q(np*4); for(size_t i=0;i<X.size();++i) x[i]=X[i]+0.3*L*r.uni(-1,1);
  for(int i=0;i<np;++i){ double s=0; for(int k=0;k<4;++k){ Q[i*4+k]=r.gauss(); s+=Q[i*4+k]*Q[i*4+k]; } for(int k=0;k<4;++k) Q[i*4+k]/=std::sqrt(s); }
  EF f = [&](const double* y, double& W, double* g, double*){ V yy(y,y+X.size()), res; W = dfm2::W_ArapEnergy(X,yy,Q,pi,ps); dfm2::dW_ArapEnergy(res,X,yy,Q,pi,ps); for(size_t i=0;i<res.size();++i) g[i]=res[i]; };
  chk(ctx, "ArapEnergy", f, x, L, 0, true);
  // rest state: one rotation everywhere and the rigidly moved mesh
  double th=r.uni(-3,3); dfm2::CVec3d ax(r.gauss(),r.gauss(),r.gauss()); ax.normalize();
  dfm2::CQuatd q(std::sin(th/2)*ax.x,std::sin(th/2)*ax.y,std::sin(th/2)*ax.z,std::cos(th/2));
  V Q2(np*4), x2(X.size()); for(int i=0;i<np;++i){ q.CopyTo(&Q2[i*4]); dfm2::CVec3d v = q.RotateVector(dfm2::CVec3d(&X[i*3])); for(int k=0;k<3;++k) x2[i*3+k]=v[k]+0.5*k*L; }
  double W=dfm2::W_ArapEnergy(X,x2,Q2,pi,ps); V res; dfm2::dW_ArapEnergy(res,X,x2,Q2,pi,ps);
  CK(W <= 1e-14*L*L*np*10, "ArapEnergy: rigid motion has energy", "W=%g", W); CK(mx(res.data(),res.size()) <= 1e-11*L*10, "ArapEnergy: rigid motion has force", "%g", mx(res.data(),res.size()));
  // cell hessian at the rigid state, rotation eliminated: compare with numeric second derivative of min_R cell energy
  int ip = r.irange(0,np-1);
  std::vector<unsigned> aIP; for(unsigned k=pi[ip];k<pi[ip+1];++k) aIP.push_back(ps[k]); aIP.push_back(ip);
  int n = aIP.size();
  if(n >= 4){
    V eM; dfm2::ddW_ArapEnergy(eM, aIP, X, Q2);
    CK(eM.size()==(size_t)n*n*9, "ddW_ArapEnergy: wrong size", "%zu", eM.size());
    V H(n*3*n*3); for(int a=0;a<n;++a) for(int b=0;b<n;++b) for(int i=0;i<3;++i) for(int j=0;j<3;++j) H[(a*3+i)*n*3+b*3+j]=eM[(a*n+b)*9+i*3+j];
    double hm=mx(H.data(),H.size());
    bool sym=true; for(int i=0;i<n*3;++i) for(int j=0;j<i;++j) sym &= std::fabs(H[i*n*3+j]-H[j*n*3+i]) <= 1e-9*hm;
    CK(sym, "ddW_ArapEnergy: not symmetric", "n=%d", n);
    CK(isPSD(H,n*3,1e-8*hm), "ddW_ArapEnergy: not positive semidefinite", "n=%d", n);
    for(int d=0;d<6;++d){ // rigid motions of the moved cell are in the null space
      V u(n*3); for(int a=0;a<n;++a){ dfm2::CVec3d v(&x2[aIP[a]*3]); dfm2::CVec3d e(d%3==0,d%3==1,d%3==2); dfm2::CVec3d w = d<3 ? e : e.cross(v)*(1/L); for(int k=0;k<3;++k) u[a*3+k]=w[k]; }
      double m=0, um=mx(u.data(),u.size()); for(int i=0;i<n*3;++i){ double s=0; for(int j=0;j<n*3;++j) s+=H[i*n*3+j]*u[j]; m=std::max(m,std::fabs(s)); }
      CK(m <= 1e-8*hm*um*n, "ddW_ArapEnergy: rigid motion is not in the null space", "mode %d: %g", d, m);
    }
    // non-rotational perturbation energy: quadratic form equals min over small rotations of the linearised cell energy
    V u(n*3); for(double& v : u) v=r.uni(-1,1);
    // linear least squares over omega: sum |(uj-ui) - w x dj|^2, dj = R d0
    double A[3][3]={{0}}, b[3]={0,0,0}, c=0;
    for(int a=0;a+1<n;++a){ dfm2::CVec3d dj=dfm2::CVec3d(&x2[aIP[a]*3])-dfm2::CVec3d(&x2[ip*3]); dfm2::CVec3d e(u[a*3]-u[(n-1)*3],u[a*3+1]-u[(n-1)*3+1],u[a*3+2]-u[(n-1)*3+2]); c+=e.squaredNorm(); dfm2::CVec3d m=dj.cross(e); for(int i=0;i<3;++i){ b[i]+=m[i]; for(int k=0;k<3;++k) A[i][k]+=(i==k?dj.squaredNorm():0)-dj[i]*dj[k]; } }
    double det=A[0][0]*(A[1][1]*A[2][2]-A[1][2]*A[2][1])-A[0][1]*(A[1][0]*A[2][2]-A[1][2]*A[2][0])+A[0][2]*(A[1][0]*A[2][1]-A[1][1]*A[2][0]);
    if(det > 1e-3*std::pow(L,6)){
      double w[3]; for(int i=0;i<3;++i){ int j=(i+1)%3,k=(i+2)%3; w[i]=0; for(int l=0;l<3;++l){ double cof=A[(l+1)%3][j]*A[(l+2)%3][k]-A[(l+1)%3][k]*A[(l+2)%3][j]; w[i]+=cof*b[l]/det; } }
      double e = c-(w[0]*b[0]+w[1]*b[1]+w[2]*b[2]), qf=0; for(int i=0;i<n*3;++i) for(int j=0;j<n*3;++j) qf+=u[i]*H[i*n*3+j]*u[j];
      CK(std::fabs(qf-e) <= 1e-8*(c+1), "ddW_ArapEnergy: quadratic form is not the second variation of the cell energy", "got=%.12g expected=%.12g", qf, e);
      ctx.count("arap_cells");
    }
  }
}

// ---------------------------------------------------------------- plates, beams, linear solids
VH_FAMILY(plates_beams, 250, 2500){
  Rng& r = ctx.rng; double L = pickL(ctx);
  double C[3][2]; restTri(r,C,L);
  { // MITC3
    double thk=L*r.uni(0.05,0.3), la=r.uni(0,2), mu=r.uni(0.2,2);
    // unknowns w, rx, ry ; rotations scaled by 1/L to make them lengths
    EF f = [&](const double* y, double& W, double* g, double* H){ double u[3][3], d[3][3], dd[3][3][3][3]; for(int a=0;a<3;++a){ u[a][0]=y[a*3]; u[a][1]=y[a*3+1]/L; u[a][2]=y[a*3+2]/L; }
      W=0; std::fill_n(&d[0][0],9,0.0); std::fill_n(&dd[0][0][0][0],81,0.0); dfm2::WdWddW_PlateBendingMITC3(W,d,dd,C,u,thk,la,mu);
      for(int a=0;a<3;++a) for(int i=0;i<3;++i){ double s=i?1/L:1; g[a*3+i]=d[a][i]*s; for(int b=0;b<3;++b) for(int j=0;j<3;++j) H[(a*3+i)*9+b*3+j]=dd[a][b][i][j]*s*(j?1/L:1); } };
    V x(9); for(double& v : x) v=L*r.uni(-1,1);
    chk(ctx,"MITC3",f,x,L,2,true);
    // rigid motions: translation, and rotation w = -rx*y ... (sign found from shear-free condition): w = a + b x + c y, ry=-b, rx=c
    double a=L*r.uni(-1,1), b=r.uni(-1,1), c=r.uni(-1,1); V z(9); for(int i=0;i<3;++i){ z[i*3]=a+b*C[i][0]+c*C[i][1]; z[i*3+1]=c*L; z[i*3+2]=-b*L; }
    double W; V g(9),H(81); f(z.data(),W,g.data(),H.data()); CK(std::fabs(W) <= 1e-9*mx(H.data(),81)*L*L && mx(g.data(),9) <= 1e-8*mx(H.data(),81)*L, "MITC3: rigid motion has energy or force", "W=%g |g|=%g hs=%g", W, mx(g.data(),9), mx(H.data(),81));
    CK(isPSD(H,9,1e-8*mx(H.data(),81)), "MITC3: hessian not positive semidefinite", "%g", 0.0);
    { // constant curvature and uniform transverse shear: the energy knows neither the shape of the triangle nor the numbering of its nodes
      double A=tri2(C[0],C[1],C[2]), kx=r.uni(-1,1)/L, ky=r.uni(-1,1)/L, kxy=r.uni(-1,1)/L; auto en=[&](const double c_[3][2], double u[3][3], double t){ double w=0, d[3][3]={}, dd[3][3][3][3]={}; dfm2::WdWddW_PlateBendingMITC3(w,d,dd,c_,u,t,la,mu); return w; };
      double u[3][3]; for(int i=0;i<3;++i){ double x=C[i][0], y=C[i][1]; u[i][0]=a+b*x+c*y+0.5*(kx*x*x+ky*y*y)+kxy*x*y; u[i][1]=c+ky*y+kxy*x; u[i][2]=-b-kx*x-kxy*y; }
      double Wb=en(C,u,thk), Wo=A*thk*thk*thk/24*(la*(kx+ky)*(kx+ky)+2*mu*(kx*kx+ky*ky+2*kxy*kxy)); double cond=mx(H.data(),81)*L*L;
      CK(std::fabs(Wb-Wo) <= 1e-9*Wo+1e-12*cond, "MITC3: constant curvature is not reproduced", "energy=%.12g expected=%.12g", Wb, Wo);
      double gx=r.uni(-1,1), gy=r.uni(-1,1), U[3][2]={{0,0},{1,0},{0,1}}, e[3][3]={{0,0,0},{1,0,0},{0,0,0}}; double ref=en(U,e,1)/(0.5*1); // energy per area, thickness and squared shear
      for(int i=0;i<3;++i){ u[i][0]=gx*C[i][0]+gy*C[i][1]; u[i][1]=u[i][2]=0; } double Ws=en(C,u,thk), Wso=ref*A*thk*(gx*gx+gy*gy);
      CK(std::fabs(Ws-Wso) <= 1e-9*Wso+1e-12*cond, "MITC3: uniform shear energy depends on the shape or the numbering of the triangle", "energy=%.12g expected=%.12g", Ws, Wso); ctx.count("mitc3_constant_strain"); }
    ctx.count("mitc3");
  }
  { // DKT
    double yo=r.uni(0.5,3), nu=r.uni(0,0.45), th=L*r.uni(0.02,0.2); double ww[3][3], wr[3][3][2], rw[3][3][2], rr[3][3][2][2], ew[3], er[3][2], w[3], rot[3][2];
    for(int a=0;a<3;++a){ w[a]=L*r.uni(-1,1); rot[a][0]=r.uni(-1,1); rot[a][1]=r.uni(-1,1); }
    dfm2::MakeMat_PlateBendingDKT(ww,wr,rw,rr,ew,er,yo,nu,th,C,w,rot);
    V H(81), u(9), g(9); for(int a=0;a<3;++a){ u[a*3]=w[a]; u[a*3+1]=rot[a][0]*L; u[a*3+2]=rot[a][1]*L; g[a*3]=-ew[a]; g[a*3+1]=-er[a][0]/L; g[a*3+2]=-er[a][1]/L;
      for(int b=0;b<3;++b){ H[(a*3)*9+b*3]=ww[a][b]; for(int i=0;i<2;++i){ H[(a*3)*9+b*3+1+i]=wr[a][b][i]/L; H[(a*3+1+i)*9+b*3]=rw[a][b][i]/L; for(int j=0;j<2;++j) H[(a*3+1+i)*9+b*3+1+j]=rr[a][b][i][j]/L/L; } } }
    double hm=mx(H.data(),81);
    for(int i=0;i<9;++i){ double s=0; for(int j=0;j<9;++j){ s+=H[i*9+j]*u[j]; CK(std::fabs(H[i*9+j]-H[j*9+i]) <= 1e-9*hm, "DKT: stiffness not symmetric", "(%d,%d) %.12g %.12g", i,j,H[i*9+j],H[j*9+i]); } CK(std::fabs(s-g[i]) <= 1e-9*hm*L*9, "DKT: residual is not minus stiffness times deflection", "i=%d %.12g vs %.12g", i, s, g[i]); }
    CK(isPSD(H,9,1e-8*hm), "DKT: stiffness not positive semidefinite", "%g", hm);
    double D=yo*th*th*th/(12*(1-nu*nu)), A=tri2(C[0],C[1],C[2]);
    // quadratic deflection (constant curvature) is reproduced: energy = A/2 k^T D k for one sign convention of the rotations
    double k0=r.uni(-1,1)/L,k1=r.uni(-1,1)/L,k2=r.uni(-1,1)/L, c0=r.uni(-1,1), c1=r.uni(-1,1), c2=r.uni(-1,1)*L; // w = c2+c0x+c1y+.5(k0xx+k1yy)+k2xy
    double best=1e300, Wo=0.5*A*D*(k0*k0+k1*k1+2*nu*k0*k1+2*(1-nu)*k2*k2);
    // convention of the element: rotation about x is +dw/dy, about y is -dw/dx (fixed by the rigid modes below)
    V q(9); for(int a=0;a<3;++a){ double x=C[a][0], y=C[a][1]; double wx=c0+k0*x+k2*y, wy=c1+k1*y+k2*x; q[a*3]=c2+c0*x+c1*y+0.5*(k0*x*x+k1*y*y)+k2*x*y; q[a*3+1]=wy*L; q[a*3+2]=-wx*L; }
    double W=0; for(int i=0;i<9;++i) for(int j=0;j<9;++j) W+=0.5*q[i]*H[i*9+j]*q[j]; best=W;
    CK(std::fabs(best-Wo) <= 1e-9*(Wo+hm*L*L), "DKT: constant curvature is not reproduced", "energy=%.12g expected=%.12g", best, Wo);
    V z(9); for(int a=0;a<3;++a){ z[a*3]=c2+c0*C[a][0]+c1*C[a][1]; z[a*3+1]=c1*L; z[a*3+2]=-c0*L; } double m=0; for(int i=0;i<9;++i){ double s=0; for(int j=0;j<9;++j) s+=H[i*9+j]*z[j]; m=std::max(m,std::fabs(s)); }
    CK(m <= 1e-8*hm*L*10, "DKT: rigid motion has force", "%g scale %g", m, hm*L);
    ctx.count("dkt");
  }
  { // beam
    double x[2][2]={{L*r.uni(-1,1),L*r.uni(-1,1)},{0,0}}; double len=L*r.uni(0.5,2), an=r.uni(-3.1,3.1); x[1][0]=x[0][0]+len*std::cos(an); x[1][1]=x[0][1]+len*std::sin(an);
    double EI=r.uni(0.2,3)*L*L, AE=r.uni(0.2,3), u[2][3], d[2][3], dd[2][2][3][3]; for(int i=0;i<6;++i) (&u[0][0])[i]=(i%3==2?1:L)*r.uni(-1,1);
    dfm2::dWddW_Beam2<double>(d,dd,EI,AE,x,u);
    V H(36), uu(6), g(6); for(int a=0;a<2;++a) for(int i=0;i<3;++i){ double s=i==2?1/L:1; uu[a*3+i]=u[a][i]/s; g[a*3+i]=d[a][i]*s; for(int b=0;b<2;++b) for(int j=0;j<3;++j) H[(a*3+i)*6+b*3+j]=dd[a][b][i][j]*s*(j==2?1/L:1); }
    double hm=mx(H.data(),36); for(int i=0;i<6;++i){ double s=0; for(int j=0;j<6;++j){ s+=H[i*6+j]*uu[j]; CK(std::fabs(H[i*6+j]-H[j*6+i])<=1e-9*hm,"Beam2: stiffness not symmetric","(%d,%d)",i,j);} CK(std::fabs(s-g[i])<=1e-9*hm*L*6,"Beam2: force is not stiffness times displacement","i=%d %g %g",i,s,g[i]); }
    CK(isPSD(H,6,1e-8*hm),"Beam2: stiffness not positive semidefinite","%g",hm);
    // exact: axial stretch e and constant curvature k about the beam axis
    double c=std::cos(an),s=std::sin(an), e=r.uni(-1,1), k=r.uni(-1,1)/L, t=r.uni(-1,1), tx=L*r.uni(-1,1); 
    V q(6); for(int a=0;a<2;++a){ double xi=a*len, ua=tx+e*xi, va=t*xi+0.5*k*xi*xi, th=t+k*xi; q[a*3]=c*ua-s*va; q[a*3+1]=s*ua+c*va; q[a*3+2]=th*L; }
    double W=0; for(int i=0;i<6;++i) for(int j=0;j<6;++j) W+=0.5*q[i]*H[i*6+j]*q[j];
    double Wo=0.5*AE*e*e*len+0.5*EI*k*k*len; CK(std::fabs(W-Wo)<=1e-8*(Wo+hm*L*L),"Beam2: energy of stretch and uniform bending is wrong","got=%.12g expected=%.12g",W,Wo);
    ctx.count("beam2");
  }
}
VH_FAMILY(linear_solid_elements, 250, 2500){
  Rng& r = ctx.rng; double L = pickL(ctx);
  double mu=r.uni(0.2,2), la=r.uni(0,2);
  double G[3][3], t[3]; for(int i=0;i<3;++i){ t[i]=L*r.uni(-1,1); for(int j=0;j<3;++j) G[i][j]=r.uni(-1,1); }
  double S[3][3], tr=G[0][0]+G[1][1]+G[2][2], dens=0; for(int i=0;i<3;++i) for(int j=0;j<3;++j) S[i][j]=mu*(G[i][j]+G[j][i])+(i==j?la*tr:0);
  for(int i=0;i<3;++i) for(int j=0;j<3;++j) dens+=0.5*S[i][j]*G[i][j];
  auto common = [&](const char* nm, const V& H, int n, int nd, const V& u, const V& f, double Wexp){
    double hm=mx(H.data(),H.size()), us=mx(u.data(),u.size())+1e-300; double W=0;
    for(int i=0;i<n;++i){ double s=0; for(int j=0;j<n;++j){ s+=H[i*n+j]*u[j]; CK(std::fabs(H[i*n+j]-H[j*n+i])<=1e-9*hm, fmt("%s: stiffness not symmetric",nm),"(%d,%d)",i,j); } W+=0.5*u[i]*s; if(!f.empty()) CK(std::fabs(f[i]+s)<=1e-9*hm*us*n, fmt("%s: residual is not minus stiffness times displacement",nm),"i=%d %.12g vs %.12g",i,f[i],-s); }
    CK(isPSD(H,n,1e-8*hm), fmt("%s: stiffness not positive semidefinite",nm),"%g",hm);
    CK(std::fabs(W-Wexp)<=1e-9*(Wexp+hm*us*us), fmt("%s: energy of a linear displacement field is wrong",nm),"got=%.12g expected=%.12g",W,Wexp);
    ctx.count("linear_elements"); (void)nd; };
  { double P[4][3]; restTet(r,P,L); double u[4][3], em[4][4][3][3], er[4][3]; for(int a=0;a<4;++a) for(int i=0;i<3;++i){ u[a][i]=t[i]; for(int j=0;j<3;++j) u[a][i]+=G[i][j]*P[a][j]; }
    std::fill_n(&em[0][0][0][0],144,0.0); std::fill_n(&er[0][0],12,0.0);
    dfm2::EMat_SolidLinear_Static_Tet(em,er,mu,la,P,u,false); V H(144); plain<4,3>(em,H.data());
    common("EMat_SolidLinear_Static_Tet",H,12,3,V(&u[0][0],&u[0][0]+12),V(&er[0][0],&er[0][0]+12),dens*detTet(P[0],P[1],P[2],P[3])/6);
    // is_add accumulates
    double em2[4][4][3][3], er2[4][3]; std::copy_n(&em[0][0][0][0],144,&em2[0][0][0][0]); std::copy_n(&er[0][0],12,&er2[0][0]); dfm2::EMat_SolidLinear_Static_Tet(em2,er2,mu,la,P,u,true);
    double m=0; for(int i=0;i<144;++i) m=std::max(m,std::fabs((&em2[0][0][0][0])[i]-2*(&em[0][0][0][0])[i])); for(int i=0;i<12;++i) m=std::max(m,std::fabs((&er2[0][0])[i]-2*(&er[0][0])[i]));
    CK(m<=1e-9*(mx(&em[0][0][0][0],144)+mx(&er[0][0],12)),"EMat_SolidLinear_Static_Tet: is_add does not accumulate","%g",m);
    // quadratic tetrahedron (uniform material, gravity off) with mid-edge nodes
    double dl[4][3]; double vol=detTet(P[0],P[1],P[2],P[3])/6; { double a[4]; dfm2::TetDlDx(dl,a,P[0],P[1],P[2],P[3]); }
    static const int ed[6][2]={{0,1},{1,2},{2,0},{0,3},{1,3},{2,3}};
    double Q[10][3]; for(int a=0;a<4;++a) for(int i=0;i<3;++i) Q[a][i]=P[a][i]; for(int e=0;e<6;++e) for(int i=0;i<3;++i) Q[4+e][i]=0.5*(P[ed[e][0]][i]+P[ed[e][1]][i]);
    double u10[10][3], e10[10][10][3][3], r10[10][3]; for(int a=0;a<10;++a) for(int i=0;i<3;++i){ u10[a][i]=t[i]; for(int j=0;j<3;++j) u10[a][i]+=G[i][j]*Q[a][j]; }
    std::fill_n(&e10[0][0][0][0],900,0.0); std::fill_n(&r10[0][0],30,0.0);
    dfm2::matRes_LinearSolid_TetP2(e10,r10,vol,la,mu,0,0,0,1.0,dl,u10);
    V H10(900); plain<10,3>(e10,H10.data()); common("matRes_LinearSolid_TetP2",H10,30,3,V(&u10[0][0],&u10[0][0]+30),V(&r10[0][0],&r10[0][0]+30),dens*vol);
    double st[3][3]; double b[4]; double sm=0; for(double& v : b){ v=r.uni(0.05,1); sm+=v; } for(double& v : b) v/=sm;
    dfm2::stress_LinearSolid_TetP2(st,b[0],b[1],b[2],b[3],vol,la,mu,0,0,0,dl,u10);
    for(int i=0;i<3;++i) for(int j=0;j<3;++j) CK(std::fabs(st[i][j]-S[i][j])<=1e-8*(mu+la)*10,"stress_LinearSolid_TetP2: stress of a linear displacement field is wrong","(%d,%d) %.12g vs %.12g",i,j,st[i][j],S[i][j]);
    // gravity: total load = volume * rho * g
    double gr[3]={r.uni(-1,1),r.uni(-1,1),r.uni(-1,1)}, rho=r.uni(0.5,2), rg[10][3]; double ez[10][3]={{0}}; std::fill_n(&e10[0][0][0][0],900,0.0); std::fill_n(&rg[0][0],30,0.0);
    dfm2::matRes_LinearSolid_TetP2(e10,rg,vol,la,mu,gr[0],gr[1],gr[2],rho,dl,ez); for(int i=0;i<3;++i){ double s=0; for(int a=0;a<10;++a) s+=rg[a][i]; CK(std::fabs(s-vol*rho*gr[i])<=1e-9*vol*rho*2,"matRes_LinearSolid_TetP2: total gravity load is wrong","%.12g vs %.12g",s,vol*rho*gr[i]); }
  }
  { double P[8][3]; hexRest(r,P,L); double u[8][3], em[8][8][3][3], er[8][3], g0[3]={0,0,0}; for(int a=0;a<8;++a) for(int i=0;i<3;++i){ u[a][i]=t[i]; for(int j=0;j<3;++j) u[a][i]+=G[i][j]*P[a][j]; }
    dfm2::elemMatRes_LinearSolidGravity3_Static_Q1(mu,la,1.0,g0,P,u,em,er); V H(576); plain<8,3>(em,H.data());
    // volume oracle
    const double q=1/std::sqrt(3.0); static const int s[8][3]={{-1,-1,-1},{1,-1,-1},{1,1,-1},{-1,1,-1},{-1,-1,1},{1,-1,1},{1,1,1},{-1,1,1}}; double vol=0;
    for(int g=0;g<8;++g){ double J[3][3]={{0}}; for(int n=0;n<8;++n) for(int d=0;d<3;++d){ double dn=s[n][d]/8.; for(int e=0;e<3;++e) if(e!=d) dn*=1+s[n][e]*s[g][e]*q; for(int k=0;k<3;++k) J[d][k]+=dn*P[n][k]; } vol+=J[0][0]*(J[1][1]*J[2][2]-J[1][2]*J[2][1])-J[0][1]*(J[1][0]*J[2][2]-J[1][2]*J[2][0])+J[0][2]*(J[1][0]*J[2][1]-J[1][1]*J[2][0]); }
    common("elemMatRes_LinearSolidGravity3_Static_Q1",H,24,3,V(&u[0][0],&u[0][0]+24),V(&er[0][0],&er[0][0]+24),dens*vol);
    double gr[3]={r.uni(-1,1),r.uni(-1,1),r.uni(-1,1)}, rho=r.uni(0.5,2); double z[8][3]={{0}}; dfm2::elemMatRes_LinearSolidGravity3_Static_Q1(mu,la,rho,gr,P,z,em,er);
    for(int i=0;i<3;++i){ double sm=0; for(int a=0;a<8;++a) sm+=er[a][i]; CK(std::fabs(sm-vol*rho*gr[i])<=1e-9*vol*rho*2,"elemMatRes_LinearSolidGravity3_Static_Q1: total gravity load is wrong","%.12g vs %.12g",sm,vol*rho*gr[i]); }
  }
  { double P[3][2]; restTri(r,P,L); double u[3][2], em[3][3][2][2], er[3][2]; for(int a=0;a<3;++a) for(int i=0;i<2;++i) u[a][i]=t[i]+G[i][0]*P[a][0]+G[i][1]*P[a][1];
    double d2=0, tr2=G[0][0]+G[1][1]; for(int i=0;i<2;++i) for(int j=0;j<2;++j) d2+=0.5*G[i][j]*(mu*(G[i][j]+G[j][i])+(i==j?la*tr2:0)); double A=tri2(P[0],P[1],P[2]);
    dfm2::EMat_SolidStaticLinear_Tri2D(er,em,mu,la,1.0,0,0,u,P); V H(36); plain<3,2>(em,H.data()); common("EMat_SolidStaticLinear_Tri2D",H,6,2,V(&u[0][0],&u[0][0]+6),V(&er[0][0],&er[0][0]+6),d2*A);
    double rho=r.uni(0.5,2), g[2]={r.uni(-1,1),r.uni(-1,1)}, z[3][2]={{0}}; dfm2::EMat_SolidStaticLinear_Tri2D(er,em,mu,la,rho,g[0],g[1],z,P); for(int i=0;i<2;++i) CK(std::fabs(er[0][i]+er[1][i]+er[2][i]-A*rho*g[i])<=1e-9*A*rho*2,"EMat_SolidStaticLinear_Tri2D: total gravity load is wrong","%.12g vs %.12g",er[0][i]+er[1][i]+er[2][i],A*rho*g[i]);
    // orthogonal quad
    double lx=L*r.uni(0.4,2), ly=L*r.uni(0.4,2), eq[4][4][2][2]; unsigned ng=r.irange(1,2); dfm2::EMat_SolidLinear2_QuadOrth_GaussInt(eq,lx,ly,mu,la,ng); V Hq(64); plain<4,2>(eq,Hq.data());
    double qp[4][2]={{0,0},{lx,0},{lx,ly},{0,ly}}; V uq(8); for(int a=0;a<4;++a) for(int i=0;i<2;++i) uq[a*2+i]=t[i]+G[i][0]*qp[a][0]+G[i][1]*qp[a][1]; common("EMat_SolidLinear2_QuadOrth_GaussInt",Hq,8,2,uq,V(),d2*lx*ly);
  }
}
