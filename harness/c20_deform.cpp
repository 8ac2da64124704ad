// C20: shape deformation: handles, rigid motions, dense reference systems, energy decrease, cage coordinates
#include <iostream>
#include "../lib/vh.h"
#include <array>
#include <cmath>
#include <cstring>
#include <functional>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/mat3.h"
#include "delfem2/quat.h"
#include "delfem2/ls_block_sparse.h"
#include "delfem2/ls_ilu_block_sparse.h"
#include "delfem2/defarap.h"
#include "delfem2/defarapenergy_geo3.h"
#include "delfem2/deflap.h"
#include "delfem2/cagedef.h"
#include "delfem2/msh_primitive.h"
#include "delfem2/polyline_elastic_rod2.h"
#include "delfem2/ls_tridiagonal.h"
#include "delfem2/polyline_elastic_beam2.h"
#include "delfem2/vec3_funcs.h"

using namespace vh;
namespace dfm2 = delfem2;
typedef std::vector<double> V; typedef std::vector<unsigned int> U;
struct Mesh { V X; U T; std::vector<std::vector<unsigned>> nb; size_t np() const { return X.size()/3; } };
static void neigh(Mesh& m){ m.nb.assign(m.np(),{}); for(size_t t=0;t<m.T.size()/3;++t) for(int i=0;i<3;++i) for(int j=0;j<3;++j) if( i!=j ){ auto& v = m.nb[m.T[t*3+i]]; unsigned b = m.T[t*3+j]; if( std::find(v.begin(),v.end(),b)==v.end() ) v.push_back(b); } }
static Mesh grid(Rng& rng, int lo=1, int hi=4){
  Mesh m; int nx = rng.irange(lo,hi), ny = rng.irange(lo,hi); double s = std::exp(rng.uni(-1,1)), b = rng.pick({0.0,0.2,0.5});
  std::vector<unsigned> perm((nx+1)*(ny+1)); for(size_t i=0;i<perm.size();++i) perm[i] = i; rng.shuffle(perm); m.X.resize(perm.size()*3);
  for(int y=0;y<=ny;++y) for(int x=0;x<=nx;++x){ unsigned i = perm[y*(nx+1)+x]; m.X[i*3] = s*(x+rng.uni(-.2,.2)); m.X[i*3+1] = s*(y+rng.uni(-.2,.2)); m.X[i*3+2] = s*b*rng.uni(-1,1); }
  for(int y=0;y<ny;++y) for(int x=0;x<nx;++x){ unsigned a = perm[y*(nx+1)+x], c = perm[y*(nx+1)+x+1], d = perm[(y+1)*(nx+1)+x+1], e = perm[(y+1)*(nx+1)+x];
    if( rng.chance(0.5) ){ unsigned t[6] = {a,c,d,a,d,e}; m.T.insert(m.T.end(),t,t+6); } else { unsigned t[6] = {a,c,e,c,d,e}; m.T.insert(m.T.end(),t,t+6); } }
  neigh(m); return m;
}
static void rotmat(Rng& rng, double R[9], double q4[4], double ang=-1){
  double q[4], s = 0; for(double& v : q){ v = rng.gauss(); s += v*v; } s = 1/std::sqrt(s); for(double& v : q) v *= s;
  if( ang >= 0 ){ double l = std::sqrt(q[0]*q[0]+q[1]*q[1]+q[2]*q[2]); for(int i=0;i<3;++i) q[i] *= std::sin(ang/2)/l; q[3] = std::cos(ang/2); }
  double x=q[0],y=q[1],z=q[2],w=q[3];
  double M[9] = {1-2*(y*y+z*z),2*(x*y-w*z),2*(x*z+w*y),2*(x*y+w*z),1-2*(x*x+z*z),2*(y*z-w*x),2*(x*z-w*y),2*(y*z+w*x),1-2*(x*x+y*y)}; std::copy(M,M+9,R); std::copy(q,q+4,q4);
}
static V moved(const V& X, const double R[9], const double t[3]){ V y(X.size()); for(size_t i=0;i<X.size()/3;++i) for(int d=0;d<3;++d) y[i*3+d] = t[d]+R[d*3]*X[i*3]+R[d*3+1]*X[i*3+1]+R[d*3+2]*X[i*3+2]; return y; }
static double maxdiff(const V& a, const V& b){ double m = 0; for(size_t i=0;i<a.size();++i) m = std::max(m,std::fabs(a[i]-b[i])); return m; }
static double nrm(const V& a){ double s = 0; for(double x : a) s += x*x; return std::sqrt(s); }
static V quats(size_t np, const double q[4]){ V Q(np*4); for(size_t i=0;i<np;++i) std::copy(q,q+4,&Q[i*4]); return Q; }
static void q2m(const double* q, double R[9]){ double x=q[0],y=q[1],z=q[2],w=q[3]; double M[9] = {1-2*(y*y+z*z),2*(x*y-w*z),2*(x*z+w*y),2*(x*y+w*z),1-2*(x*x+z*z),2*(y*z-w*x),2*(x*z-w*y),2*(y*z+w*x),1-2*(x*x+y*y)}; std::copy(M,M+9,R); }
static double arap(const Mesh& m, const V& x, const V& Q){ double E = 0; for(size_t i=0;i<m.np();++i){ double R[9]; q2m(&Q[i*4],R); for(unsigned j : m.nb[i]) for(int d=0;d<3;++d){ double r = x[j*3+d]-x[i*3+d]; for(int e=0;e<3;++e) r -= R[d*3+e]*(m.X[j*3+e]-m.X[i*3+e]); E += r*r; } } return 0.5*E; }
static std::vector<int> handles(Rng& rng, const Mesh& m, int minh){
  std::vector<int> f(m.np()*3,0); std::vector<unsigned> p(m.np()); for(size_t i=0;i<p.size();++i) p[i] = i; rng.shuffle(p); int n = std::min<int>((int)p.size()-1, rng.irange(minh, std::max(minh,(int)p.size()/2)));
  for(int k=0;k<n;++k) for(int d=0;d<3;++d) f[p[k]*3+d] = rng.pick({1,1,2}); return f;
}

// dense graph Laplacian
static V dense_lap(const Mesh& m){ size_t n = m.np(); V L(n*n,0.0); for(size_t i=0;i<n;++i){ L[i*n+i] = (double)m.nb[i].size(); for(unsigned j : m.nb[i]) L[i*n+j] = -1; } return L; }
static V lapmul(const V& L, size_t n, const V& x){ V y(n*3,0.0); for(size_t i=0;i<n;++i) for(size_t j=0;j<n;++j) for(int d=0;d<3;++d) y[i*3+d] += L[i*n+j]*x[j*3+d]; return y; }

template<class D> static void check_matvec(vh::Ctx& ctx, const char* name, const D& def, size_t nd, const std::function<V(const V&)>& ref){
  Rng& rng = ctx.rng; V x(nd), y(nd); for(double& a : x) a = rng.gauss(); for(double& a : y) a = rng.gauss(); V y0 = y;
  double al = rng.pick({1.0,-1.0,0.37,0.0}), be = rng.pick({0.0,1.0,-0.7}); V r = ref(x); def.MatVec(y.data(), al, x.data(), be);
  double sc = 1+nrm(r); for(size_t i=0;i<nd;++i) if( !CKN(y[i], al*r[i]+be*y0[i], 1e-10*sc, "system_matrix", "%s alpha %g beta %g", name, al, be) ) break;
  ctx.count("matvec");
}

VH_FAMILY(laplacian, 300, 5000){
  Rng& rng = ctx.rng; Mesh m = grid(rng); size_t n = m.np(); auto bc = handles(rng, m, 1); V L = dense_lap(m); double s = nrm(m.X)/std::sqrt((double)n);
  V X1 = m.X; double t[3] = {rng.gauss()*s,rng.gauss()*s,rng.gauss()*s}; int mode = rng.irange(0,2); // 0 rest, 1 translation, 2 free handles
  for(size_t i=0;i<n*3;++i) if( bc[i] ) X1[i] += mode==0 ? 0 : mode==1 ? t[i%3] : s*rng.gauss();
  V trans = m.X; for(size_t i=0;i<n*3;++i) trans[i] += t[i%3];
  if( mode==2 || rng.chance(0.5) ) for(size_t i=0;i<n*3;++i) if( !bc[i] ) X1[i] += mode==0 ? 0.0 : 0.1*s*rng.gauss();
  ctx.sig(vh::Hash().vd(X1).vu(m.T).h); int kind = rng.irange(0,3); bool pre = rng.chance(0.5); ctx.count(vh::fmt("lap_kind%d", kind)); ctx.count(mode==0 ? "lap_rest" : mode==1 ? "lap_translate" : "lap_free");
  V l0 = lapmul(L,n,m.X);
  if( kind == 0 ){ // rows of the fixed points are constraints
    dfm2::CDef_LaplacianLinearAsym d; d.Init(m.X, m.T); V x = X1; d.Deform(x, m.X, bc);
    double sc = 1+nrm(l0)+nrm(X1); V l1 = lapmul(L,n,x); bool conv = d.aHistConv.size() < 100;
    if( conv ){ for(size_t i=0;i<n*3;++i){ if( bc[i] ) CKN(x[i], X1[i], 2e-5*sc, "handle", "asym"); else CKN(l1[i], l0[i], 2e-5*sc, "laplacian_kept", "asym"); }
      if( mode == 0 ) CK(maxdiff(x,m.X) < 1e-2*s, "rest_moved", "asym %g", maxdiff(x,m.X)/s);
      ctx.count("asym_converged"); }
    return;
  }
  double wb = rng.pick({100.0,10.0,1000.0}), wn = rng.pick({100.0,30.0}); std::vector<std::pair<unsigned,dfm2::CVec3d>> nrmc;
  if( kind != 1 ) for(int k=0;k<rng.irange(0,2);++k){ dfm2::CVec3d v(rng.gauss(),rng.gauss(),rng.gauss()); v.normalize(); nrmc.push_back({(unsigned)rng.irange(0,(int)n-1), v}); }
  auto K = [&](const V& x)->V{ V y = lapmul(L,n,x); V z = lapmul(L,n,y); for(size_t i=0;i<n*3;++i) if( bc[i] ) z[i] += wb*x[i]; for(auto& p : nrmc){ double d = 0; for(int k=0;k<3;++k) d += p.second.p[k]*x[p.first*3+k]; for(int k=0;k<3;++k) z[p.first*3+k] += wn*d*p.second.p[k]; } return z; };
  V df(n*3); for(size_t i=0;i<n*3;++i) df[i] = m.X[i]-X1[i]; V rhs = lapmul(L,n,lapmul(L,n,df)); V x = X1; double tol = 1e-5; size_t nit = 0;
  auto judge = [&](const char* name){
    V u(n*3); for(size_t i=0;i<n*3;++i) u[i] = x[i]-X1[i]; V r = K(u); double e = 0; for(size_t i=0;i<n*3;++i) e += std::pow(r[i]-rhs[i],2);
    CK(std::sqrt(e) <= 3*tol*nrm(rhs)+1e-9*(1+s), "not_solved", "%s pre %d: residual %g of %g after %zu", name, pre, std::sqrt(e), nrm(rhs), nit);
    if( mode == 0 ) CK(maxdiff(x,m.X) < 1e-9*(1+s), "rest_moved", "%s", name);
    // penalty handles stay close: the penalty weight bounds the drift
    double drift = 0; for(size_t i=0;i<n*3;++i) if( bc[i] ) drift += u[i]*u[i]*wb; double E0 = 0; V l = lapmul(L,n,df); E0 = nrm(l)*nrm(l);
    CK(drift <= E0*(1+1e-6)+1e-12, "handle_drift", "%s %g %g", name, drift, E0);
    V v2(n*3); for(size_t i=0;i<n*3;++i) v2[i] = m.X[i]-x[i]; CK(nrm(lapmul(L,n,v2)) <= nrm(l)*(1+1e-6)+1e-12, "energy_grew", "%s", name);
  };
  if( kind == 1 ){
    dfm2::CDef_LaplacianLinearGram d; d.weight_bc = wb; d.Init(m.X, m.T, pre); d.aBCFlag = bc; d.SetBoundaryConditionToPreconditioner(); tol = 1e-7; d.Deform(x, m.X); nit = d.aConvHist.size(); judge("gram"); check_matvec(ctx, "gram", d, n*3, K);
  } else if( kind == 2 ){
    dfm2::CDef_LaplacianLinear d; d.weight_bc = wb; d.weight_nrm = wn; d.Init(m.X, m.T, pre); d.aBCFlag = bc; d.aIdpNrm = nrmc; d.max_itr = 1000; d.conv_tol = tol = rng.pick({1e-5,1e-8}); V md = d.Mat.val_dia_; d.SetValueToPreconditioner(); for(size_t i=0;i<md.size();++i) CKN(d.Mat.val_dia_[i], md[i], 1e-9, "matrix_restored", "");
    d.Deform(x, m.X); nit = d.aConvHist.size(); judge("linear"); check_matvec(ctx, "linear", d, n*3, K);
  } else {
    dfm2::CDef_LaplacianLinearDegenerate d; d.weight_bc = wb; d.weight_nrm = wn; d.Init(m.X, m.T, pre); d.aBCFlag = bc; d.aIdpNrm = nrmc; d.max_itr = 1000; d.conv_tol = tol = rng.pick({1e-5,1e-8}); d.SetBoundaryConditionToPreconditioner();
    d.Deform(x, m.X); nit = d.aConvHist.size(); judge("degenerate"); check_matvec(ctx, "degenerate", d, n*3, K);
  }
  // repeating the step with the handles put back converges: a translation is then reproduced
  ctx.sample(vh::fmt("np=%zu kind=%d pre=%d mode=%d", n, kind, pre, mode));
}
VH_FAMILY(laplacian_translate, 100, 1500){
  Rng& rng = ctx.rng; Mesh m = grid(rng,1,3); size_t n = m.np(); double s = nrm(m.X)/std::sqrt((double)n); auto bc = handles(rng, m, 2); double t[3] = {rng.gauss()*s,rng.gauss()*s,rng.gauss()*s}; V tr = m.X; for(size_t i=0;i<n*3;++i) tr[i] += t[i%3];
  V x = m.X; dfm2::CDef_LaplacianLinear d; bool pre = rng.chance(0.5); d.Init(m.X, m.T, pre); d.aBCFlag = bc; d.conv_tol = 1e-9; d.max_itr = 1000; d.SetValueToPreconditioner(); ctx.sig(vh::Hash().vd(tr).h);
  for(int k=0;k<3;++k){ for(size_t i=0;i<n*3;++i) if( bc[i] ) x[i] = tr[i]; d.Deform(x, m.X); }
  for(int k=0;k<60;++k){ for(size_t i=0;i<n*3;++i) if( bc[i] ) x[i] = tr[i]; d.Deform(x, m.X); }
  CK(maxdiff(x,tr) < 1e-3*s, "translation", "%g of %g", maxdiff(x,tr), s); ctx.count("translations");
}

// ------------------------------------------------- as-rigid-as-possible
VH_FAMILY(arap_rotation, 500, 8000){
  Rng& rng = ctx.rng; Mesh m = grid(rng); size_t n = m.np(); U pi = {0}, ps; for(auto& v : m.nb){ ps.insert(ps.end(),v.begin(),v.end()); pi.push_back((unsigned)ps.size()); }
  double R[9], q[4], t[3] = {rng.gauss(),rng.gauss(),rng.gauss()}; rotmat(rng,R,q); V x = moved(m.X,R,t); V Q(n*4); double dq[9], q0[4]; bool near = rng.chance(0.5);
  for(size_t i=0;i<n;++i){ if( near ){ double r2[9], a[4]; rotmat(rng,r2,a,rng.uni(0,0.3)); dfm2::QuatQuat(q0,a,q); } else rotmat(rng,dq,q0); std::copy(q0,q0+4,&Q[i*4]); }
  ctx.sig(vh::Hash().vd(x).vd(Q).h); double s = nrm(m.X)/std::sqrt((double)n);
  auto good = [&](size_t i){ // neighbours spread enough to define the rotation
    double C[9] = {0}; for(unsigned j : m.nb[i]) for(int a=0;a<3;++a) for(int b=0;b<3;++b) C[a*3+b] += (m.X[j*3+a]-m.X[i*3+a])*(m.X[j*3+b]-m.X[i*3+b]); double tr = C[0]+C[4]+C[8], m2 = C[0]*C[4]-C[1]*C[1]+C[0]*C[8]-C[2]*C[2]+C[4]*C[8]-C[5]*C[5]; return m2 > 0.02*tr*tr; };
  V Q1 = Q; dfm2::UpdateQuaternions_Svd(Q1, m.X, x, pi, ps);
  for(size_t i=0;i<n;++i) if( good(i) ){ double M[9]; q2m(&Q1[i*4],M); double e = 0; for(int k=0;k<9;++k) e = std::max(e,std::fabs(M[k]-R[k])); double l = 0; for(int k=0;k<4;++k) l += Q1[i*4+k]*Q1[i*4+k]; CKN(l, 1.0, 1e-6, "unit_quaternion", ""); CK(e < 1e-5, "rotation_svd", "point %zu: %g", i, e); ctx.count("rotations"); }
  // disturbed: the returned rotation is the best one: no better rotation nearby, and the energy does not grow
  V y = x; for(double& a : y) a += 0.15*s*rng.uni(-1,1); Q1 = Q; double E0 = arap(m,y,Q); dfm2::UpdateQuaternions_Svd(Q1, m.X, y, pi, ps); double E1 = arap(m,y,Q1); CK(E1 <= E0*(1+1e-9)+1e-9*s*s, "energy_grew_svd", "%g -> %g", E0, E1);
  auto cell = [&](size_t i, const double* qq){ double M[9], E = 0; q2m(qq,M); for(unsigned j : m.nb[i]) for(int d=0;d<3;++d){ double r = y[j*3+d]-y[i*3+d]; for(int e=0;e<3;++e) r -= M[d*3+e]*(m.X[j*3+e]-m.X[i*3+e]); E += r*r; } return E; };
  for(size_t i=0;i<n;++i){ double e0 = cell(i,&Q1[i*4]); for(int k=0;k<6;++k){ double r2[9], a[4], b[4]; rotmat(rng,r2,a,rng.pick({0.01,0.1,1.0,3.0})); dfm2::QuatQuat(b,a,&Q1[i*4]); CK(cell(i,b) >= e0*(1-1e-7)-1e-9*s*s, "not_best_rotation", "point %zu neighbours %zu: %g better than %g", i, m.nb[i].size(), cell(i,b), e0); } }
  // linearised update from a nearby rotation
  if( near ){ V Q2 = Q; for(int k=0;k<8;++k) dfm2::UpdateRotationsByMatchingCluster_Linear(Q2, m.X, x, pi, ps); for(size_t i=0;i<n;++i) if( good(i) ){ double M[9]; q2m(&Q2[i*4],M); double e = 0; for(int k=0;k<9;++k) e = std::max(e,std::fabs(M[k]-R[k])); CK(e < 1e-5, "rotation_linear", "point %zu: %g", i, e); ctx.count("rotations_linear"); } }
}
VH_FAMILY(arap, 200, 3000){
  Rng& rng = ctx.rng; Mesh m = grid(rng,1,4); size_t n = m.np(); double s = nrm(m.X)/std::sqrt((double)n); auto bc = handles(rng, m, 3); int kind = rng.irange(0,2); bool pre = rng.chance(0.5);
  double R[9], q[4], t[3] = {rng.gauss()*s,rng.gauss()*s,rng.gauss()*s}; rotmat(rng,R,q); V rig = moved(m.X,R,t); double qi[4] = {0,0,0,1};
  ctx.sig(vh::Hash().vd(m.X).vd(rig).h); ctx.count(vh::fmt("arap_kind%d", kind)); V Q = quats(n,q), x = rig, Qid = quats(n,qi);
  dfm2::Deformer_Arap A; dfm2::Deformer_Arap2 B; dfm2::CDef_ArapEdge C; double wb = 1000;
  if( kind==0 ) A.Init(m.X, m.T, pre); else if( kind==1 ) B.Init(m.X, m.T, Qid, bc); else C.Init(m.X, m.T, wb, bc, pre);
  U pi = {0}, ps; for(auto& v : m.nb){ ps.insert(ps.end(),v.begin(),v.end()); pi.push_back((unsigned)ps.size()); }
  auto step = [&](V& x, V& Q){ if( kind==0 ) A.Deform(x,Q,m.X,bc); else if( kind==1 ) B.Deform(x,Q,m.X,bc); else C.Deform(x,Q,m.X); };
  // a rigidly moved shape is at rest
  step(x,Q); CK(maxdiff(x,rig) < 1e-7*(s+1+nrm(rig)/n), "rigid_copy_moved", "kind %d pre %d: %g", kind, pre, maxdiff(x,rig)); { V Qr = quats(n,q); double e = 0; for(size_t i=0;i<n;++i){ double d = 0; for(int k=0;k<4;++k) d += Q[i*4+k]*Qr[i*4+k]; e = std::max(e,1-std::fabs(d)); } CK(e < 1e-9, "rigid_copy_rotated", "kind %d", kind); }
  // disturbed handles
  x = rig; Q = quats(n,q); double amp = rng.pick({0.05,0.2}); for(size_t i=0;i<n;++i) if( bc[i*3] ) for(int d=0;d<3;++d) x[i*3+d] += amp*s*rng.uni(-1,1);
  V goal = x; dfm2::UpdateQuaternions_Svd(Q, m.X, x, pi, ps); double E = arap(m,x,Q), E0 = E;
  if( kind != 2 ) { // the library's own energy is this one
    double W = dfm2::W_ArapEnergy(m.X, x, Q, pi, ps); CKN(W, E, 1e-9*(E+s*s), "energy_value", ""); }
  for(int k=0;k<rng.irange(3,10);++k){
    V xb = x; step(x,Q); for(size_t i=0;i<n*3;++i) if( !(std::fabs(x[i]) < 1e6) ){ CK(false, "diverged", "kind %d", kind); return; }
    if( kind != 2 ) for(size_t i=0;i<n*3;++i) if( bc[i] ) CK(x[i]==goal[i], "handle", "kind %d %g %g", kind, x[i], goal[i]);
    if( kind == 1 ){ double E1 = arap(m,x,Q); CK(E1 <= E*(1+1e-7)+1e-10*s*s, "energy_grew", "global step %d: %g -> %g", k, E, E1);
      // the global step is the minimiser: no gradient at free points
      double g = 0, g0 = 0; for(size_t i=0;i<n;++i) if( !bc[i*3] ) for(int d=0;d<3;++d){ auto gr = [&](const V& z){ double r = 0; double Ri[9]; q2m(&Q[i*4],Ri); for(unsigned j : m.nb[i]){ double Rj[9]; q2m(&Q[j*4],Rj); r += 2*(z[j*3+d]-z[i*3+d]); for(int e=0;e<3;++e) r -= (Ri[d*3+e]+Rj[d*3+e])*(m.X[j*3+e]-m.X[i*3+e]); } return r; }; g += std::pow(gr(x),2); g0 += std::pow(gr(xb),2); }
      CK(std::sqrt(g) <= 1e-3*std::sqrt(g0)+1e-8*s, "not_minimised", "%g of %g", std::sqrt(g), std::sqrt(g0)); E = E1; ctx.count("global_steps"); }
    if( kind != 2 ){ dfm2::UpdateQuaternions_Svd(Q, m.X, x, pi, ps); double E1 = arap(m,x,Q); if( kind==1 ) CK(E1 <= E*(1+1e-7)+1e-10*s*s, "energy_grew", "local step %d: %g -> %g", k, E, E1); E = E1; }
    else { double l = 0; for(size_t i=0;i<n;++i){ l = 0; for(int c=0;c<4;++c) l += Q[i*4+c]*Q[i*4+c]; CKN(l, 1.0, 1e-6, "unit_quaternion", ""); } E = arap(m,x,Q); }
  }
  if( kind == 1 ) CK(E <= E0*(1+1e-6)+1e-10*s*s, "energy_after_history", "kind %d pre %d amp %g: %g -> %g", kind, pre, amp, E0, E); ctx.count("arap_histories");
  // the edge based system: matrix against its own definition
  if( kind == 2 ){
    double drift = 0; for(size_t i=0;i<n*3;++i) if( bc[i] ) drift = std::max(drift, std::fabs(x[i]-goal[i])); CK(drift <= 0.2*amp*s*std::sqrt((double)n), "handle_drift", "%g amp %g", drift, amp*s);
    // matrix: sum over directed edges |ui - uj + [..]ri|^2, from a second-difference of the energy of (u, r)
    V z(n*6); for(double& a : z) a = rng.gauss(); V y(n*6,0.0); V Qs = Q; V xs = x; C.Deform(xs,Qs,m.X); // rebuilds the matrix at (x,Q)
    C.MatVec(y.data(), 1.0, z.data(), 0.0); double zy = 0; for(size_t i=0;i<n*6;++i) zy += z[i]*y[i]; double ref = 0;
    for(size_t i=0;i<n;++i){ double Ri[9]; q2m(&Q[i*4],Ri); for(unsigned j : m.nb[i]){ double v[3]; for(int d=0;d<3;++d){ v[d] = 0; for(int e=0;e<3;++e) v[d] += Ri[d*3+e]*(m.X[j*3+e]-m.X[i*3+e]); } const double* r = &z[(n+i)*3]; double c[3] = {r[1]*v[2]-r[2]*v[1],r[2]*v[0]-r[0]*v[2],r[0]*v[1]-r[1]*v[0]}; for(int d=0;d<3;++d) ref += std::pow(z[i*3+d]-z[j*3+d]+c[d],2); } } for(size_t i=0;i<n*3;++i) if( bc[i] ) ref += wb*z[i]*z[i];
    CKN(zy, ref, 1e-8*ref, "edge_system", "");
  }
  ctx.sample(vh::fmt("np=%zu kind=%d pre=%d amp=%g", n, kind, pre, amp));
}
// handles prescribed by a rigid motion: the shape follows
VH_FAMILY(arap_follow, 40, 500){
  Rng& rng = ctx.rng; Mesh m = grid(rng,2,3); size_t n = m.np(); double s = nrm(m.X)/std::sqrt((double)n); auto bc = handles(rng, m, 4); double R[9], q[4], t[3] = {rng.gauss()*s,rng.gauss()*s,rng.gauss()*s}; rotmat(rng,R,q,rng.uni(0,0.6)); V rig = moved(m.X,R,t), x = m.X; double qi[4] = {0,0,0,1}; V Q = quats(n,qi); int kind = rng.irange(0,1);
  int nh = 0; for(size_t i=0;i<n;++i) nh += bc[i*3]!=0; if( nh < 4 ) return; ctx.sig(vh::Hash().vd(rig).h);
  for(size_t i=0;i<n*3;++i) if( bc[i] ) x[i] = rig[i]; dfm2::Deformer_Arap A; dfm2::Deformer_Arap2 B; if( kind==0 ) A.Init(m.X,m.T,true); else B.Init(m.X,m.T,Q,bc); U pi = {0}, ps; for(auto& v : m.nb){ ps.insert(ps.end(),v.begin(),v.end()); pi.push_back((unsigned)ps.size()); }
  dfm2::UpdateQuaternions_Svd(Q,m.X,x,pi,ps); double E0 = arap(m,x,Q); for(int k=0;k<200;++k){ if( kind==0 ) A.Deform(x,Q,m.X,bc); else B.Deform(x,Q,m.X,bc); dfm2::UpdateQuaternions_Svd(Q,m.X,x,pi,ps); }
  double E1 = arap(m,x,Q); CK(E1 <= 0.05*E0+1e-8*s*s, "rigid_handles_energy", "kind %d: %g -> %g", kind, E0, E1); ctx.count("follow");
}
VH_FAMILY(edge_disponly, 150, 2000){
  Rng& rng = ctx.rng; Mesh m = grid(rng); size_t n = m.np(); double s = nrm(m.X)/std::sqrt((double)n); auto bc = handles(rng, m, 1); double wb = rng.pick({10.0,100.0}); dfm2::CDef_ArapEdgeLinearDisponly d(m.X, m.T, wb, bc);
  auto K = [&](const V& x)->V{ V y(n*3,0.0); for(size_t i=0;i<n;++i) for(unsigned j : m.nb[i]) for(int k=0;k<3;++k) y[i*3+k] += 2*(x[i*3+k]-x[j*3+k]); for(size_t i=0;i<n*3;++i) if( bc[i] ) y[i] += wb*x[i]; return y; };
  check_matvec(ctx, "edge", d, n*3, K); V X1 = m.X; bool rest = rng.chance(0.3); if( !rest ) for(size_t i=0;i<n*3;++i) if( bc[i] ) X1[i] += s*rng.gauss(); ctx.sig(vh::Hash().vd(X1).h); V x = X1; d.Deform(x, m.X); V u(n*3), df(n*3), rhs(n*3,0.0); for(size_t i=0;i<n*3;++i){ u[i] = x[i]-X1[i]; df[i] = m.X[i]-X1[i]; }
  for(size_t i=0;i<n;++i) for(unsigned j : m.nb[i]) for(int k=0;k<3;++k) rhs[i*3+k] += 2*(df[i*3+k]-df[j*3+k]); V r = K(u); double e = 0; for(size_t i=0;i<n*3;++i) e += std::pow(r[i]-rhs[i],2); CK(std::sqrt(e) <= 3e-4*nrm(rhs)+1e-10, "not_solved", "edge %g of %g", std::sqrt(e), nrm(rhs)); if( rest ) CK(maxdiff(x,m.X) < 1e-9*(1+s), "rest_moved", "edge"); ctx.count("edge_linear");
}

// ------------------------------------------------- cages
typedef dfm2::CVec3d C3;
VH_FAMILY(cage, 120, 2000){
  Rng& rng = ctx.rng; V cx; U ct; int k = rng.irange(0,2); double s = std::exp(rng.uni(-1.5,1.5));
  if( k==0 ) dfm2::MeshTri3D_Sphere(cx, ct, 1.0, rng.irange(4,10), rng.irange(3,7)); else if( k==1 ) dfm2::MeshTri3D_CylinderClosed(cx, ct, 1.0, 2.0, rng.irange(4,9), rng.irange(1,3)); else { double p[8][3]; cx.clear(); for(int i=0;i<8;++i) for(int d=0;d<3;++d) cx.push_back(((i>>d)&1)*2-1.0); unsigned t[36] = {0,2,3,0,3,1,4,5,7,4,7,6,0,1,5,0,5,4,2,6,7,2,7,3,0,4,6,0,6,2,1,3,7,1,7,5}; ct.assign(t,t+36); (void)p; }
  for(double& a : cx) a *= s; size_t nc = cx.size()/3; for(double& a : cx) a += 0.05*s*rng.uni(-1,1); if( rng.chance(0.2) ) for(size_t t=0;t<ct.size();t+=3) std::swap(ct[t],ct[t+1]);
  V q; for(int i=0;i<6;++i) for(int d=0;d<3;++d) q.push_back(s*0.5*rng.uni(-1,1)); ctx.sig(vh::Hash().vd(cx).vd(q).h);
  V w = dfm2::ComputeMeanValueCoordinate<C3>(q, cx, ct); if( !CK(w.size()==6*nc, "weights_size", "") ) return;
  double A[9], b[3]; for(double& a : A) a = rng.gauss(); for(double& a : b) a = rng.gauss(); bool neg = false;
  for(int i=0;i<6;++i){ double sum = 0, p[3] = {0,0,0}, f[3] = {0,0,0}, ab = 0; for(size_t c=0;c<nc;++c){ double v = w[i*nc+c]; sum += v; ab += std::fabs(v); for(int d=0;d<3;++d){ p[d] += v*cx[c*3+d]; f[d] += v*(b[d]+A[d*3]*cx[c*3]+A[d*3+1]*cx[c*3+1]+A[d*3+2]*cx[c*3+2]); } }
    if( !CK(std::fabs(sum) > 1e-3*ab && std::isfinite(sum), "weights_vanish", "%g of %g", sum, ab) ) return; if( sum < 0 ) neg = true;
    for(int d=0;d<3;++d){ CKN(p[d]/sum, q[i*3+d], 1e-6*s, "reproduces_point", "cage %d vertices %zu", k, nc); CKN(f[d]/sum, b[d]+A[d*3]*q[i*3]+A[d*3+1]*q[i*3+1]+A[d*3+2]*q[i*3+2], 1e-5*(1+s)*4, "reproduces_affine", ""); } ctx.count("cage_points"); }
  if( neg ) ctx.count("inside_out_cages");
  // reduced coordinates are the same weights times the reduction
  unsigned nd = rng.irange(1,5); V D(nd*nc); for(double& a : D) a = rng.gauss(); V r = dfm2::ComputeMeanValueCoordinateReduced<C3>(q, cx, ct, nd, D); for(int i=0;i<6;++i) for(unsigned d=0;d<nd;++d){ double e = 0, ab = 0; for(size_t c=0;c<nc;++c){ e += D[d*nc+c]*w[i*nc+c]; ab += std::fabs(D[d*nc+c]*w[i*nc+c]); } CKN(r[i*nd+d], e, 1e-11*(1+ab), "reduced", ""); }
  // a single triangle: the coordinates do not depend on the order of the corners
  C3 v[3]; for(auto& a : v) a = C3(rng.gauss(),rng.gauss(),rng.gauss())*s; double w0[3], w1[3]; dfm2::MeanValueCoordinate_Triangle<C3>(w0,v[0],v[1],v[2]); dfm2::MeanValueCoordinate_Triangle<C3>(w1,v[1],v[2],v[0]); for(int i=0;i<3;++i) CKN(w1[i], w0[(i+1)%3], 1e-6*(std::fabs(w0[0])+std::fabs(w0[1])+std::fabs(w0[2])), "corner_order", ""); dfm2::MeanValueCoordinate_Triangle<C3>(w1,v[1],v[0],v[2]); CKN(w1[2], -w0[2], 1e-6*(std::fabs(w0[0])+std::fabs(w0[1])+std::fabs(w0[2])), "orientation", "");
  ctx.sample(vh::fmt("cage %d vertices=%zu scale=%g", k, nc, s));
}
VH_FAMILY(polygon, 600, 10000){
  Rng& rng = ctx.rng; int n = rng.irange(3,9); V P; bool cw = rng.chance(0.3), convex = rng.chance(0.5); double s = std::exp(rng.uni(-2,2)), ox = rng.uni(-3,3), oy = rng.uni(-3,3); for(int i=0;i<n;++i){ double a = 6.283185307*(i+0.3*rng.u01())/n, r = convex ? 1 : rng.uni(.5,1.5); if( cw ) a = -a; P.push_back(ox+s*r*std::cos(a)); P.push_back(oy+s*r*std::sin(a)); }
  double x, y; int where = rng.irange(0,3); int e = rng.irange(0,n-1); double tt = rng.uni(.1,.9);
  // a point inside: convex combination of the centre and a boundary point (the polygons are star shaped about the origin)
  double bx = (1-tt)*P[e*2]+tt*P[((e+1)%n)*2], by = (1-tt)*P[e*2+1]+tt*P[((e+1)%n)*2+1]; double f = where==1 ? 1 : rng.uni(0.05,.9); if( where==2 ){ bx = P[e*2]; by = P[e*2+1]; f = 1; } x = ox+f*(bx-ox); y = oy+f*(by-oy);
  if( !convex && n == 3 && where != 1 && where != 2 && f < .05 ) return;
  V w(n, 77.0); dfm2::MeanValueCoordinate_Polygon2<dfm2::CVec2d>(w.data(), x, y, P.data(), n); ctx.sig(vh::Hash().vd(P).d(x).d(y).h); double sum = 0, px = 0, py = 0, mn = 0; for(int i=0;i<n;++i){ sum += w[i]; px += w[i]*P[i*2]; py += w[i]*P[i*2+1]; mn = std::min(mn,w[i]); }
  if( !CK(std::isfinite(sum), "finite", "where %d", where) ) return;
  double gap = std::min(1.0,0.3); (void)gap; double tol = where==1 ? 1e-4 : 1e-7; if( n == 3 ){ } CKN(sum, 1.0, tol, "partition_of_unity", "where %d", where); CKN(px, x, tol*(s+3), "reproduces_point2", "where %d n=%d cw %d convex %d", where, n, cw, convex); CKN(py, y, tol*(s+3), "reproduces_point2", "where %d", where);
  if( convex && n > 3 ) CK(mn > -1e-6, "negative_in_convex", "%g", mn); if( where==2 ) CKN(w[e], 1.0, 1e-9, "vertex", ""); ctx.count(where==1 ? "poly_edge" : where==2 ? "poly_vertex" : "poly_inside");
  if( convex && where == 0 && n > 3 ){ V xyw; double val = 0; for(int i=0;i<n;++i){ double z = rng.gauss(); xyw.push_back(P[i*2]); xyw.push_back(P[i*2+1]); xyw.push_back(z); val += w[i]*z; } CKN((dfm2::MeanValueCoordinate_Polygon2<dfm2::CVec2d>(xyw, std::array<double,2>{x,y})), val, 1e-6, "interpolated_value", ""); ctx.count("poly_value"); }
}

// ------------------------------------------------- polylines
VH_FAMILY(polyline_rod, 150, 2500){
  Rng& rng = ctx.rng; int n = rng.irange(4,14); typedef std::array<float,2> F2; std::vector<F2> v(n); double el = rng.uni(.02,.3), sb = std::exp(rng.uni(-8,-3)); double th = rng.uni(-3,3); bool straight = rng.chance(0.4);
  double x = rng.uni(-1,1), y = rng.uni(-1,1); for(int i=0;i<n;++i){ v[i] = {(float)x,(float)y}; if( !straight ) th += rng.uni(-.3,.3); x += el*std::cos(th); y += el*std::sin(th); } auto v0 = v; ctx.sig(vh::Hash().d(x).d(y).d(el).h);
  dfm2::LinearSystemSolver_BlockPentaDiagonal<2> sp; unsigned idx = rng.irange(0,n-1); std::array<double,2> tg = {v[idx][0],v[idx][1]};
  if( straight ){ auto z = v; DragPolylineElastic_Rod2(z, sp, idx, tg, el, sb); for(int i=0;i<n;++i) for(int d=0;d<2;++d) CKN(z[i][d], v[i][d], 1e-5, "rest_moved", "rod n=%d", n); ctx.count("rod_rest"); }
  tg[0] += el*rng.uni(-2,2); tg[1] += el*rng.uni(-2,2); double far0 = 0; (void)far0;
  for(int k=0;k<rng.irange(1,30);++k){ DragPolylineElastic_Rod2(v, sp, idx, tg, el, sb); CK(v[idx][0]==(float)tg[0] && v[idx][1]==(float)tg[1], "handle", "rod"); for(auto& p : v) if( !(std::fabs(p[0])<1e3 && std::fabs(p[1])<1e3) ){ CK(false, "diverged", "rod"); return; } if( rng.chance(0.1) ){ idx = rng.irange(0,n-1); tg = {v[idx][0]+el*rng.uni(-1,1), v[idx][1]+el*rng.uni(-1,1)}; } }
  // left alone with the handle held, the chain returns to its edge length
  for(int k=0;k<400;++k) DragPolylineElastic_Rod2(v, sp, idx, tg, el, sb*0.01); double e = 0; for(int i=0;i+1<n;++i) e = std::max(e,std::fabs(std::hypot(v[i+1][0]-v[i][0],v[i+1][1]-v[i][1])-el)); CK(e < 0.25*el, "edge_length", "%g of %g n=%d", e, el, n); ctx.count("rod_drag");
  std::vector<F2> two(2, F2{1.f,2.f}); DragPolylineElastic_Rod2(two, sp, 0, {5,5}, el, sb); CK(two[0][0]==1.f && two[1][1]==2.f, "short_polyline", "");
}
VH_FAMILY(polyline_beam, 200, 3000){
  Rng& rng = ctx.rng; int n = rng.irange(2,12); typedef std::array<double,2> D2; std::vector<D2> v(n); double th = rng.uni(-3,3), x = rng.uni(-1,1), y = rng.uni(-1,1); for(int i=0;i<n;++i){ v[i] = {x,y}; th += rng.uni(-.4,.4); double l = rng.uni(.5,1.5); x += l*std::cos(th); y += l*std::sin(th); }
  unsigned ip = rng.irange(1,n-1); dfm2::PolylineElasticEdit2 ed; double X = rng.gauss(), Y = rng.gauss(); ed.Initialize(v, ip, X, Y); auto v0 = v; ctx.sig(vh::Hash().d(x).d(y).u(ip).h); std::vector<D2> w; ed.Drag(w, X, Y); if( !CK(w.size()==v.size(), "size", "") ) return; double L = 0; for(int i=0;i+1<n;++i) L += std::hypot(v[i+1][0]-v[i][0],v[i+1][1]-v[i][1]);
  for(int i=0;i<n;++i) for(int d=0;d<2;++d) CKN(w[i][d], v0[i][d], 1e-8*L, "rest_moved", "beam node %d", i); double dx = rng.gauss(), dy = rng.gauss(); std::vector<D2> w1, w2, w3; ed.Drag(w1, X+dx, Y+dy);
  for(int d=0;d<2;++d){ CKN(w1[ip][d], v0[ip][d]+(d?dy:dx), 1e-9*L, "handle", "beam"); CKN(w1[0][d], v0[0][d], 1e-9*L, "fixed_end", "beam"); }
  ed.Drag(w2, X+dx, Y+dy); for(int i=0;i<n;++i) for(int d=0;d<2;++d) CKN(w2[i][d], w1[i][d], 2e-5*L, "not_static", "beam node %d of %d", i, n); ed.Drag(w3, X+3*dx, Y+3*dy); for(int i=0;i<n;++i) for(int d=0;d<2;++d) CKN(w3[i][d]-v0[i][d], 3*(w1[i][d]-v0[i][d]), 1e-4*L, "not_linear", "beam"); ed.Drag(w3, X, Y); for(int i=0;i<n;++i) for(int d=0;d<2;++d) CKN(w3[i][d], v0[i][d], 1e-4*L, "does_not_return", "beam");
  // the dangling part beyond the handle follows without strain
  for(unsigned i=ip;i+1<(unsigned)n;++i){ double l0 = std::hypot(v0[i+1][0]-v0[i][0],v0[i+1][1]-v0[i][1]); double ex = (v0[i+1][0]-v0[i][0])/l0, ey = (v0[i+1][1]-v0[i][1])/l0; double du = (w1[i+1][0]-v0[i+1][0]-w1[i][0]+v0[i][0])*ex+(w1[i+1][1]-v0[i+1][1]-w1[i][1]+v0[i][1])*ey; CKN(du, 0.0, 1e-4*L, "free_end_stretched", "beam"); ctx.count("dangling"); } ctx.count("beam_drag");
}
