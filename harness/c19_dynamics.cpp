// C19: position based dynamics, rigid bodies, fluid grid, hair and cloth steps against conservation laws
#include <iostream>
#include "../lib/vh.h"
#include <array>
#include <cmath>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/mat2.h"
#include "delfem2/mat3.h"
#include "delfem2/pbd_geo3.h"
#include "delfem2/pbd_stvk.h"
#include "delfem2/pbd_bending_for_dtri.h"
#include "delfem2/dtri2_v2dtri.h"
#include "delfem2/rgd_v2m3.h"
#include "delfem2/kinetic_damping.h"
#include "delfem2/fdm_stablefluids.h"
#include "delfem2/jagarray.h"
#include "delfem2/msh_topology_uniform.h"
#include "delfem2/hair_darboux_util.h"
#include "delfem2/hair_darboux_solver.h"
#include "delfem2/hair_darboux_collision.h"
#include "delfem2/cloth_internal.h"

using namespace vh;
typedef std::vector<double> V;
typedef std::array<double,3> D3;
static D3 P3(const double* x, size_t i){ return {x[i*3],x[i*3+1],x[i*3+2]}; }
static D3 operator-(const D3& a, const D3& b){ return {a[0]-b[0],a[1]-b[1],a[2]-b[2]}; }
static D3 cross(const D3& a, const D3& b){ return {a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]}; }
static double dot(const D3& a, const D3& b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
static double nrm(const D3& a){ return std::sqrt(dot(a,a)); }
static void rotmat(Rng& rng, double R[9]){
  double q[4], s = 0; for(double& v : q){ v = rng.gauss(); s += v*v; } s = 1/std::sqrt(s); for(double& v : q) v *= s;
  double x=q[0],y=q[1],z=q[2],w=q[3];
  double M[9] = {1-2*(y*y+z*z),2*(x*y-w*z),2*(x*z+w*y),2*(x*y+w*z),1-2*(x*x+z*z),2*(y*z-w*x),2*(x*z-w*y),2*(y*z+w*x),1-2*(x*x+y*y)};
  std::copy(M,M+9,R);
}
static D3 mul(const double R[9], const D3& v){ return {R[0]*v[0]+R[1]*v[1]+R[2]*v[2],R[3]*v[0]+R[4]*v[1]+R[5]*v[2],R[6]*v[0]+R[7]*v[1]+R[8]*v[2]}; }
static D3 com(const double* x, size_t n){ D3 c{0,0,0}; for(size_t i=0;i<n;++i) for(int d=0;d<3;++d) c[d] += x[i*3+d]/n; return c; }
struct Quiet { std::streambuf* b; std::ostringstream s; Quiet(){ b = std::cout.rdbuf(s.rdbuf()); } ~Quiet(){ std::cout.rdbuf(b); } };

// ------------------------------------------------- predictor / corrector
VH_FAMILY(pbd_step, 400, 6000){
  Rng& rng = ctx.rng; int np = rng.irange(1,12);
  V x(np*3), v(np*3), xt; for(double& a : x) a = rng.uni(-3,3); for(double& a : v) a = rng.gauss();
  std::vector<int> bc(np); for(int& b : bc) b = rng.chance(0.3) ? rng.pick({1,2,-1}) : 0;
  V x0 = x; ctx.sig(vh::Hash().vd(x).vd(v).h);
  for(int s=0;s<rng.irange(1,8);++s){
    double dt = std::exp(rng.uni(-6,0)), g[3] = {rng.gauss(),rng.gauss(),rng.gauss()*9};
    V xp = x, vp = v;
    if( rng.chance(0.5) ) xt.assign(rng.irange(0,50), 1.e9);
    delfem2::PBD_Pre3D(xt, dt, g, x, v, bc);
    if( !CK(xt.size()==x.size(), "predictor_size", "%zu", xt.size()) ) return;
    CK(x==xp && v==vp, "predictor_changes_input", "");
    for(int i=0;i<np*3;++i){
      double e = bc[i/3] ? x[i] : x[i] + dt*(v[i] + dt*g[i%3]);
      CKN(xt[i], e, 1e-12*(1+std::fabs(e)), "predictor", "i=%d fixed=%d", i, bc[i/3]);
    }
    // any projection may have touched the temporary positions, those of fixed points too
    for(double& a : xt) if( rng.chance(0.4) ) a += rng.uni(-0.3,0.3);
    delfem2::PBD_Post(x, v, dt, xt, bc);
    for(int i=0;i<np*3;++i){
      if( bc[i/3] ){ CK(x[i]==x0[i], "fixed_point_moved", "%g %g", x[i], x0[i]); CK(v[i]==vp[i], "fixed_velocity", ""); ctx.count("fixed_dof"); }
      else { CKN(x[i], xt[i], 0.0, "position", ""); CKN(v[i], (xt[i]-xp[i])/dt, 1e-9*(1+std::fabs((xt[i]-xp[i])/dt)), "velocity", ""); ctx.count("free_dof"); }
    }
  }
  ctx.sample(vh::fmt("np=%d", np));
}

// ------------------------------------------------- three constraints
VH_FAMILY(const3, 1500, 30000){
  Rng& rng = ctx.rng; int n = rng.irange(1,6), nall = n + rng.irange(0,4);
  std::vector<unsigned int> all(nall); for(int i=0;i<nall;++i) all[i] = i;
  rng.shuffle(all); std::vector<unsigned int> ip(all.begin(), all.begin()+n);
  V x(nall*3), m(n), J(3*n*3), c0(3);
  for(double& a : x) a = rng.uni(-2,2); for(double& a : m) a = std::exp(rng.uni(-3,3));
  for(double& a : J) a = rng.gauss(); for(double& a : c0) a = rng.gauss();
  bool inv = n >= 2 && rng.chance(0.6);
  if( inv ) for(int c=0;c<3;++c) for(int d=0;d<3;++d){ double s = 0; for(int i=0;i<n;++i) s += J[c*n*3+i*3+d]; for(int i=0;i<n;++i) J[c*n*3+i*3+d] -= s/n; }
  double ratio = rng.chance(0.4) ? 1.0 : rng.uni(0,1);
  ctx.sig(vh::Hash().vd(x).vd(J).vd(m).h);
  double C[3]; for(int c=0;c<3;++c) C[c] = c0[c];
  // reference: delta = -M^-1 J^T (J M^-1 J^T)^-1 C
  double A[9] = {0}; for(int a=0;a<3;++a) for(int b=0;b<3;++b) for(int i=0;i<n*3;++i) A[a*3+b] += J[a*n*3+i]*J[b*n*3+i]/m[i/3];
  double det = A[0]*(A[4]*A[8]-A[5]*A[7])-A[1]*(A[3]*A[8]-A[5]*A[6])+A[2]*(A[3]*A[7]-A[4]*A[6]);
  double tr = A[0]+A[4]+A[8]; if( !(det > 1e-4*tr*tr*tr) ){ ctx.count("const3_skipped"); return; }
  double L[3]; for(int k=0;k<3;++k){ double B[9]; std::copy(A,A+9,B); for(int a=0;a<3;++a) B[a*3+k] = C[a];
    L[k] = (B[0]*(B[4]*B[8]-B[5]*B[7])-B[1]*(B[3]*B[8]-B[5]*B[6])+B[2]*(B[3]*B[7]-B[4]*B[6]))/det; }
  V y = x; delfem2::PBD_Update_Const3(y.data(), n, 3, m.data(), C, J.data(), ip.data(), ratio);
  std::vector<char> touched(nall,0); D3 mom{0,0,0};
  for(int i=0;i<n;++i){ touched[ip[i]] = 1; for(int d=0;d<3;++d){
    double e = 0; for(int c=0;c<3;++c) e -= ratio/m[i]*J[c*n*3+i*3+d]*L[c];
    double g = y[ip[i]*3+d]-x[ip[i]*3+d]; mom[d] += m[i]*g;
    CKN(g, e, 1e-9*(1+std::fabs(e)), "least_motion", "node %d dim %d", i, d); } }
  for(int i=0;i<nall;++i) if( !touched[i] ) CK(y[i*3]==x[i*3]&&y[i*3+1]==x[i*3+1]&&y[i*3+2]==x[i*3+2], "other_point", "%d", i);
  if( inv ){ CK(nrm(mom) < 1e-8, "centre_of_mass", "%g", nrm(mom)); ctx.count("invariant_constraints"); }
  for(int c=0;c<3;++c){ double r = C[c]; for(int i=0;i<n;++i) for(int d=0;d<3;++d) r += J[c*n*3+i*3+d]*(y[ip[i]*3+d]-x[ip[i]*3+d]);
    CKN(r, (1-ratio)*C[c], 1e-9, "violation", "constraint %d", c); }
  ctx.count("const3");
  ctx.sample(vh::fmt("n=%d ratio=%g masses=%s", n, ratio, vh::str(m).c_str()));
}

// ------------------------------------------------- triangle strain
static void green(double c[3], const double P[3][2], const double p[3][3]){
  double a = P[1][0]-P[0][0], b = P[2][0]-P[0][0], cc = P[1][1]-P[0][1], d = P[2][1]-P[0][1], det = a*d-b*cc;
  double F[3][2];
  for(int i=0;i<3;++i){ double u = p[1][i]-p[0][i], v = p[2][i]-p[0][i]; F[i][0] = (u*d - v*cc)/det; F[i][1] = (-u*b + v*a)/det; }
  c[0] = c[1] = c[2] = 0; for(int i=0;i<3;++i){ c[0] += F[i][0]*F[i][0]; c[1] += F[i][1]*F[i][1]; c[2] += F[i][0]*F[i][1]; }
  c[0] = (c[0]-1)*0.5; c[1] = (c[1]-1)*0.5; c[2] *= 0.5;
}
VH_FAMILY(tristrain, 800, 15000){
  Rng& rng = ctx.rng; double s = std::exp(rng.uni(-2,2));
  std::vector<std::array<double,2>> P; std::vector<std::array<unsigned int,3>> T;
  int nx = rng.irange(1,3), ny = rng.irange(1,3); bool single = rng.chance(0.5);
  if( single ){ for(;;){ P.clear(); for(int i=0;i<3;++i) P.push_back({s*rng.uni(-1,1),s*rng.uni(-1,1)});
      double ar = (P[1][0]-P[0][0])*(P[2][1]-P[0][1])-(P[2][0]-P[0][0])*(P[1][1]-P[0][1]); if( std::fabs(ar) > 0.3*s*s ) break; } T = {{0,1,2}}; }
  else { for(int j=0;j<=ny;++j) for(int i=0;i<=nx;++i) P.push_back({s*(i+rng.uni(-.2,.2)),s*(j+rng.uni(-.2,.2))});
    for(int j=0;j<ny;++j) for(int i=0;i<nx;++i){ unsigned a = j*(nx+1)+i; T.push_back({a,a+1,a+nx+2}); T.push_back({a,a+nx+2,a+nx+1}); } }
  size_t n = P.size(); V x(n*3); double R[9]; rotmat(rng,R); D3 t{rng.uni(-3,3),rng.uni(-3,3),rng.uni(-3,3)};
  for(size_t i=0;i<n;++i){ D3 q = mul(R,{P[i][0],P[i][1],0}); for(int d=0;d<3;++d) x[i*3+d] = q[d]+t[d]; }
  V r = x; delfem2::PBD_TriStrain(r.data(), n, T, P);
  for(size_t i=0;i<n*3;++i) CKN(r[i], x[i], 1e-11*(s+4), "rest_moved", "%zu", i);
  double amp = rng.pick({0.02,0.1,0.2}); for(double& a : x) a += s*amp*rng.uni(-1,1);
  ctx.sig(vh::Hash().vd(x).h);
  V y = x; delfem2::PBD_TriStrain(y.data(), n, T, P);
  D3 c0 = com(x.data(),n), c1 = com(y.data(),n);
  CK(nrm(c1-c0) < 1e-11*(s+4), "centre_of_mass", "%g", nrm(c1-c0)); ctx.count("tristrain");
  // one element after the other: exact angular momentum and decreasing violation
  V z = x;
  for(const auto& tri : T){
    std::vector<std::array<unsigned int,3>> T1 = {tri}; V w = z; delfem2::PBD_TriStrain(w.data(), n, T1, P);
    double PP[3][2], p0[3][3], p1[3][3]; D3 am{0,0,0}; double mag = 0;
    for(int k=0;k<3;++k){ for(int d=0;d<2;++d) PP[k][d] = P[tri[k]][d]; for(int d=0;d<3;++d){ p0[k][d] = z[tri[k]*3+d]; p1[k][d] = w[tri[k]*3+d]; }
      D3 dl = P3(w.data(),tri[k])-P3(z.data(),tri[k]), a = cross(P3(z.data(),tri[k])-t, dl); mag += nrm(dl); for(int d=0;d<3;++d) am[d] += a[d]; }
    CK(nrm(am) <= 1e-10*(mag+1e-6)*(s+4), "angular_momentum", "%g of %g", nrm(am), mag);
    double C0[3], C1[3]; green(C0,PP,p0); green(C1,PP,p1);
    double v0 = std::sqrt(C0[0]*C0[0]+C0[1]*C0[1]+C0[2]*C0[2]), v1 = std::sqrt(C1[0]*C1[0]+C1[1]*C1[1]+C1[2]*C1[2]);
    if( v0 < 0.15 ){ CK(v1 <= (v0 < 0.08 ? 0.5 : 1.0)*v0 + 1e-12, "violation_grew", "%g -> %g", v0, v1); ctx.count("strain_reduced"); }
    z = w;
  }
  for(size_t i=0;i<n*3;++i) CKN(z[i], y[i], 1e-12*(s+4), "order", "");
  ctx.sample(vh::fmt("n=%zu tris=%zu amp=%g", n, T.size(), amp));
}

// ------------------------------------------------- bending
VH_FAMILY(bend, 600, 10000){
  Rng& rng = ctx.rng; double s = std::exp(rng.uni(-2,2)); bool hinge = rng.chance(0.6);
  std::vector<delfem2::CVec2d> P; std::vector<unsigned int> T; int nx = rng.irange(1,3), ny = rng.irange(1,3);
  if( hinge ){ P = {{0,rng.uni(0.3,1)},{1,0}, {0,0},{0,0}}; P.clear();
    P.emplace_back(-s*rng.uni(.3,1),s*rng.uni(-.3,.3)); P.emplace_back(0,-s*rng.uni(.3,1)); P.emplace_back(s*rng.uni(.3,1),s*rng.uni(-.3,.3)); P.emplace_back(s*rng.uni(-.2,.2),s*rng.uni(.3,1));
    T = {0,1,3, 1,2,3}; }
  else { for(int j=0;j<=ny;++j) for(int i=0;i<=nx;++i) P.emplace_back(s*(i+rng.uni(-.2,.2)),s*(j+rng.uni(-.2,.2)));
    for(int j=0;j<ny;++j) for(int i=0;i<nx;++i){ unsigned a = j*(nx+1)+i; T.insert(T.end(),{a,a+1,a+nx+2,a,a+nx+2,a+nx+1}); } }
  size_t n = P.size();
  std::vector<delfem2::CDynPntSur> dp; std::vector<delfem2::CDynTri> dt; delfem2::InitializeMesh(dp, dt, T.data(), T.size()/3, n);
  V x(n*3); double R[9]; rotmat(rng,R); D3 t{rng.uni(-3,3),rng.uni(-3,3),rng.uni(-3,3)};
  for(size_t i=0;i<n;++i){ D3 q = mul(R,{P[i].x,P[i].y,0}); for(int d=0;d<3;++d) x[i*3+d] = q[d]+t[d]; }
  V r = x; double ratio = rng.chance(0.5) ? 1.0 : rng.uni(0,1); delfem2::PBD_Bend(r.data(), n, dt, P, ratio);
  for(size_t i=0;i<n*3;++i) CKN(r[i], x[i], 1e-10*(s+4), "rest_moved", "%zu", i);
  double amp = rng.pick({0.05,0.3,1.0}); for(double& a : x) a += s*amp*rng.uni(-1,1);
  ctx.sig(vh::Hash().vd(x).h);
  V y = x; delfem2::PBD_Bend(y.data(), n, dt, P, ratio);
  CK(nrm(com(y.data(),n)-com(x.data(),n)) < 1e-11*(s+4), "centre_of_mass", ""); ctx.count("bend");
  if( hinge ){
    D3 am{0,0,0}; double mag = 0; for(size_t i=0;i<n;++i){ D3 dl = P3(y.data(),i)-P3(x.data(),i), a = cross(P3(x.data(),i)-t,dl); mag += nrm(dl); for(int d=0;d<3;++d) am[d] += a[d]; }
    CK(nrm(am) <= 1e-10*(mag+1e-6)*(s+4), "angular_momentum", "%g of %g", nrm(am), mag);
    // deviation from an affine image of the rest plane: the one affine dependency of the four corners
    auto tri = [&](int a,int b,int c){ return (P[b].x-P[a].x)*(P[c].y-P[a].y)-(P[c].x-P[a].x)*(P[b].y-P[a].y); };
    double k[4] = {tri(1,2,3),-tri(0,2,3),tri(0,1,3),-tri(0,1,2)};
    D3 d0{0,0,0}, d1{0,0,0}; for(int i=0;i<4;++i) for(int d=0;d<3;++d){ d0[d] += k[i]*x[i*3+d]; d1[d] += k[i]*y[i*3+d]; }
    for(int d=0;d<3;++d) CKN(d1[d], (1-ratio)*d0[d], 1e-9*s*s*(s+4), "bending_violation", "ratio %g before %g", ratio, d0[d]);
    double a2 = 0, b2 = 0, kk = 0; for(int i=0;i<4;++i){ kk += k[i]*k[i]; b2 += std::pow(nrm(P3(y.data(),i)-P3(x.data(),i)),2); } a2 = ratio*ratio*dot(d0,d0)/kk;
    CKN(b2, a2, 1e-9*(a2+1e-9*s*s), "least_motion", ""); ctx.count("hinges");
  }
  ctx.sample(vh::fmt("n=%zu ratio=%g amp=%g", n, ratio, amp));
}

VH_FAMILY(seam, 800, 10000){
  Rng& rng = ctx.rng; int n = rng.irange(2,8); V x(n*3); for(double& a : x) a = rng.uni(-1,1);
  unsigned a = rng.irange(0,n-1), b = rng.irange(0,n-2); if( b >= a ) ++b;
  double want = rng.pick({0.0, 0.003, 0.0099, 0.0101, 0.02, 0.5});
  D3 dir; double l; do { dir = {rng.gauss(),rng.gauss(),rng.gauss()}; l = nrm(dir); } while( l < 0.1 );
  for(int d=0;d<3;++d) x[b*3+d] = x[a*3+d] + dir[d]/l*want;
  ctx.sig(vh::Hash().vd(x).u(a).u(b).h);
  V y = x; unsigned int line[2] = {a,b}; delfem2::PBD_Seam(y.data(), n, line, 1);
  double d0 = nrm(P3(x.data(),a)-P3(x.data(),b)), d1 = nrm(P3(y.data(),a)-P3(y.data(),b));
  CKN(d1, d0 > 0.01 ? d0-0.01 : 0.0, 1e-12, "gap", "from %g", d0); ctx.count(d0 > 0.01 ? "seam_open" : "seam_closed");
  for(int d=0;d<3;++d) CKN(y[a*3+d]+y[b*3+d], x[a*3+d]+x[b*3+d], 1e-12, "centre_of_mass", "");
  D3 am = cross(P3(x.data(),a), P3(y.data(),a)-P3(x.data(),a)), am2 = cross(P3(x.data(),b), P3(y.data(),b)-P3(x.data(),b));
  for(int d=0;d<3;++d) CKN(am[d], -am2[d], 1e-12, "angular_momentum", "");
  for(int i=0;i<n;++i) if( i != (int)a && i != (int)b ) for(int d=0;d<3;++d) CK(y[i*3+d]==x[i*3+d], "other_point", "");
  // repeated application closes the seam and stays closed
  for(int k=0;k<400 && rng.chance(0.99);++k) delfem2::PBD_Seam(y.data(), n, line, 1);
  if( d0 < 1 ) CK(nrm(P3(y.data(),a)-P3(y.data(),b)) <= d0+1e-12, "gap_grew", "");
}

// ------------------------------------------------- shape matching
VH_FAMILY(rigid, 1200, 20000){
  Rng& rng = ctx.rng; int dim = rng.irange(2,3); int n = rng.irange(dim+1,14); double s = std::exp(rng.uni(-2,2));
  V q(n*dim), x(n*dim); for(double& a : q) a = s*rng.uni(-1,1);
  bool planar = dim == 3 && rng.chance(0.25); if( planar ){ for(int i=0;i<n;++i) q[i*3+2] = 0.3*q[i*3] - 0.2*q[i*3+1]; }
  double R[9]; rotmat(rng,R); if( dim == 2 ){ double th = rng.uni(-3.1,3.1); R[0]=std::cos(th); R[1]=-std::sin(th); R[3]=std::sin(th); R[4]=std::cos(th); }
  double t[3] = {rng.uni(-4,4),rng.uni(-4,4),rng.uni(-4,4)};
  for(int i=0;i<n;++i) for(int d=0;d<dim;++d){ x[i*dim+d] = t[d]; for(int e=0;e<dim;++e) x[i*dim+d] += R[d*3+e]*q[i*dim+e]; }
  // clusters: one, or several that share points
  std::vector<unsigned int> ci = {0}, cl; int nc = rng.chance(0.5) ? 1 : rng.irange(2,4);
  for(int c=0;c<nc;++c){ std::vector<unsigned int> a(n); for(int i=0;i<n;++i) a[i] = i; rng.shuffle(a); int m = rng.irange(dim+1,n); cl.insert(cl.end(),a.begin(),a.begin()+m); ci.push_back((unsigned)cl.size()); }
  std::vector<int> cii(ci.begin(),ci.end()), cll(cl.begin(),cl.end());
  auto run = [&](V& p, double st, const std::vector<unsigned int>& I, const std::vector<unsigned int>& L){
    std::vector<int> I2(I.begin(),I.end()), L2(L.begin(),L.end());
    if( dim == 2 ) delfem2::PBD_ConstProj_Rigid2D(p.data(), st, I.data(), I.size(), L.data(), L.size(), q.data(), n);
    else delfem2::PBD_ConstProj_Rigid3D(p.data(), st, I2.data(), (int)I2.size(), L2.data(), (int)L2.size(), q.data(), n);
  };
  double st = rng.chance(0.5) ? 1.0 : rng.uni(0,1);
  // spread of every cluster must be well conditioned for the best rotation to be unique
  auto spread = [&](const V& p, unsigned c){ // second largest covariance eigenvalue over the largest (crude: via det of 2d / gram)
    V m(dim,0); for(unsigned k=ci[c];k<ci[c+1];++k) for(int d=0;d<dim;++d) m[d] += p[cl[k]*dim+d]/(ci[c+1]-ci[c]);
    double C[9] = {0}; for(unsigned k=ci[c];k<ci[c+1];++k) for(int d=0;d<dim;++d) for(int e=0;e<dim;++e) C[d*3+e] += (p[cl[k]*dim+d]-m[d])*(p[cl[k]*dim+e]-m[e]);
    double tr = C[0]+C[4]+C[8]; double sec = C[0]*C[4]-C[1]*C[1]; if( dim == 3 ) sec += C[0]*C[8]-C[2]*C[2]+C[4]*C[8]-C[5]*C[5];
    return sec/(tr*tr); };
  for(int c=0;c<nc;++c) if( spread(q,c) < 0.03 ){ ctx.count("rigid_skipped"); return; }
  V y = x; run(y, st, ci, cl);
  for(int i=0;i<n*dim;++i) CKN(y[i], x[i], 1e-9*(s+4), "rigid_copy_moved", "dim %d planar %d n=%d", dim, planar, n);
  ctx.count(dim==2 ? "rigid2" : planar ? "rigid3_planar" : "rigid3");
  double amp = rng.pick({0.05,0.2}); for(double& a : x) a += s*amp*rng.uni(-1,1);
  ctx.sig(vh::Hash().vd(x).vd(q).vu(cl).h);
  y = x; run(y, st, ci, cl);
  V m0(dim,0), m1(dim,0);
  // mass of a point cancels only inside a cluster: judge one cluster after the other
  V z = x;
  for(int c=0;c<nc;++c){
    std::vector<unsigned int> I1 = {0,ci[c+1]-ci[c]}, L1(cl.begin()+ci[c], cl.begin()+ci[c+1]); V w = z; run(w, st, I1, L1);
    size_t m = L1.size(); V a(dim,0), b(dim,0), qq(dim,0); for(unsigned v : L1) for(int d=0;d<dim;++d){ a[d] += z[v*dim+d]/m; b[d] += w[v*dim+d]/m; qq[d] += q[v*dim+d]/m; }
    for(int d=0;d<dim;++d) CKN(b[d], a[d], 1e-11*(s+4), "centre_of_mass", "dim %d", dim);
    std::vector<char> in(n,0); for(unsigned v : L1) in[v] = 1;
    for(int i=0;i<n;++i) if( !in[i] ) for(int d=0;d<dim;++d) CK(w[i*dim+d]==z[i*dim+d], "other_point", "");
    // best fit: sum (z-a) x (goal-a) = 0 where goal = (w-(1-st) z)/st, and no reflection
    if( st > 0.05 ){
      D3 am{0,0,0}; double al2 = 0; double cov = 0, err = 0;
      for(unsigned v : L1){ D3 u{0,0,0}, g{0,0,0}; for(int d=0;d<dim;++d){ u[d] = z[v*dim+d]-a[d]; g[d] = (w[v*dim+d]-(1-st)*z[v*dim+d])/st-a[d]; }
        D3 k = cross(u,g); for(int d=0;d<3;++d) am[d] += k[d]; al2 += dot(g,g); cov += dot(u,g); }
      CK(nrm(am) <= 1e-7*(al2+1e-3*s*s), "not_best_rotation", "dim %d planar %d: torque %g of %g", dim, planar, nrm(am), al2);
      CK(cov > 0, "flipped", "%g", cov);
      for(unsigned v1 : L1) for(unsigned v2 : L1) if( v1 < v2 ){ double l0 = 0, l1 = 0; for(int d=0;d<dim;++d){ double e = q[v1*dim+d]-q[v2*dim+d]; l0 += e*e;
        e = ((w[v1*dim+d]-(1-st)*z[v1*dim+d])-(w[v2*dim+d]-(1-st)*z[v2*dim+d]))/st; l1 += e*e; } err = std::max(err, std::fabs(std::sqrt(l0)-std::sqrt(l1))); }
      CK(err < 1e-8*(s+1), "goal_not_rigid", "dim %d: %g", dim, err);
      if( dim == 3 && !planar ){ // orientation of the goal
        for(size_t k=0;k+3<m;++k){ auto vol = [&](auto f){ D3 e[3]; for(int j=0;j<3;++j) for(int d=0;d<3;++d) e[j][d] = f(L1[k+1+j],d)-f(L1[k],d); return dot(e[0],cross(e[1],e[2])); };
          double v0 = vol([&](unsigned i,int d){ return q[i*3+d]; }), v1 = vol([&](unsigned i,int d){ return (w[i*3+d]-(1-st)*z[i*3+d])/st; });
          CKN(v1, v0, 1e-6*s*s*s+1e-7*(s+4)*s*s, "mirrored", ""); } }
    }
    z = w; ctx.count("clusters");
  }
  for(int i=0;i<n*dim;++i) CKN(y[i], z[i], 1e-10*(s+4), "cluster_order", "");
  ctx.sample(vh::fmt("dim=%d n=%d clusters=%d stiffness=%g", dim, n, nc, st));
}

// ------------------------------------------------- kinetic damping
VH_FAMILY(damper, 300, 5000){
  Rng& rng = ctx.rng; delfem2::CKineticDamper dmp; V v(3*rng.irange(1,5)); V hist;
  std::vector<double> f; int mode = rng.irange(0,2);
  for(int k=0;k<rng.irange(5,60);++k){
    double e = mode==0 ? std::fabs(std::sin(0.2*k))+0.1 : mode==1 ? 1+0.1*k : rng.uni(0,2);
    for(double& a : v) a = rng.gauss(); double s = 0; for(double a : v) s += a*a; for(double& a : v) a *= std::sqrt(e/s);
    V w = v; dmp.Damp(w); double E = delfem2::EnergyKinetic(v.data(), v.size()/3); CKN(E, e, 1e-12*(1+e), "energy", "");
    hist.push_back(E); bool zero = true; for(double a : w) if( a != 0 ) zero = false;
    size_t n = hist.size(); bool peak = false;
    if( n >= 4 ) peak = hist[n-3] > hist[n-4] + 1e-9 ? false : false;
    // documented: velocities are removed when the energy passed a maximum
    bool any = n >= 3; double a = any ? hist[n-3] : 0, b = any ? hist[n-2] : 0, c = hist[n-1];
    if( n >= 4 && b > a && c < b ) peak = true;
    // the filter may look back one step further: accept either alignment but demand a maximum in the last four values
    bool peak2 = n >= 4 && hist[n-3] > hist[n-4] && hist[n-2] < hist[n-3];
    if( zero ){ CK(peak || peak2, "stopped_without_peak", "step %zu", n); ctx.count("stopped"); }
    else { CK(w==v, "velocity_changed", ""); ctx.count("kept"); if( peak ) CK(peak2 || n < 4 || false, "peak_missed", "step %zu: %g %g %g", n, a, b, c); }
    if( zero && e > 0 ){ }
  }
  ctx.sig(vh::Hash().vd(hist).h);
}

// ------------------------------------------------- rigid bodies in the plane
using delfem2::CVec2d; using delfem2::CRigidState2;
static double crs(const CVec2d& a, const CVec2d& b){ return a.x*b.y-a.y*b.x; }
static CRigidState2 body(Rng& rng, bool fix){
  CRigidState2 b; b.is_fix = fix; b.mass = std::exp(rng.uni(-1,1)); b.I = std::exp(rng.uni(-2,1)); b.posl = CVec2d(rng.uni(-1,1),rng.uni(-1,1));
  b.posg = CVec2d(rng.uni(-3,3),rng.uni(-3,3)); b.theta = rng.uni(-3,3); b.velo = CVec2d(rng.gauss(),rng.gauss()); b.omega = rng.gauss();
  b.posg_tmp = b.posg + CVec2d(rng.uni(-.1,.1),rng.uni(-.1,.1)); b.theta_tmp = b.theta + rng.uni(-.1,.1); return b;
}
VH_FAMILY(impulse, 1500, 30000){
  Rng& rng = ctx.rng; bool fa = rng.chance(0.2), fb = !fa && rng.chance(0.25);
  CRigidState2 A = body(rng,fa), B = body(rng,fb), A0 = A, B0 = B;
  double th = rng.uni(-3.2,3.2); CVec2d n(std::cos(th),std::sin(th)); double pen = rng.uni(0,0.2);
  CVec2d pA(rng.uni(-3,3),rng.uni(-3,3)), pB = pA + pen*n;
  ctx.sig(vh::Hash().d(pA.x).d(pA.y).d(th).d(pen).h);
  double lam = delfem2::rgd_v2m3::ResolveContact(A, B, pen, pA, pB, n);
  CK(lam >= 0, "attracting_contact", "%g", lam);
  auto disp = [&](const CRigidState2& r, const CRigidState2& r0, const CVec2d& p){ double dth = r.theta_tmp-r0.theta_tmp; CVec2d a = p-r0.posg; return (r.posg_tmp-r0.posg_tmp) + CVec2d(-a.y*dth, a.x*dth); };
  CVec2d dA = disp(A,A0,pA), dB = disp(B,B0,pB);
  CKN((dA-dB).dot(n), pen, 1e-9, "penetration_resolved", "fixed %d %d", fa, fb);
  double px = (fa?0:A.mass*(A.posg_tmp.x-A0.posg_tmp.x)), py = (fa?0:A.mass*(A.posg_tmp.y-A0.posg_tmp.y)), L = 0;
  auto ang = [&](const CRigidState2& r, const CRigidState2& r0){ return r.mass*crs(r0.posg, r.posg_tmp-r0.posg_tmp) + r.I*(r.theta_tmp-r0.theta_tmp); };
  CKN(std::hypot(px,py), fa ? 0.0 : lam, 1e-9*(1+lam), "impulse_size", "");
  if( !fa && !fb ){
    px += B.mass*(B.posg_tmp.x-B0.posg_tmp.x); py += B.mass*(B.posg_tmp.y-B0.posg_tmp.y); L = ang(A,A0)+ang(B,B0);
    CK(std::hypot(px,py) < 1e-11, "linear_momentum", "%g %g", px, py); CK(std::fabs(L) < 1e-11, "angular_momentum", "%g", L); ctx.count("contact_free");
  }
  auto same = [&](const CRigidState2& a, const CRigidState2& b){ return a.posg_tmp.x==b.posg_tmp.x && a.posg_tmp.y==b.posg_tmp.y && a.theta_tmp==b.theta_tmp && a.velo.x==b.velo.x && a.velo.y==b.velo.y && a.omega==b.omega && a.posg.x==b.posg.x; };
  if( fa ){ CK(same(A,A0), "fixed_body", ""); ctx.count("contact_fixed"); } if( fb ){ CK(same(B,B0), "fixed_body", ""); ctx.count("contact_fixed"); }
  // friction at one point
  if( fa ){ A.velo = CVec2d(0,0); A.omega = 0; } if( fb ){ B.velo = CVec2d(0,0); B.omega = 0; } A0 = A; B0 = B;
  CVec2d tg(-n.y,n.x); auto vel = [&](const CRigidState2& r, const CVec2d& p){ CVec2d a = p-r.posg; return r.velo + CVec2d(-a.y*r.omega, a.x*r.omega); };
  double slip = (vel(A,pA)-vel(B,pA)).dot(tg), imp = rng.chance(0.3) ? 0.0 : std::exp(rng.uni(-4,2));
  delfem2::rgd_v2m3::AddFriction(A, B, pA, pA, tg, slip, imp);
  double slip1 = (vel(A,pA)-vel(B,pA)).dot(tg);
  double deno = 0; auto add = [&](const CRigidState2& r){ if( r.is_fix ) return; double k = crs(pA-r.posg,tg); deno += 1/r.mass + k*k/r.I; }; add(A); add(B);
  double red = std::min(std::fabs(slip), imp*deno), want = slip - (slip<0?-red:red);
  CKN(slip1, want, 1e-9*(1+std::fabs(slip)), "friction_slip", "slip %g impulse %g deno %g", slip, imp, deno); ctx.count(red < std::fabs(slip) ? "sliding" : "sticking");
  if( fa ) CK(same(A,A0), "fixed_body_friction", ""); if( fb ) CK(same(B,B0), "fixed_body_friction", "");
  auto ke = [&](const CRigidState2& r){ return r.is_fix ? 0.0 : 0.5*r.mass*(r.velo.x*r.velo.x+r.velo.y*r.velo.y)+0.5*r.I*r.omega*r.omega; };
  CK(ke(A)+ke(B) <= ke(A0)+ke(B0) + 1e-10*(1+ke(A0)+ke(B0)), "friction_adds_energy", "%g -> %g", ke(A0)+ke(B0), ke(A)+ke(B));
  if( !fa && !fb ){
    CVec2d dp = A.mass*(A.velo-A0.velo)+B.mass*(B.velo-B0.velo); CK(dp.norm() < 1e-10, "friction_linear_momentum", "%g", dp.norm());
    double dL = A.mass*crs(A.posg,A.velo-A0.velo)+A.I*(A.omega-A0.omega)+B.mass*crs(B.posg,B.velo-B0.velo)+B.I*(B.omega-B0.omega); CK(std::fabs(dL) < 1e-10, "friction_angular_momentum", "%g", dL);
  }
  ctx.sample(vh::fmt("pen=%g slip=%g impulse=%g fixed=%d%d", pen, slip, imp, fa, fb));
}
static void shape(CRigidState2& b, Rng& rng, double r){
  int n = rng.irange(3,7); b.shape.clear(); double off = rng.uni(0,6);
  if( rng.chance(0.4) ){ double w = r*rng.uni(.5,1), h = r*rng.uni(.5,1); b.shape = {{-w,-h},{w,-h},{w,h},{-w,h}}; }
  else for(int i=0;i<n;++i){ double a = off + 6.28318530718*i/n; b.shape.emplace_back(r*std::cos(a),r*std::sin(a)); }
  CVec2d sh(rng.uni(-1,1),rng.uni(-1,1)); for(auto& p : b.shape) p = p + sh;
  // exact centroid and moment of the polygon, density 1
  double A = 0, cx = 0, cy = 0; size_t m = b.shape.size(); for(size_t i=0;i<m;++i){ auto p = b.shape[i], q = b.shape[(i+1)%m]; double c = crs(p,q); A += c/2; cx += (p.x+q.x)*c/6; cy += (p.y+q.y)*c/6; }
  cx /= A; cy /= A; double I = 0; for(size_t i=0;i<m;++i){ auto p = b.shape[i]-CVec2d(cx,cy), q = b.shape[(i+1)%m]-CVec2d(cx,cy); I += crs(p,q)*(p.dot(p)+p.dot(q)+q.dot(q))/12; }
  b.posl = CVec2d(cx,cy); b.mass = A; b.I = I; b.shape_velo.assign(m, CVec2d(0,0));
}
VH_FAMILY(rigid_step, 200, 3000){
  Rng& rng = ctx.rng; int nb = rng.irange(1,4); std::vector<CRigidState2> S; bool anyfix = rng.chance(0.3);
  for(int i=0;i<nb;++i){ CRigidState2 b = body(rng, anyfix && i == 0); shape(b, rng, rng.uni(.3,.6)); b.posg = CVec2d(1.0*(i%2)+rng.uni(-.02,.02), 1.0*(i/2)+rng.uni(-.02,.02)); S.push_back(b); }
  CVec2d g = rng.chance(0.5) ? CVec2d(0,0) : CVec2d(rng.uni(-1,1),-9.8); double dt = rng.pick({0.001,0.004});
  vh::Hash h; for(auto& b : S) h.d(b.posg.x).d(b.theta).d(b.velo.x).d(b.omega); ctx.sig(h.h);
  int ns = rng.irange(20,120); double M = 0; for(auto& b : S) M += b.mass;
  bool moved_contact = false;
  for(int s=0;s<ns;++s){
    auto S0 = S; delfem2::Steptime_Rgd2(S, dt, g);
    CVec2d p0(0,0), p1(0,0); double L0 = 0, L1 = 0, sp = 0, reach = 0;
    for(int i=0;i<nb;++i){
      if( S[i].is_fix ){ CK(S[i].posg.x==S0[i].posg.x && S[i].posg.y==S0[i].posg.y && S[i].theta==S0[i].theta, "fixed_body_moved", "step %d", s); CK(S[i].velo.x==0&&S[i].velo.y==0&&S[i].omega==0, "fixed_body_velocity", ""); ctx.count("fixed_steps"); continue; }
      CVec2d v0 = S0[i].velo + g*dt;
      p0 = p0 + S0[i].mass*v0; p1 = p1 + S[i].mass*S[i].velo;
      L0 += S0[i].mass*crs(S0[i].posg,v0)+S0[i].I*S0[i].omega; L1 += S[i].mass*crs(S[i].posg,S[i].velo)+S[i].I*S[i].omega;
      sp += S[i].mass*(v0.norm()+S[i].velo.norm()+std::fabs(S0[i].omega)+std::fabs(S[i].omega)); reach = std::max(reach, S[i].velo.norm()+v0.norm()+std::fabs(S[i].omega)+std::fabs(S0[i].omega));
      bool free_flight = (S[i].velo-v0).norm() < 1e-12 && std::fabs(S[i].omega-S0[i].omega) < 1e-12; if( !free_flight ){ moved_contact = true; ctx.count("contact_steps"); }
      if( nb == 1 ){ CK((S[i].velo-v0).norm() < 1e-9 && std::fabs(S[i].omega-S0[i].omega) < 1e-9, "free_flight", ""); CK((S[i].posg-S0[i].posg-dt*S[i].velo).norm() < 1e-12 && std::fabs(S[i].theta-S0[i].theta-dt*S[i].omega) < 1e-12, "free_flight_position", ""); ctx.count("free_flight"); }
    }
    if( !anyfix ){
      CK((p1-p0).norm() <= 1e-9*(1+sp), "linear_momentum", "step %d: %g of %g", s, (p1-p0).norm(), sp);
      CK(std::fabs(L1-L0) <= 1e-9 + 8*sp*dt*(reach+0.1) + 0.0, "angular_momentum", "step %d: %g of %g", s, std::fabs(L1-L0), sp);
    }
  }
  if( moved_contact ) ctx.count("histories_with_contact");
}
// a body dropped on a fixed ground comes to rest on it
VH_FAMILY(resting, 60, 600){
  Rng& rng = ctx.rng; std::vector<CRigidState2> S(2);
  CRigidState2& G = S[0]; G = body(rng,true); G.posl = CVec2d(0,0); G.theta = 0; G.posg = CVec2d(0,0); G.shape = {{-5,-1},{5,-1},{5,0},{-5,0}}; G.shape_velo.assign(4,CVec2d(0,0)); G.velo = CVec2d(0,0); G.omega = 0;
  CRigidState2& B = S[1]; B = body(rng,false); B.shape = {{-.4,-.3},{.4,-.3},{.4,.3},{-.4,.3}}; B.shape_velo.assign(4,CVec2d(0,0)); B.posl = CVec2d(0,0); B.mass = .48; B.I = .48*(.64+.36)/12;
  B.theta = rng.uni(-.3,.3); B.posg = CVec2d(rng.uni(-1,1), 0.75+rng.uni(0,.5)); B.velo = CVec2d(rng.uni(-.5,.5),0); B.omega = rng.uni(-.3,.3);
  ctx.sig(vh::Hash().d(B.theta).d(B.posg.x).d(B.posg.y).d(B.velo.x).h);
  double dt = 0.002; CVec2d g(0,-9.8); double low = 1e9, ymax = B.posg.y; int contacts = 0;
  for(int s=0;s<2500;++s){
    delfem2::Steptime_Rgd2(S, dt, g); double lo = 1e9; for(auto p : S[1].shape){ CVec2d q = (p-S[1].posl).Rotate(S[1].theta)+S[1].posg; lo = std::min(lo,q.y); }
    low = std::min(low,lo); if( lo < 1e-3 ) ++contacts;
    if( !(std::fabs(S[1].posg.y) < 10) ) break;
    ymax = std::max(ymax, S[1].posg.y);
  }
  CK(low > -0.02, "sinks_into_ground", "%g", low); CK(contacts > 10, "no_contact", ""); ctx.count("resting");
  CK(ymax < 1.6, "energy_gain", "%g", ymax);
  CK(S[1].velo.norm() < 0.2 && std::fabs(S[1].omega) < 0.5, "does_not_rest", "v=%g w=%g", S[1].velo.norm(), S[1].omega);
  CK(S[1].posg.y > 0.25 && S[1].posg.y < 0.55, "rest_height", "%g", S[1].posg.y);
  CK(S[0].posg.x==0 && S[0].posg.y==0 && S[0].theta==0, "ground_moved", "");
}

// ------------------------------------------------- fluid grid
typedef FdmArray2<double> GA; typedef FdmArray2<std::array<double,2>> GV;
static double cl(const GA& p, int i, int j){ i = i<0?0:i>=p.ni?p.ni-1:i; j = j<0?0:j>=p.nj?p.nj-1:j; return p.v[i+p.ni*j]; }
VH_FAMILY(fluid, 150, 2500){
  Rng& rng = ctx.rng; Quiet q; int ni = rng.irange(2,9), nj = rng.irange(2,9); double h = std::exp(rng.uni(-3,1));
  GA u(ni+1,nj), v(ni,nj+1), d(ni,nj), p(ni,nj,0.0); for(double& a : u.v) a = rng.gauss(); for(double& a : v.v) a = rng.gauss(); for(double& a : d.v) a = 99;
  ctx.sig(vh::Hash().vd(u.v).vd(v.v).d(h).h);
  // clamped access
  for(int k=0;k<10;++k){ int i = rng.irange(-3,ni+3), j = rng.irange(-3,nj+3); d.ClampedFetch(0,0) = 1; const GA& dc = u; CK(dc.ClampedFetch(i,j)==cl(u,i,j), "clamped_fetch", "%d %d", i, j); }
  Divergence_StaggerdGrid2(d, ni, nj, u, v, h);
  double tot = 0, flux = 0;
  for(int j=0;j<nj;++j) for(int i=0;i<ni;++i){ double e = (u(i+1,j)-u(i,j)+v(i,j+1)-v(i,j))/h; CKN(d(i,j), e, 1e-12*(1+std::fabs(e)), "divergence", "%d %d", i, j); tot += d(i,j)*h; }
  for(int j=0;j<nj;++j) flux += u(ni,j)-u(0,j); for(int i=0;i<ni;++i) flux += v(i,nj)-v(i,0);
  CKN(tot, flux, 1e-10*(1+std::fabs(flux)), "conservation", "");
  // one pressure correction with any pressure: div changes by the clamped Laplacian
  GA pr(ni,nj); for(double& a : pr.v) a = rng.gauss(); double sc = std::exp(rng.uni(-2,2)); GA u1 = u, v1 = v, d1 = d;
  SubstructPressureGradient_StaggeredGrid2(u1, v1, ni, nj, sc, pr); Divergence_StaggerdGrid2(d1, ni, nj, u1, v1, h);
  for(int j=0;j<nj;++j){ CK(u1(0,j)==u(0,j)&&u1(ni,j)==u(ni,j), "wall_velocity", ""); } for(int i=0;i<ni;++i) CK(v1(i,0)==v(i,0)&&v1(i,nj)==v(i,nj), "wall_velocity", "");
  for(int j=0;j<nj;++j) for(int i=0;i<ni;++i){ double lap = cl(pr,i+1,j)+cl(pr,i-1,j)+cl(pr,i,j+1)+cl(pr,i,j-1)-4*pr(i,j); CKN(d1(i,j), d(i,j)-sc/h*lap, 1e-10*(1+sc/h), "pressure_correction", "%d %d", i, j); }
  // projection: close the walls so that a divergence free field exists
  for(int j=0;j<nj;++j) u(0,j) = u(ni,j) = 0; for(int i=0;i<ni;++i) v(i,0) = v(i,nj) = 0;
  Divergence_StaggerdGrid2(d, ni, nj, u, v, h); double rho = std::exp(rng.uni(-1,1)), dt = std::exp(rng.uni(-4,-1));
  if( rng.chance(0.5) ) for(double& a : p.v) a = rng.gauss();
  double scale = rho*h*h/dt, s = dt/(rho*h);
  auto energy = [&](){ double E = 0; for(int j=0;j<nj;++j) for(int i=0;i<ni;++i){ for(int k=0;k<2;++k){ double a = cl(p,i+(k==0),j+(k==1))-p(i,j); E += 0.5*a*a; } E += scale*d(i,j)*p(i,j); } return E; };
  double E0 = energy();
  for(int k=0;k<4;++k){ SolvePoissionEquationOnGrid2ByGaussSeidelMethod(p, d, scale, ni, nj, rng.irange(1,3)); double E1 = energy(); CK(E1 <= E0 + 1e-9*(1+std::fabs(E0)), "relaxation_diverges", "%g -> %g", E0, E1); E0 = E1; }
  SolvePoissionEquationOnGrid2ByGaussSeidelMethod(p, d, scale, ni, nj, 1500);
  double ke0 = 0, ke1 = 0, dm = 0, dm0 = 0; for(double a : u.v) ke0 += a*a; for(double a : v.v) ke0 += a*a; for(double a : d.v) dm0 = std::max(dm0,std::fabs(a));
  SubstructPressureGradient_StaggeredGrid2(u, v, ni, nj, s, p); Divergence_StaggerdGrid2(d, ni, nj, u, v, h);
  for(double a : u.v) ke1 += a*a; for(double a : v.v) ke1 += a*a; for(double a : d.v) dm = std::max(dm,std::fabs(a));
  CK(dm <= 1e-5*(dm0+1/h), "projection_leaves_divergence", "%g of %g grid %dx%d", dm, dm0, ni, nj); CK(ke1 <= ke0*(1+1e-6), "projection_adds_energy", "%g -> %g", ke0, ke1); ctx.count("projections");
  // advection: values are convex combinations of the previous ones
  GV ut(ni+1,nj), vt(ni,nj+1); bool unif = rng.chance(0.3); double cu = rng.gauss(), cv = rng.gauss(); double cfl = rng.pick({0.3,2.0,20.0});
  if( unif ){ for(double& a : u.v) a = cu; for(double& a : v.v) a = cv; } dt = cfl*h;
  auto mmx = [](const V& a){ return std::make_pair(*std::min_element(a.begin(),a.end()), *std::max_element(a.begin(),a.end())); };
  auto bu = mmx(u.v), bv = mmx(v.v); V uo = u.v, vo = v.v;
  AdvectionSemiLagrangian_StaggeredGrid2(u, v, ut, vt, ni, nj, dt, h);
  auto au = mmx(u.v), av = mmx(v.v);
  CK(au.first >= bu.first-1e-8 && au.second <= bu.second+1e-8 && av.first >= bv.first-1e-8 && av.second <= bv.second+1e-8, "advection_overshoot", "u [%g,%g]->[%g,%g] v [%g,%g]->[%g,%g]", bu.first,bu.second,au.first,au.second,bv.first,bv.second,av.first,av.second);
  ctx.count("advections"); if( unif ) ctx.count("uniform_flow");
  GV w(ni,nj), wt(ni,nj); for(auto& a : w.v) a = {rng.gauss(),rng.gauss()}; GV w0 = w;
  AdvectionSemiLagrangian_CellCenteredGrid2(w, wt, ni, nj, dt, h);
  for(int k=0;k<2;++k){ double lo = 1e9, hi = -1e9, lo1 = 1e9, hi1 = -1e9; for(auto& a : w0.v){ lo = std::min(lo,a[k]); hi = std::max(hi,a[k]); } for(auto& a : w.v){ lo1 = std::min(lo1,a[k]); hi1 = std::max(hi1,a[k]); }
    CK(lo1 >= lo-1e-8 && hi1 <= hi+1e-8, "advection_overshoot_cell", "[%g,%g]->[%g,%g]", lo,hi,lo1,hi1); }
  // interpolation: exact on bilinear data and clamped outside
  double a0 = rng.gauss(), a1 = rng.gauss(), a2 = rng.gauss(), a3 = rng.gauss(); for(int j=0;j<nj;++j) for(int i=0;i<ni;++i) w(i,j) = {7.0, a0+a1*i+a2*j+a3*i*j};
  for(int k=0;k<12;++k){ double x = rng.uni(-3,ni+3), y = rng.uni(-3,nj+3); if( rng.chance(0.2) ) x = rng.irange(0,ni-1); double xc = std::min(std::max(x,0.0),ni-1.0), yc = std::min(std::max(y,0.0),nj-1.0);
    CKN(LinearInterpolationOnGrid2<2>(w,1,x,y), a0+a1*xc+a2*yc+a3*xc*yc, 1e-7, "interpolation", "%g %g", x, y); CKN(LinearInterpolationOnGrid2<2>(w,0,x,y), 7.0, 1e-12, "interpolation_constant", ""); ctx.count("interpolations"); }
  // semi-Lagrangian trace of an interior face
  ctx.sample(vh::fmt("grid %dx%d h=%g", ni, nj, h));
}
// a bump in a uniform stream moves downstream by exactly the whole number of cells
VH_FAMILY(fluid_stream, 100, 1500){
  Rng& rng = ctx.rng; int ni = rng.irange(6,10), nj = rng.irange(6,10); double h = std::exp(rng.uni(-2,1)), dt = std::exp(rng.uni(-2,0)); int cx = rng.irange(-2,2), cy = rng.irange(-2,2);
  GV w(ni,nj), t(ni,nj); double e = 1e-9; for(auto& a : w.v) a = {cx*h/dt, cy*h/dt};
  GV z = w; for(auto& a : w.v){ a[0] += e*rng.gauss(); a[1] += e*rng.gauss(); } z = w; ctx.sig(vh::Hash().d(h).d(dt).u(cx+9).u(cy+9).u(ni).u(nj).h);
  AdvectionSemiLagrangian_CellCenteredGrid2(w, t, ni, nj, dt, h);
  for(int j=0;j<nj;++j) for(int i=0;i<ni;++i){ int si = i-cx, sj = j-cy; if( si<1||sj<1||si>ni-2||sj>nj-2 ) continue; for(int k=0;k<2;++k){ double ex = z(si,sj)[k]; CKN(w(i,j)[k], ex, 1e-11+1e-7*e*0 + 3e-9*e*dt/h + 1e-9*e, "stream_shift", "cell %d %d shift %d %d", i,j,cx,cy); } ctx.count("stream_cells"); }
}

// ------------------------------------------------- hair
static std::vector<unsigned int> make_hair(Rng& rng, std::vector<delfem2::CVec3d>& P, std::vector<delfem2::CVec3d>& S){
  std::vector<unsigned int> root = {0}; P.clear(); S.clear(); int nh = rng.irange(1,3);
  for(int k=0;k<nh;++k){
    std::vector<delfem2::CVec3d> p, s; delfem2::HairDarbouxShape sh; sh.num_points = rng.irange(3,14); sh.pitch = rng.uni(0.5,2)*rng.pick({1.0,3.0}); sh.radius = rng.uni(.2,1); sh.edge_length = rng.uni(.05,.5)*sh.radius;
    sh.MakeConfigDaboux(p, s); delfem2::CVec3d o(0.0, 5.0*k, rng.uni(-1,1));
    for(auto& a : p) P.push_back(a+o); S.insert(S.end(), s.begin(), s.end()); root.push_back((unsigned)P.size());
  }
  return root;
}
static void hair_pattern(const std::vector<unsigned int>& root, std::vector<unsigned int>& pi, std::vector<unsigned int>& ps){
  pi = {0}; ps.clear(); for(size_t k=0;k+1<root.size();++k) for(int i=root[k];i<(int)root[k+1];++i){ for(int j=i-2;j<=i+2;++j) if( j!=i && j>=(int)root[k] && j<(int)root[k+1] ) ps.push_back(j); pi.push_back((unsigned)ps.size()); }
}
VH_FAMILY(hair, 200, 3000){
  Rng& rng = ctx.rng; Quiet q; using delfem2::CVec3d; std::vector<CVec3d> P0, S0;
  { delfem2::HairDarbouxShape sh; sh.num_points = rng.irange(3,20); sh.pitch = rng.uni(.2,3); sh.radius = rng.uni(.2,1.5); sh.edge_length = rng.uni(.05,.6)*sh.radius; std::vector<CVec3d> p, s; sh.MakeConfigDaboux(p,s);
    CK(p.size()==sh.num_points && s.size()==sh.num_points, "hair_size", ""); for(unsigned i=0;i+1<sh.num_points;++i){ CVec3d e = p[i+1]-p[i]; CKN(e.norm(), sh.edge_length, 1e-9, "edge_length", "edge %u", i); CKN(s[i].norm(), 1.0, 1e-9, "director_unit", ""); CKN(s[i].dot(e), 0.0, 1e-9, "director_orthogonal", "edge %u", i);
      CKN(std::hypot(p[i].y,p[i].z), sh.radius, 1e-9, "helix_radius", ""); } ctx.count("helices"); }
  auto root = make_hair(rng, P0, S0); size_t n = P0.size(); vh::Hash h; for(auto& a : P0) h.d(a.x).d(a.y).d(a.z); ctx.sig(h.h);
  std::vector<unsigned int> pi, ps; hair_pattern(root, pi, ps);
  delfem2::LinearSystemSolver_BlockSparse sp; sp.Initialize((unsigned)n, 4, pi, ps); delfem2::MakeBCFlag_RodHair(sp.dof_bcflag, root);
  if( !CK(sp.dof_bcflag.size()==n*4, "bc_size", "") ) return;
  for(size_t k=0;k+1<root.size();++k) for(unsigned i=root[k];i<root[k+1];++i) for(int d=0;d<4;++d){ bool e = d<3 ? i<root[k]+2 : (i==root[k] || i+1==root[k+1]); CK((sp.dof_bcflag[i*4+d]!=0)==e, "bc_flag", "point %u dof %d", i, d); }
  auto ortho = [&](const std::vector<CVec3d>& P, const std::vector<CVec3d>& S, const char* what){ for(size_t k=0;k+1<root.size();++k) for(unsigned i=root[k];i+1<root[k+1];++i){ CVec3d e = (P[i+1]-P[i]).normalized(); CK(std::fabs(S[i].norm()-1)<1e-6 && std::fabs(S[i].dot(e))<1e-6, what, "edge %u: |s|=%g s.e=%g", i, S[i].norm(), S[i].dot(e)); } };
  double stretch = std::exp(rng.uni(0,4)), bt[3] = {std::exp(rng.uni(-1,2)),std::exp(rng.uni(-1,2)),std::exp(rng.uni(-1,2))}, mdtt = rng.uni(0.1,10);
  auto P = P0, S = S0; delfem2::Solve_RodHair(P, S, sp, stretch, bt, mdtt, P0, S0, root);
  for(size_t i=0;i<n;++i) CK((P[i]-P0[i]).norm() < 1e-8, "rest_hair_moved", "point %zu: %g", i, (P[i]-P0[i]).norm());
  for(size_t k=0;k+1<root.size();++k) for(unsigned i=root[k];i+1<root[k+1];++i) CK((S[i]-S0[i]).norm() < 1e-6, "rest_director_moved", "%u", i); ctx.count("rest_hair");
  // disturbed
  double amp = rng.pick({0.01,0.05}); P = P0; S = S0; for(size_t i=0;i<n;++i) if( !sp.dof_bcflag[i*4] ) P[i] += CVec3d(rng.uni(-amp,amp),rng.uni(-amp,amp),rng.uni(-amp,amp))*0.2;
  for(size_t i=0;i<n;++i) S[i] += CVec3d(rng.uni(-.2,.2),rng.uni(-.2,.2),rng.uni(-.2,.2));
  // the library works on the edges of the list of all points: the edge between two hairs has no meaning
  delfem2::MakeDirectorOrthogonal_RodHair(S, P); ortho(P, S, "made_orthogonal");
  { auto P2 = P; auto S2 = S; for(auto& s : S2) s += CVec3d(rng.uni(-.1,.1),rng.uni(-.1,.1),rng.uni(-.1,.1)); delfem2::MakeDirectorOrthogonal_RodHair(S2,P2); auto S3 = S2; delfem2::ParallelTransport_RodHair(P2, S3, root); ortho(P2, S3, "parallel_transport");
    // transported and averaged directors of a uniformly twisting rod keep the first one
    for(size_t k=0;k+1<root.size();++k) CK((S3[root[k]]-S2[root[k]]).norm()==0, "transport_root", ""); }
  auto energy = [&](const std::vector<CVec3d>& P, const std::vector<CVec3d>& S){ delfem2::LinearSystemSolver_BlockSparse t; t.Initialize((unsigned)n, 4, pi, ps); t.BeginMerge(); double W = delfem2::Merge_HairStretch(t, stretch, root, P, P0); W += delfem2::Merge_HairDarboux(t, bt, root, P, S, P0, S0); return W; };
  double W0 = energy(P,S); CK(energy(P0,S0) < 1e-12*(stretch+bt[0]+bt[1]+bt[2]), "rest_energy", "%g", energy(P0,S0)); auto Ps = P;
  for(int it=0;it<6;++it) delfem2::Solve_RodHair(P, S, sp, stretch, bt, mdtt, P0, S0, root);
  for(size_t i=0;i<n;++i) if( sp.dof_bcflag[i*4] ) CK((P[i]-Ps[i]).norm()==0, "fixed_hair_point", "%zu", i);
  ortho(P, S, "step_orthogonal"); double W1 = energy(P,S); CK(W1 <= W0*(1+1e-6)+1e-9, "hair_energy_grew", "%g -> %g", W0, W1); ctx.count("hair_steps");
  ctx.sample(vh::fmt("points=%zu hairs=%zu W %g -> %g", n, root.size()-1, W0, W1));
}
VH_FAMILY(hair_contact, 120, 2000){
  Rng& rng = ctx.rng; Quiet q; using delfem2::CVec3d; std::vector<CVec3d> P0, S0; std::vector<unsigned int> root = {0};
  // two straight hairs crossing at a distance smaller than the clearance
  int n1 = rng.irange(4,8), n2 = rng.irange(4,8); double gap = rng.uni(0.005,0.05), clear = gap + rng.uni(0.005,0.05);
  for(int i=0;i<n1;++i){ P0.emplace_back(0.2*i, 0, 0); S0.emplace_back(0,1,0); } root.push_back(n1);
  double at = 0.2*(n1-1)*rng.uni(.5,.95); int k2 = rng.irange(2,n2-2); for(int i=0;i<n2;++i){ P0.emplace_back(at, 0.2*(i-k2)+0.07, gap); S0.emplace_back(1,0,0); } root.push_back(n1+n2); size_t n = P0.size();
  std::vector<unsigned int> pi, ps; hair_pattern(root, pi, ps); delfem2::LinearSystemSolver_BlockSparse sp; sp.Initialize((unsigned)n,4,pi,ps); delfem2::MakeBCFlag_RodHair(sp.dof_bcflag, root);
  // (1) nothing in contact: same answer as the free step
  double bt[3] = {1,1,1}, stretch = 10, mdtt = rng.uni(.5,5); auto P = P0, S = S0; for(size_t i=0;i<n;++i) if( !sp.dof_bcflag[i*4] ) P[i] += CVec3d(rng.uni(-1,1),rng.uni(-1,1),rng.uni(-1,1))*1e-3;
  vh::Hash h; for(auto& a : P) h.d(a.x).d(a.y).d(a.z); ctx.sig(h.h);
  delfem2::MakeDirectorOrthogonal_RodHair(S,P);
  auto Pa = P, Sa = S, Pb = P, Sb = S; delfem2::Solve_RodHair(Pa, Sa, sp, stretch, bt, mdtt, P0, S0, root); delfem2::Solve_RodHairContact(Pb, Sb, sp, stretch, bt, mdtt, P, P0, S0, root, clear, 1e3, {});
  for(size_t i=0;i<n;++i) CK((Pa[i]-Pb[i]).norm() < 3e-5, "no_contact_differs", "point %zu %g", i, (Pa[i]-Pb[i]).norm());
  // (2) one contact pushes the two segments to the clearance
  delfem2::CContactHair c; unsigned e1 = std::min((int)(at/0.2), n1-2); c.ip0 = e1; c.ip1 = e1+1; c.s = at/0.2-e1; c.iq0 = n1+k2-1; c.iq1 = n1+k2; c.t = 1-0.07/0.2; c.norm = CVec3d(0,0,-1);
  P = P0; S = S0; double g0 = c.Direction(P).dot(c.norm); CKN(g0, gap, 1e-9, "contact_direction", ""); if( e1 < 1 || k2 < 3 ) { }
  double W0 = 0; (void)W0; delfem2::Solve_RodHairContact(P, S, sp, stretch, bt, mdtt, P0, P0, S0, root, clear, 1e4, {c});
  double g1 = c.Direction(P).dot(c.norm); bool can = !(sp.dof_bcflag[c.ip0*4]&&sp.dof_bcflag[c.ip1*4]&&sp.dof_bcflag[c.iq0*4]&&sp.dof_bcflag[c.iq1*4]);
  if( can ){ CK(g1 > g0 + 0.8*(clear-g0) && g1 < clear + 1e-4, "contact_not_resolved", "gap %g -> %g clearance %g", g0, g1, clear); ctx.count("hair_contacts"); }
  for(size_t i=0;i<n;++i) if( sp.dof_bcflag[i*4] ) CK((P[i]-P0[i]).norm()==0, "fixed_hair_point", "%zu", i);
}

// ------------------------------------------------- cloth time steps
struct NoContact : delfem2::CInput_Contact { double penetrationNormal(double& nx,double& ny,double& nz,double,double,double) const override { nx=ny=0; nz=1; return -1e3; } };
VH_FAMILY(cloth, 60, 900){
  Rng& rng = ctx.rng; Quiet q; V X0; std::vector<int> bc; std::vector<unsigned int> T, Q; int nd = rng.irange(2,4); SetClothShape_Square(X0, bc, T, Q, nd, 1.0); size_t np = X0.size()/3;
  for(unsigned a : T) CK(a < np, "tri_index", ""); for(unsigned a : Q) CK(a < np, "quad_index", ""); CK(Q.size()/4 == (size_t)(nd*nd+2*nd*(nd-1)), "quad_count", "");
  bool free = rng.chance(0.4); if( free ) bc.assign(np*3,0); else if( rng.chance(0.5) ) for(int& b : bc) b = rng.chance(0.2);
  std::vector<unsigned int> pi, ps; delfem2::JArray_PSuP_MeshElem(pi, ps, Q.data(), Q.size()/4, 4, np); delfem2::JArray_Sort(pi, ps);
  delfem2::CMatrixSparse<double> A; A.Initialize((unsigned)np, 3, true); A.SetPattern(pi.data(), pi.size(), ps.data(), ps.size());
  delfem2::CPreconditionerILU<double> ilu; ilu.Initialize_ILUk(A, rng.irange(0,2));
  V x = X0, v(np*3,0.0); double amp = rng.uni(0,0.03); for(size_t i=0;i<np*3;++i){ if( !bc[i] ){ x[i] += rng.uni(-amp,amp)/nd; v[i] = 0.3*rng.gauss(); } }
  ctx.sig(vh::Hash().vd(x).vd(v).h);
  double g[3] = {rng.uni(-1,1),rng.uni(-1,1),-9.8}, m = 1.0/np, lam = rng.uni(0,3), mu = rng.uni(1,5), bend = rng.uni(0,1e-3); NoContact nc; double dt = rng.pick({0.002,0.01}); bool useilu = rng.chance(0.5);
  for(int s=0;s<4;++s){
    V x1 = x, v1 = v;
    // the implicit step: (M/dt^2+K) dx = f + M v/dt on the free degrees of freedom, the fixed ones held
    delfem2::CMatrixSparse<double> B; B.Initialize((unsigned)np, 3, true); B.SetPattern(pi.data(), pi.size(), ps.data(), ps.size()); B.setZero(); V fb(np*3,0.0); delfem2::MergeLinSys_Cloth(B, fb.data(), lam, mu, bend, X0.data(), (unsigned)np, 3, T.data(), (unsigned)T.size()/3, Q.data(), (unsigned)Q.size()/4, x1.data());
    // momentum needs the linear solve to converge: a relative residual of 1e-4 of the right-hand side
    if( useilu ) StepTime_InternalDynamicsILU(x, v, A, ilu, X0, bc, T, Q, dt, lam, mu, bend, g, m, 1.0, 0.01, nc);
    else StepTime_InternalDynamics(x, v, A, X0, bc, T, Q, dt, lam, mu, bend, g, m, 1.0, 0.01, nc);
    { V dx(np*3), Kd(np*3,0.0); for(size_t i=0;i<np*3;++i) dx[i] = x[i]-x1[i]; B.MatVec(Kd.data(), 1.0, dx.data(), 0.0); double rr = 0, bb = 0; for(size_t i=0;i<np*3;++i) if( !bc[i] ){ double b_ = -fb[i]+m*g[i%3]+m*v1[i]/dt, r_ = b_-Kd[i]-m/(dt*dt)*dx[i]; rr += r_*r_; bb += b_*b_; }
      CK(rr <= 1e-6*bb+1e-20, "implicit_step", "relative residual %g ilu %d dt %g", std::sqrt(rr/bb), useilu, dt); ctx.count("cloth_implicit_steps"); }
    for(size_t i=0;i<np*3;++i){ if( bc[i] ){ CK(x[i]==x1[i] && v[i]==0, "fixed_cloth_dof", "%zu", i); ctx.count("cloth_fixed"); } else { CKN(x[i]-x1[i], dt*v[i], 1e-12, "position_velocity", ""); } }
    if( free ){ for(int d=0;d<3;++d){ double p0 = 0, p1 = 0; for(size_t i=0;i<np;++i){ p0 += m*v1[i*3+d]; p1 += m*v[i*3+d]; } double rhs = 0; for(size_t i=0;i<np*3;++i) rhs += std::pow(m*v1[i],2); rhs = std::sqrt(rhs)+std::fabs(m*g[d])*np;
      CKN(p1, p0+m*np*g[d]*dt, 2e-3*(rhs+dt*mu+0.01), "cloth_momentum", "dim %d ilu %d", d, useilu); } ctx.count("cloth_free"); }
    V v2(np*3,0.1); UpdateIntermidiateVelocity(v2, x, X0, bc, T, Q, dt, lam, mu, bend, g, m); D3 p{0,0,0};
    for(size_t i=0;i<np*3;++i){ if( bc[i] ) CK(v2[i]==0, "fixed_intermediate", ""); p[i%3] += v2[i]-0.1; }
    if( free ) for(int d=0;d<3;++d) CKN(p[d], np*0.5*dt*g[d], 1e-9*np*(1+mu/m*dt), "intermediate_momentum", "");
  }
  // rest shape, no gravity: nothing moves
  x = X0; v.assign(np*3,0.0); double g0[3] = {0,0,0}; StepTime_InternalDynamics(x, v, A, X0, bc, T, Q, dt, lam, mu, bend, g0, m, 1.0, 0.01, nc); for(size_t i=0;i<np*3;++i) CKN(x[i], X0[i], 1e-9, "rest_cloth_moved", "");
}
