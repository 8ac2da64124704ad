// C18: assembled finite element systems against an independent dense Galerkin assembly
#include "../lib/vh.h"
#include <functional>
#include <array>
#include <cmath>
#include <complex>
#include "delfem2/femutil.h"
#include "delfem2/quadrature.h"
#include "delfem2/ls_block_sparse.h"
#include "delfem2/msh_topology_uniform.h"
#include "delfem2/jagarray.h"
#include "delfem2/fem_poisson.h"
#include "delfem2/fem_helmholtz.h"
#include "delfem2/fem_solidlinear.h"
#include "delfem2/fem_stokes.h"
#include "delfem2/fem_navierstokes.h"
#include "delfem2/fem_mitc3.h"

using namespace vh;
namespace dfm2 = delfem2;
typedef std::vector<double> V;
typedef std::complex<double> CX;

// ---------------------------------------------------------------- meshes
struct Mesh { int dim, nno; V X; std::vector<unsigned int> E; unsigned int np() const { return (unsigned int)(X.size()/dim); } size_t ne() const { return E.size()/nno; }
  std::vector<char> bnd; };

static Mesh mesh_tri(Rng& rng){
  int nx = rng.irange(1,5), ny = rng.irange(1,5);
  double L = std::exp(rng.uni(-1.5,1.5)), j = rng.chance(0.3) ? 0.0 : rng.uni(0.05,0.28);
  Mesh m; m.dim = 2; m.nno = 3;
  double A[4]; double th = rng.uni(0,6.28), sh = rng.uni(-0.5,0.5);
  A[0] = std::cos(th); A[1] = -std::sin(th)+sh; A[2] = std::sin(th); A[3] = std::cos(th)+sh*0.3;
  double det = A[0]*A[3]-A[1]*A[2]; if( det < 0.2 ){ A[0]=1;A[1]=0;A[2]=0;A[3]=1; }
  double ox = rng.uni(-3,3), oy = rng.uni(-3,3);
  for(int y=0;y<=ny;++y) for(int x=0;x<=nx;++x){
    double px = x + rng.uni(-j,j), py = y + rng.uni(-j,j);
    m.X.push_back(L*(A[0]*px+A[1]*py+ox)); m.X.push_back(L*(A[2]*px+A[3]*py+oy));
    m.bnd.push_back(x==0||y==0||x==nx||y==ny);
  }
  for(int y=0;y<ny;++y) for(int x=0;x<nx;++x){
    unsigned int a = y*(nx+1)+x, b = a+1, c = b+nx+1, d = a+nx+1;
    if( rng.chance(0.5) ){ unsigned int t[6] = {a,b,c,a,c,d}; m.E.insert(m.E.end(), t, t+6); }
    else { unsigned int t[6] = {a,b,d,b,c,d}; m.E.insert(m.E.end(), t, t+6); }
  }
  // random rotation of the element's own numbering and random element order
  for(size_t e=0;e<m.ne();++e) if( rng.chance(0.5) ) std::rotate(m.E.begin()+e*3, m.E.begin()+e*3+1, m.E.begin()+e*3+3);
  return m;
}
static void gridpts3(Rng& rng, Mesh& m, int nx, int ny, int nz, double j){
  double L = std::exp(rng.uni(-1,1));
  double sx = rng.uni(0.6,1.5), sy = rng.uni(0.6,1.5), sz = rng.uni(0.6,1.5), s1 = rng.uni(-0.3,0.3), s2 = rng.uni(-0.3,0.3);
  for(int z=0;z<=nz;++z) for(int y=0;y<=ny;++y) for(int x=0;x<=nx;++x){
    double p[3] = { x+rng.uni(-j,j), y+rng.uni(-j,j), z+rng.uni(-j,j) };
    m.X.push_back(L*(sx*p[0]+s1*p[1])); m.X.push_back(L*(sy*p[1]+s2*p[2])); m.X.push_back(L*sz*p[2]);
    m.bnd.push_back(x==0||y==0||z==0||x==nx||y==ny||z==nz);
  }
}
static Mesh mesh_tet(Rng& rng){
  Mesh m; m.dim = 3; m.nno = 4;
  int nx = rng.irange(1,3), ny = rng.irange(1,3), nz = rng.irange(1,3);
  gridpts3(rng, m, nx, ny, nz, rng.chance(0.2) ? 0.0 : rng.uni(0.02,0.13));
  auto id = [&](int x, int y, int z){ return (unsigned int)((z*(ny+1)+y)*(nx+1)+x); };
  for(int z=0;z<nz;++z) for(int y=0;y<ny;++y) for(int x=0;x<nx;++x){
    static const int pm[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
    for(int k=0;k<6;++k){
      int c[3] = {x,y,z}; unsigned int v[4]; v[0] = id(c[0],c[1],c[2]);
      for(int i=0;i<3;++i){ c[pm[k][i]]++; v[i+1] = id(c[0],c[1],c[2]); }
      const double *a=&m.X[v[0]*3],*b=&m.X[v[1]*3],*cc=&m.X[v[2]*3],*d=&m.X[v[3]*3];
      double e[3][3]; for(int i=0;i<3;++i){ e[0][i]=b[i]-a[i]; e[1][i]=cc[i]-a[i]; e[2][i]=d[i]-a[i]; }
      double det = e[0][0]*(e[1][1]*e[2][2]-e[1][2]*e[2][1])-e[0][1]*(e[1][0]*e[2][2]-e[1][2]*e[2][0])+e[0][2]*(e[1][0]*e[2][1]-e[1][1]*e[2][0]);
      if( det < 0 ) std::swap(v[2],v[3]);
      m.E.insert(m.E.end(), v, v+4);
    }
  }
  return m;
}
static Mesh mesh_hex(Rng& rng){
  Mesh m; m.dim = 3; m.nno = 8;
  int nx = rng.irange(1,3), ny = rng.irange(1,2), nz = rng.irange(1,2);
  gridpts3(rng, m, nx, ny, nz, rng.chance(0.2) ? 0.0 : rng.uni(0.02,0.12));
  auto id = [&](int x, int y, int z){ return (unsigned int)((z*(ny+1)+y)*(nx+1)+x); };
  for(int z=0;z<nz;++z) for(int y=0;y<ny;++y) for(int x=0;x<nx;++x){
    unsigned int v[8] = { id(x,y,z), id(x+1,y,z), id(x+1,y+1,z), id(x,y+1,z), id(x,y,z+1), id(x+1,y,z+1), id(x+1,y+1,z+1), id(x,y+1,z+1) };
    m.E.insert(m.E.end(), v, v+8);
  }
  return m;
}
// gradient of the barycentric functions and measure of a simplex: from the inverse of the edge matrix
static double simplex_grad(const Mesh& m, size_t e, double G[4][3]){
  int d = m.dim; double M[3][3] = {{0}}, I[3][3] = {{0}};
  const unsigned int* v = &m.E[e*m.nno];
  for(int i=0;i<d;++i) for(int k=0;k<d;++k) M[i][k] = m.X[v[i+1]*d+k]-m.X[v[0]*d+k];
  double det;
  if( d==2 ){ det = M[0][0]*M[1][1]-M[0][1]*M[1][0];
    I[0][0]=M[1][1]/det; I[0][1]=-M[0][1]/det; I[1][0]=-M[1][0]/det; I[1][1]=M[0][0]/det; }
  else {
    det = 0;
    for(int i=0;i<3;++i) for(int k=0;k<3;++k){
      int a=(i+1)%3,b=(i+2)%3,c=(k+1)%3,f=(k+2)%3;
      I[k][i] = M[a][c]*M[b][f]-M[a][f]*M[b][c];
    }
    for(int k=0;k<3;++k) det += M[0][k]*I[k][0];
    for(int i=0;i<3;++i) for(int k=0;k<3;++k) I[i][k] /= det;
  }
  for(int k=0;k<d;++k){ G[0][k] = 0; for(int i=0;i<d;++i){ G[i+1][k] = I[k][i]; G[0][k] -= I[k][i]; } }
  return det/(d==2?2.0:6.0);
}
// ---------------------------------------------------------------- dense block system
template <typename T> struct Sys { int n, d; std::vector<T> A, b; std::vector<double> sA, sb; // magnitudes, for tolerances
  Sys(int n_, int d_) : n(n_), d(d_), A(size_t(n_)*d_*n_*d_, T(0)), b(size_t(n_)*d_, T(0)), sA(A.size(),0), sb(b.size(),0) {}
  void addA(int i, int a, int j, int c, T v){ size_t k = (size_t(i)*d+a)*n*d + size_t(j)*d+c; A[k] += v; sA[k] += std::abs(v); }
  void addb(int i, int a, T v){ b[size_t(i)*d+a] += v; sb[size_t(i)*d+a] += std::abs(v); }
  T at(size_t r, size_t c) const { return A[r*n*d+c]; }
  double maxA() const { double m=0; for(double x : sA) m = std::max(m,x); return m; }
  double maxb() const { double m=0; for(double x : sb) m = std::max(m,x); return m; }
};
template <typename T> static void pattern(dfm2::CMatrixSparse<T>& M, const Mesh& m, int d){
  std::vector<unsigned int> ind, p;
  dfm2::JArray_PSuP_MeshElem(ind, p, m.E.data(), m.ne(), m.nno, m.np());
  dfm2::JArray_Sort(ind, p);
  M.Initialize(m.np(), d, true);
  M.SetPattern(ind.data(), ind.size(), p.data(), p.size());
  M.setZero();
}
template <typename T> static void dense(std::vector<T>& D, const dfm2::CMatrixSparse<T>& M){
  size_t n = M.nrowblk_, d = M.nrowdim_; D.assign(n*d*n*d, T(0));
  for(size_t i=0;i<n;++i){
    for(size_t a=0;a<d;++a) for(size_t c=0;c<d;++c) D[(i*d+a)*n*d+i*d+c] += M.val_dia_[(i*d+a)*d+c];
    for(unsigned int k=M.col_ind_[i];k<M.col_ind_[i+1];++k){ size_t j = M.row_ptr_[k];
      for(size_t a=0;a<d;++a) for(size_t c=0;c<d;++c) D[(i*d+a)*n*d+j*d+c] += M.val_crs_[(k*d+a)*d+c]; }
  }
}
template <typename T> static bool cmp(Ctx& ctx, const char* what, const Sys<T>& S, const dfm2::CMatrixSparse<T>& M, const std::vector<T>& b, double rel = 1e-10){
  std::vector<T> D; dense(D, M);
  double mA = S.maxA(), mb = S.maxb(); bool ok = true;
  for(size_t k=0;k<D.size() && ok;++k)
    ok = CK(std::abs(D[k]-S.A[k]) <= rel*mA, fmt("%s: matrix entry differs from the exact Galerkin value", what), "entry (%zu,%zu): %.15g, exact %.15g (scale %.3g)", k/(size_t(S.n)*S.d), k%(size_t(S.n)*S.d), std::real(D[k]), std::real(S.A[k]), mA);
  for(size_t k=0;k<b.size() && ok;++k)
    ok = CK(std::abs(b[k]-S.b[k]) <= rel*mb, fmt("%s: right hand side differs from the exact residual", what), "dof %zu: %.15g, exact %.15g (scale %.3g)", k, std::real(b[k]), std::real(S.b[k]), mb);
  ctx.count("assembled_entries"); 
  return ok;
}
static V rnd(Rng& rng, size_t n, double s){ V v(n); for(auto& x : v) x = s*rng.uni(-1,1); return v; }
static double lin_tot(const Mesh& m){ double A=0, G[4][3]; for(size_t e=0;e<m.ne();++e) A += simplex_grad(m,e,G); return A; }

// residual b for state u given A (A u is evaluated with magnitudes kept)
template <typename T> static void subAx(Sys<T>& S, const Sys<T>& K, const std::vector<T>& u, double c){
  size_t N = size_t(S.n)*S.d;
  for(size_t r=0;r<N;++r) for(size_t q=0;q<N;++q){ T a = K.A[r*N+q]; if( a != T(0) ){ S.b[r] -= c*a*u[q]; S.sb[r] += std::abs(c*a*u[q]); } }
}
static void refK(Sys<double>& S, const Mesh& m, double c, int blk = 1){ // c * grad.grad on the first blk components
  double G[4][3]; for(size_t e=0;e<m.ne();++e){ double A = simplex_grad(m,e,G); const unsigned int* v=&m.E[e*m.nno];
    for(int i=0;i<m.nno;++i) for(int j=0;j<m.nno;++j){ double s=0; for(int k=0;k<m.dim;++k) s += G[i][k]*G[j][k]; for(int a=0;a<blk;++a) S.addA(v[i],a,v[j],a,c*A*s); } }
}
static void refM(Sys<double>& S, const Mesh& m, double c, int blk = 1){
  double G[4][3]; double den = m.dim==2 ? 12.0 : 20.0;
  for(size_t e=0;e<m.ne();++e){ double A = simplex_grad(m,e,G); const unsigned int* v=&m.E[e*m.nno];
    for(int i=0;i<m.nno;++i) for(int j=0;j<m.nno;++j) for(int a=0;a<blk;++a) S.addA(v[i],a,v[j],a,c*A*(i==j?2:1)/den); }
}
static void refE(Sys<double>& S, const Mesh& m, double lambda, double myu, double c, const double* R = nullptr){
  double G[4][3]; int d = m.dim;
  for(size_t e=0;e<m.ne();++e){ double A = simplex_grad(m,e,G); const unsigned int* v=&m.E[e*m.nno];
    for(int i=0;i<m.nno;++i) for(int j=0;j<m.nno;++j){
      double B[3][3], gg=0; for(int k=0;k<d;++k) gg += G[i][k]*G[j][k];
      for(int a=0;a<d;++a) for(int b=0;b<d;++b) B[a][b] = A*(lambda*G[i][a]*G[j][b]+myu*G[i][b]*G[j][a]+(a==b?myu*gg:0));
      if( R ){ const double* Q = R+v[i]*9; double C[3][3];
        for(int a=0;a<3;++a) for(int b=0;b<3;++b){ C[a][b]=0; for(int p=0;p<3;++p) for(int q=0;q<3;++q) C[a][b] += Q[a*3+p]*B[p][q]*Q[b*3+q]; }
        std::copy(&C[0][0], &C[0][0]+9, &B[0][0]); }
      for(int a=0;a<d;++a) for(int b=0;b<d;++b) S.addA(v[i],a,v[j],b,c*B[a][b]);
    } }
}
static void refLoad(Sys<double>& S, const Mesh& m, int a, double f){
  double G[4][3]; for(size_t e=0;e<m.ne();++e){ double A = simplex_grad(m,e,G); for(int i=0;i<m.nno;++i) S.addb(m.E[e*m.nno+i],a,f*A/m.nno); }
}
static double logu(Rng& r, double a, double b){ return std::exp(r.uni(std::log(a),std::log(b))); }

// ---------------------------------------------------------------- scalar problems
VH_FAMILY(scalar, 500, 8000){
  Rng& rng = ctx.rng; bool tet = rng.chance(0.5);
  Mesh m = tet ? mesh_tet(rng) : mesh_tri(rng);
  ctx.sig(Hash().vd(m.X).vu(m.E).h);
  double alpha = logu(rng,0.01,100), src = rng.uni(-3,3), dt = logu(rng,1e-3,1), ga = rng.pick({0.5,0.7,1.0}), rho = logu(rng,0.1,10);
  V u = rnd(rng, m.np(), logu(rng,0.1,10)), w = rnd(rng, m.np(), logu(rng,0.1,10));
  bool linear = rng.chance(0.3);
  V c = rnd(rng, 4, 1.0);
  if( linear ) for(unsigned int i=0;i<m.np();++i){ u[i] = c[3]; for(int k=0;k<m.dim;++k) u[i] += c[k]*m.X[i*m.dim+k]; }
  bool dyn = rng.chance(0.5);
  dfm2::CMatrixSparse<double> M; pattern(M, m, 1);
  V b(m.np(), 0.0);
  Sys<double> K(m.np(),1), S(m.np(),1); refK(K, m, alpha);
  if( !dyn ){
    if( tet ) dfm2::MergeLinSys_Poission_MeshTet3D(M, b.data(), alpha, src, m.X.data(), m.np(), m.E.data(), m.ne(), u.data());
    else if( rng.chance(0.2) ){ // float coordinates and values are accepted too
      std::vector<float> Xf(m.X.begin(), m.X.end()), uf(u.begin(), u.end()); m.X.assign(Xf.begin(), Xf.end()); u.assign(uf.begin(), uf.end());
      K = Sys<double>(m.np(),1); refK(K, m, alpha); linear = false;
      dfm2::MergeLinSys_Poission_MeshTri2D(M, b.data(), alpha, src, Xf.data(), m.np(), m.E.data(), m.ne(), uf.data());
    }
    else dfm2::MergeLinSys_Poission_MeshTri2D(M, b.data(), alpha, src, m.X.data(), m.np(), m.E.data(), m.ne(), u.data());
    refK(S, m, alpha); refLoad(S, m, 0, src); subAx(S, K, u, 1.0);
    if( linear && src != 0 ) {
      // a linear field leaves only the load at interior nodes
      Sys<double> Ld(m.np(),1); refLoad(Ld, m, 0, src);
      double sc = S.maxb();
      for(unsigned int i=0;i<m.np();++i) if( !m.bnd[i] ) if( !CKN(b[i], Ld.b[i], 1e-10*sc, "Poisson: a linear field leaves an interior residual", "node %u", i) ) break;
      ctx.count("linear_fields");
    }
  } else {
    if( tet ) dfm2::MergeLinSys_Diffusion_MeshTet3D(M, b.data(), alpha, rho, src, dt, ga, m.X.data(), m.np(), m.E.data(), m.ne(), u.data(), w.data());
    else dfm2::MergeLinSys_Diffusion_MeshTri2D(M, b.data(), alpha, rho, src, dt, ga, m.X.data(), m.np(), m.E.data(), m.ne(), u.data(), w.data());
    Sys<double> Ms(m.np(),1); refM(Ms, m, rho);
    refM(S, m, rho); refK(S, m, alpha*ga*dt); refLoad(S, m, 0, src); subAx(S, K, u, 1.0); subAx(S, K, w, dt); subAx(S, Ms, w, 1.0);
  }
  cmp(ctx, dyn ? (tet?"Diffusion tet":"Diffusion tri") : (tet?"Poisson tet":"Poisson tri"), S, M, b);
  { double s = 0; for(double x : b) s += x;
    double expct = src*lin_tot(m); if( dyn ){ Sys<double> Ms(m.np(),1); refM(Ms,m,rho); for(unsigned int i=0;i<m.np();++i) for(unsigned int j=0;j<m.np();++j) expct -= Ms.at(i,j)*w[j]; }
    CKN(s, expct, 1e-9*S.maxb()*m.np(), "scalar problem: total load is not source times measure", "np %u", m.np()); }
  ctx.count(dyn ? "diffusion" : "poisson");
}

VH_FAMILY(helmholtz, 200, 3000){
  Rng& rng = ctx.rng; Mesh m = mesh_tri(rng);
  ctx.sig(Hash().vd(m.X).h);
  double L = logu(rng,0.2,20); const double k = 2*M_PI/L;
  std::vector<CX> u(m.np()); for(auto& x : u) x = CX(rng.uni(-1,1), rng.uni(-1,1));
  dfm2::CMatrixSparse<CX> M; pattern(M, m, 1);
  std::vector<CX> b(m.np(), 0.0);
  dfm2::MergeLinSys_Helmholtz_MeshTri2D(M, b.data(), L, m.X.data(), m.np(), m.E.data(), m.ne(), u.data());
  Sys<double> K(m.np(),1); refK(K, m, 1.0); refM(K, m, -k*k);
  Sys<CX> S(m.np(),1);
  for(size_t i=0;i<K.A.size();++i){ S.A[i] = K.A[i]; S.sA[i] = K.sA[i]; }
  subAx(S, S, u, 1.0);
  if( !cmp(ctx, "Helmholtz", S, M, b, 1e-5) ) return;   // pi is written 3.1416 in the source
  // radiation condition on a polyline of boundary nodes
  std::vector<unsigned int> pl; unsigned int s0 = rng.irange(0,(int)m.ne()-1);
  pl.push_back(m.E[s0*3]); pl.push_back(m.E[s0*3+1]);
  for(int t=0;t<4;++t){ unsigned int cur = pl.back(); std::vector<unsigned int> nb;
    for(size_t e=0;e<m.ne();++e) for(int q=0;q<3;++q) if( m.E[e*3+q]==cur ) for(int r=0;r<3;++r) if( m.E[e*3+r]!=cur && m.E[e*3+r]!=pl[pl.size()-2] ) nb.push_back(m.E[e*3+r]);
    if( nb.empty() || rng.chance(0.2) ) break; pl.push_back(nb[rng.irange(0,(int)nb.size()-1)]); }
  dfm2::CMatrixSparse<CX> M2; pattern(M2, m, 1); std::vector<CX> b2(m.np(), 0.0);
  dfm2::MergeLinSys_SommerfeltRadiationBC_Polyline2D(M2, b2.data(), L, m.X.data(), m.np(), pl.data(), pl.size(), u.data());
  Sys<CX> S2(m.np(),1);
  for(size_t i=0;i+1<pl.size();++i){ unsigned int p=pl[i], q=pl[i+1];
    double l = std::hypot(m.X[p*2]-m.X[q*2], m.X[p*2+1]-m.X[q*2+1]); CX I(0,1);
    // i k <u,v> - i/(2k) <u',v'>
    CX d = I*(k*l/3.0) - I/(2*k*l), o = I*(k*l/6.0) + I/(2*k*l);
    S2.addA(p,0,p,0,d); S2.addA(q,0,q,0,d); S2.addA(p,0,q,0,o); S2.addA(q,0,p,0,o); }
  subAx(S2, S2, u, 1.0);
  cmp(ctx, "Sommerfeld", S2, M2, b2, 2e-5);
  ctx.count("helmholtz");
}

// ---------------------------------------------------------------- elasticity
static void rotm(Rng& rng, double R[9]){
  double q[4], n=0; do { n=0; for(double& x : q){ x = rng.uni(-1,1); n += x*x; } } while( n < 0.1 ); n = std::sqrt(n); for(double& x : q) x /= n;
  double w=q[0],x=q[1],y=q[2],z=q[3];
  double T[9] = {1-2*(y*y+z*z),2*(x*y-w*z),2*(x*z+w*y),2*(x*y+w*z),1-2*(x*x+z*z),2*(y*z-w*x),2*(x*z-w*y),2*(y*z+w*x),1-2*(x*x+y*y)};
  std::copy(T,T+9,R);
}
VH_FAMILY(elastic, 500, 8000){
  Rng& rng = ctx.rng; bool tet = rng.chance(0.6);
  Mesh m = tet ? mesh_tet(rng) : mesh_tri(rng); int d = m.dim; unsigned int n = m.np();
  ctx.sig(Hash().vd(m.X).vu(m.E).h);
  double myu = logu(rng,0.1,100), lambda = rng.chance(0.1) ? 0.0 : logu(rng,0.1,100), rho = logu(rng,0.1,10), dt = logu(rng,1e-3,0.3), be = rng.pick({0.25,0.3,0.5}), ga = 0.6;
  double g[3] = { rng.uni(-10,10), rng.uni(-10,10), rng.uni(-10,10) };
  V u = rnd(rng,n*d,0.5), v = rnd(rng,n*d,1.0), a = rnd(rng,n*d,3.0);
  double C[3][4]; for(auto& r : C) for(double& x : r) x = rng.uni(-0.5,0.5);
  bool lin = rng.chance(0.3);
  if( lin ) for(unsigned int i=0;i<n;++i) for(int p=0;p<d;++p){ u[i*d+p] = C[p][3]; for(int q=0;q<d;++q) u[i*d+p] += C[p][q]*m.X[i*d+q]; }
  dfm2::CMatrixSparse<double> M; pattern(M, m, d); V b(n*d, 0.0);
  Sys<double> E(n,d), S(n,d); refE(E, m, lambda, myu, 1.0);
  int kind = tet ? rng.irange(0,4) : rng.irange(0,1);
  const char* nm = "";
  auto loads = [&](){ for(int p=0;p<d;++p) refLoad(S, m, p, rho*g[p]); };
  if( kind==0 ){ nm = tet ? "SolidLinear static tet" : "SolidLinear static tri";
    if( tet ) dfm2::MergeLinSys_SolidLinear_Static_MeshTet3D(M, b.data(), myu, lambda, rho, g, m.X.data(), n, m.E.data(), m.ne(), u.data());
    else dfm2::MergeLinSys_SolidLinear_Static_MeshTri2D(M, b.data(), myu, lambda, rho, g[0], g[1], m.X.data(), n, m.E.data(), m.ne(), u.data());
    refE(S, m, lambda, myu, 1.0); loads(); subAx(S, E, u, 1.0);
    if( lin ){ Sys<double> Ld(n,d); for(int p=0;p<d;++p) refLoad(Ld, m, p, rho*g[p]);
      for(unsigned int i=0;i<n*d;++i) if( !m.bnd[i/d] ) if( !CKN(b[i], Ld.b[i], 1e-10*S.maxb(), "elasticity: a constant strain leaves an interior residual", "dof %u", i) ) break;
      ctx.count("patch_tests"); }
  } else if( kind==1 ){ nm = tet ? "SolidLinear Newmark tet" : "SolidLinear Newmark tri";
    if( tet ) dfm2::MergeLinSys_SolidLinear_NewmarkBeta_MeshTet3D(M, b.data(), myu, lambda, rho, g, dt, ga, be, m.X.data(), n, m.E.data(), m.ne(), u.data(), v.data(), a.data());
    else dfm2::MergeLinSys_SolidLinear_NewmarkBeta_MeshTri2D(M, b.data(), myu, lambda, rho, g[0], g[1], dt, ga, be, m.X.data(), n, m.E.data(), m.ne(), u.data(), v.data(), a.data());
    Sys<double> Ms(n,d); refM(Ms, m, rho, d);
    refM(S, m, rho, d); refE(S, m, lambda, myu, be*dt*dt); loads();
    subAx(S, E, u, 1.0); subAx(S, E, v, dt); subAx(S, E, a, 0.5*dt*dt); subAx(S, Ms, a, 1.0);
  } else {
    auto lump = [&](){ double G[4][3]; for(size_t e=0;e<m.ne();++e){ double A = simplex_grad(m,e,G); for(int i=0;i<4;++i) for(int p=0;p<3;++p) S.addA(m.E[e*4+i],p,m.E[e*4+i],p,rho*A/4/(dt*dt)); } };
    if( kind==2 ){ nm = "SolidLinear backward Euler tet";
      dfm2::MergeLinSys_SolidLinear_BEuler_MeshTet3D(M, b.data(), myu, lambda, rho, g, dt, m.X.data(), n, m.E.data(), (unsigned int)m.ne(), u.data(), v.data());
      loads(); subAx(S, E, u, 1.0); subAx(S, E, v, dt); for(size_t i=0;i<S.b.size();++i){ S.b[i] /= dt; S.sb[i] /= dt; }
      refE(S, m, lambda, myu, 1.0); lump();
    } else { nm = "stiffness warping tet";
      V R(n*9); double R0[9]; rotm(rng, R0);
      bool rigid = kind==4; double t[3] = { rng.uni(-1,1), rng.uni(-1,1), rng.uni(-1,1) };
      for(unsigned int i=0;i<n;++i){ if( !rigid ) rotm(rng, R0); std::copy(R0,R0+9,&R[i*9]); }
      if( rigid ){ // a rigidly moved body (reached with dt v) carries no elastic force
        for(unsigned int i=0;i<n;++i) for(int p=0;p<3;++p){ double y = t[p]; for(int q=0;q<3;++q) y += R0[p*3+q]*m.X[i*3+q]; u[i*3+p] = y - m.X[i*3+p] - dt*v[i*3+p]; } }
      dfm2::MergeLinSys_SolidStiffwarp_BEuler_MeshTet3D(M, b.data(), myu, lambda, rho, g, dt, m.X.data(), n, m.E.data(), (unsigned int)m.ne(), u.data(), v.data(), R);
      loads();
      double G[4][3];
      for(size_t e=0;e<m.ne();++e){ double A = simplex_grad(m,e,G); const unsigned int* vv=&m.E[e*4];
        for(int i=0;i<4;++i){ const double* Q = &R[vv[i]*9];
          for(int j=0;j<4;++j){ double B[3][3], W[3][3], gg=0; for(int k=0;k<3;++k) gg += G[i][k]*G[j][k];
            for(int x=0;x<3;++x) for(int y=0;y<3;++y) B[x][y] = A*(lambda*G[i][x]*G[j][y]+myu*G[i][y]*G[j][x]+(x==y?myu*gg:0));
            for(int x=0;x<3;++x) for(int y=0;y<3;++y){ W[x][y]=0; for(int p=0;p<3;++p) for(int q=0;q<3;++q) W[x][y] += Q[x*3+p]*B[p][q]*Q[y*3+q]; }
            for(int x=0;x<3;++x) for(int y=0;y<3;++y){ double pj = m.X[vv[j]*3+y]+u[vv[j]*3+y]+dt*v[vv[j]*3+y];
              for(int q=0;q<3;++q) pj -= Q[y*3+q]*m.X[vv[j]*3+q];
              S.addb(vv[i], x, -W[x][y]*pj); } } } }
      for(size_t i=0;i<S.b.size();++i){ S.b[i] /= dt; S.sb[i] /= dt; }
      refE(S, m, lambda, myu, 1.0, R.data()); lump();
      if( rigid ){ Sys<double> Ld(n,3); for(int p=0;p<3;++p) refLoad(Ld, m, p, rho*g[p]/dt);
        double sc = 0; for(double x : u) sc = std::max(sc,std::fabs(x)); for(double x : m.X) sc = std::max(sc,std::fabs(x)); sc *= E.maxA()/dt; sc += S.maxb();
        for(unsigned int i=0;i<n*3;++i) if( !CKN(b[i], Ld.b[i], 1e-10*sc, "stiffness warping: a rigidly rotated body feels elastic forces", "dof %u", i) ) break;
        ctx.count("rigid_bodies"); }
    }
  }
  cmp(ctx, nm, S, M, b);
  ctx.count("elastic"); ctx.count(nm);
}

// hexahedra: exact integrals over the trilinear element taken with a higher quadrature of our own
VH_FAMILY(hexa, 150, 2500){
  Rng& rng = ctx.rng; Mesh m = mesh_hex(rng); unsigned int n = m.np();
  ctx.sig(Hash().vd(m.X).h);
  double myu = logu(rng,0.1,100), lambda = logu(rng,0.1,100), rho = logu(rng,0.1,10);
  double g[3] = { rng.uni(-10,10), rng.uni(-10,10), rng.uni(-10,10) };
  V u = rnd(rng,n*3,0.5); double C[3][4]; for(auto& r : C) for(double& x : r) x = rng.uni(-0.5,0.5);
  bool lin = rng.chance(0.5);
  if( lin ) for(unsigned int i=0;i<n;++i) for(int p=0;p<3;++p){ u[i*3+p] = C[p][3]; for(int q=0;q<3;++q) u[i*3+p] += C[p][q]*m.X[i*3+q]; }
  dfm2::CMatrixSparse<double> M; pattern(M, m, 3); V b, b0;
  dfm2::MergeLinSys_LinearSolid3D_Static_Q1(M, b, myu, lambda, rho, g, m.X, m.E, u);
  V D; dense(D, M); size_t N = n*3;
  double mA = 0; for(double x : D) mA = std::max(mA, std::fabs(x));
  V z(N,0.0); dfm2::CMatrixSparse<double> M0; pattern(M0, m, 3);
  dfm2::MergeLinSys_LinearSolid3D_Static_Q1(M0, b0, myu, lambda, rho, g, m.X, m.E, z);
  double sb = 0; for(size_t r=0;r<N;++r){ double s=std::fabs(b0[r]); for(size_t q=0;q<N;++q) s += std::fabs(D[r*N+q]*u[q]); sb = std::max(sb,s); }
  for(size_t r=0;r<N;++r){
    double s = b0[r], rig = 0;
    for(size_t q=0;q<N;++q){ s -= D[r*N+q]*u[q]; if( q%3==r%3 ) rig += D[r*N+q];
      if( q<r && !CKN(D[r*N+q], D[q*N+r], 1e-11*mA, "hexahedron: stiffness not symmetric", "(%zu,%zu)", r, q) ) return; }
    if( !CKN(b[r], s, 1e-11*sb, "hexahedron: residual is not load minus stiffness times displacement", "dof %zu", r) ) return;
    if( !CKN(rig, 0.0, 1e-11*mA*N, "hexahedron: a translation has energy", "dof %zu", r) ) return;
  }
  // infinitesimal rotation
  { double w[3] = { rng.uni(-1,1), rng.uni(-1,1), rng.uni(-1,1) }; V ru(N); double xs=0;
    for(unsigned int i=0;i<n;++i){ const double* x=&m.X[i*3]; ru[i*3]=w[1]*x[2]-w[2]*x[1]; ru[i*3+1]=w[2]*x[0]-w[0]*x[2]; ru[i*3+2]=w[0]*x[1]-w[1]*x[0]; for(int k=0;k<3;++k) xs=std::max(xs,std::fabs(ru[i*3+k])); }
    for(size_t r=0;r<N;++r){ double s=0; for(size_t q=0;q<N;++q) s += D[r*N+q]*ru[q]; if( !CKN(s, 0.0, 1e-10*mA*xs, "hexahedron: a small rotation has forces", "dof %zu", r) ) return; } }
  // total load, patch test and the energy of a constant strain
  double vol = 0; // by the divergence free splitting in 5-point Gauss of our own
  { static const double gp[3] = {-std::sqrt(0.6),0,std::sqrt(0.6)}, gw[3] = {5/9.,8/9.,5/9.};
    for(size_t e=0;e<m.ne();++e) for(int a=0;a<3;++a) for(int c=0;c<3;++c) for(int f=0;f<3;++f){
      double r[3] = {gp[a],gp[c],gp[f]}; double J[3][3] = {{0}};
      static const int sg[8][3] = {{-1,-1,-1},{1,-1,-1},{1,1,-1},{-1,1,-1},{-1,-1,1},{1,-1,1},{1,1,1},{-1,1,1}};
      for(int i=0;i<8;++i){ const double* x=&m.X[m.E[e*8+i]*3]; double s[3]; for(int k=0;k<3;++k) s[k]=1+sg[i][k]*r[k];
        double dN[3] = { sg[i][0]*s[1]*s[2]/8, s[0]*sg[i][1]*s[2]/8, s[0]*s[1]*sg[i][2]/8 };
        for(int k=0;k<3;++k) for(int l=0;l<3;++l) J[k][l] += dN[k]*x[l]; }
      vol += gw[a]*gw[c]*gw[f]*(J[0][0]*(J[1][1]*J[2][2]-J[1][2]*J[2][1])-J[0][1]*(J[1][0]*J[2][2]-J[1][2]*J[2][0])+J[0][2]*(J[1][0]*J[2][1]-J[1][1]*J[2][0])); } }
  for(int p=0;p<3;++p){ double s=0; for(unsigned int i=0;i<n;++i) s += b0[i*3+p]; CKN(s, rho*g[p]*vol, 1e-9*(rho*std::fabs(g[p])*vol+sb), "hexahedron: total load is not mass times gravity", "axis %d", p); }
  if( lin ){
    for(unsigned int i=0;i<N;++i) if( !m.bnd[i/3] ) if( !CKN(b[i], b0[i], 1e-10*sb, "hexahedron: a constant strain leaves an interior residual", "dof %u", i) ) return;
    double en=0, tr=0, sym=0; for(size_t r=0;r<N;++r) for(size_t q=0;q<N;++q) en += 0.5*u[r]*D[r*N+q]*u[q];
    for(int p=0;p<3;++p){ tr += C[p][p]; for(int q=0;q<3;++q){ double e=0.5*(C[p][q]+C[q][p]); sym += e*e; } }
    double us=0; for(double x : u) us=std::max(us,std::fabs(x));
    CKN(en, vol*(0.5*lambda*tr*tr+myu*sym), 1e-9*(vol*(lambda+myu)+mA*us*us), "hexahedron: energy of a constant strain", "n %u", n);
    ctx.count("patch_tests");
  }
  ctx.count("hexa");
}

// ---------------------------------------------------------------- flow
static double hdia(double A){ return std::sqrt(A/3.14)*2; }
VH_FAMILY(stokes, 350, 6000){
  Rng& rng = ctx.rng; bool tet = rng.chance(0.5), dyn = rng.chance(0.5);
  Mesh m = tet ? mesh_tet(rng) : mesh_tri(rng); int d = m.dim, D = d+1; unsigned int n = m.np();
  ctx.sig(Hash().vd(m.X).h);
  double myu = logu(rng,0.05,50), rho = logu(rng,0.1,10), dt = logu(rng,1e-3,1), ga = rng.pick({0.5,0.6,1.0});
  double g[3] = { rng.uni(-10,10), rng.uni(-10,10), rng.uni(-10,10) };
  V u = rnd(rng,n*D,1.0), w = rnd(rng,n*D,2.0);
  dfm2::CMatrixSparse<double> M; pattern(M, m, D); V b(n*D, 0.0);
  if( !tet && !dyn ) dfm2::MergeLinSys_StokesStatic2D(M, b.data(), myu, g[0], g[1], m.X.data(), n, m.E.data(), m.ne(), u.data());
  else if( !tet ) dfm2::MergeLinSys_StokesDynamic2D(M, b.data(), myu, rho, g[0], g[1], dt, ga, m.X.data(), n, m.E.data(), m.ne(), u.data(), w.data());
  else if( !dyn ) dfm2::MergeLinSys_Stokes3D_Static(M, b, myu, rho, g[0], g[1], g[2], m.X, m.E, u, w);
  else dfm2::MergeLinSys_Stokes3D_Dynamic(M, b, myu, rho, g[0], g[1], g[2], dt, ga, m.X, m.E, u, w);
  // viscosity, pressure gradient, incompressibility; the pressure block is (minus) a stabilising Laplacian whose strength is the
  // library's choice: read it from one single-element assembly per element (it must be one non-positive number per element)
  Sys<double> K(n,D), Ms(n,D), S(n,D);
  double G[4][3];
  for(size_t e=0;e<m.ne();++e){
    double A = simplex_grad(m,e,G); const unsigned int* v=&m.E[e*m.nno];
    double tau;
    { Mesh one; one.dim=d; one.nno=m.nno; for(int i=0;i<m.nno;++i){ one.E.push_back(i); for(int k=0;k<d;++k) one.X.push_back(m.X[v[i]*d+k]); }
      dfm2::CMatrixSparse<double> M1; pattern(M1, one, D); V z(m.nno*D,0.0), b1(m.nno*D,0.0);
      if( !tet && !dyn ) dfm2::MergeLinSys_StokesStatic2D(M1, b1.data(), myu, 0., 0., one.X.data(), 3, one.E.data(), 1, z.data());
      else if( !tet ) dfm2::MergeLinSys_StokesDynamic2D(M1, b1.data(), myu, rho, 0., 0., dt, ga, one.X.data(), 3, one.E.data(), 1, z.data(), z.data());
      else if( !dyn ) dfm2::MergeLinSys_Stokes3D_Static(M1, b1, myu, rho, 0., 0., 0., one.X, one.E, z, z);
      else dfm2::MergeLinSys_Stokes3D_Dynamic(M1, b1, myu, rho, 0., 0., 0., dt, ga, one.X, one.E, z, z);
      double gg=0; for(int k=0;k<d;++k) gg += G[0][k]*G[0][k];
      tau = M1.val_dia_[(0*D+d)*D+d]/(A*gg); if( dyn ) tau /= ga*dt;
      CK(tau <= 0 && std::isfinite(tau), "Stokes: pressure stabilisation has the wrong sign", "tau %g", tau);
      if( !tet ) CKN(tau, -0.1*hdia(A)*hdia(A)/myu, 0.05*std::fabs(tau), "Stokes: pressure stabilisation is not h^2 over viscosity", "area %g myu %g", A, myu);
    }
    for(int i=0;i<m.nno;++i) for(int j=0;j<m.nno;++j){ double gg=0; for(int k=0;k<d;++k) gg += G[i][k]*G[j][k];
      for(int k=0;k<d;++k){ K.addA(v[i],k,v[j],k,myu*A*gg); K.addA(v[i],k,v[j],d,A*G[i][k]/m.nno); K.addA(v[i],d,v[j],k,A*G[j][k]/m.nno); }
      K.addA(v[i],d,v[j],d,tau*A*gg); }
  }
  for(int k=0;k<d;++k) refLoad(S, m, k, g[k]);
  if( !dyn ){ S.A = K.A; S.sA = K.sA; subAx(S, K, u, 1.0); }
  else { refM(Ms, m, rho, d); S.A = Ms.A; S.sA = Ms.sA; for(size_t i=0;i<S.A.size();++i){ S.A[i] += ga*dt*K.A[i]; S.sA[i] += ga*dt*K.sA[i]; }
    subAx(S, K, u, 1.0); subAx(S, K, w, dt); subAx(S, Ms, w, 1.0); }
  cmp(ctx, tet ? (dyn?"Stokes 3D dynamic":"Stokes 3D static") : (dyn?"Stokes 2D dynamic":"Stokes 2D static"), S, M, b);
  ctx.count("stokes"); ctx.count(tet ? (dyn?"stokes3d":"stokes3s") : (dyn?"stokes2d":"stokes2s"));
}

// incompressible flow with advection: full stabilised (SUPG/PSPG) form, with the stabilisation time read from the library's own pressure block
static void refNS(Sys<double>& C, Sys<double>& Ms, const Mesh& m, const V& u, const std::vector<double>& tau, double rho, double myu){
  int d = m.dim; double G[4][3], den = d==2 ? 12 : 20; int D = d+1;
  for(size_t e=0;e<m.ne();++e){
    double A = simplex_grad(m,e,G); const unsigned int* v=&m.E[e*m.nno]; int N = m.nno; double t = tau[e];
    double ave[3]={0,0,0}; for(int i=0;i<N;++i) for(int k=0;k<d;++k) ave[k] += u[v[i]*D+k]/N;
    for(int i=0;i<N;++i) for(int j=0;j<N;++j){
      double gg=0; for(int k=0;k<d;++k) gg += G[i][k]*G[j][k];
      for(int a=0;a<d;++a) for(int b=0;b<d;++b) C.addA(v[i],a,v[j],b, A*myu*(G[i][b]*G[j][a]+(a==b?gg:0)));
      double adv=0, supg=0, supgM=0, gva=0, gja=0;
      for(int p=0;p<N;++p) for(int k=0;k<d;++k){ // int phi_i (u.grad) phi_j
        double w = A*(p==i?2:1)/den; adv += w*u[v[p]*D+k]*G[j][k];
        double wj = A*(p==j?2:1)/den; supgM += wj*u[v[p]*D+k]*G[i][k];
        for(int q=0;q<N;++q) for(int l=0;l<d;++l) supg += A*(p==q?2:1)/den*u[v[p]*D+k]*G[i][k]*u[v[q]*D+l]*G[j][l]; }
      for(int k=0;k<d;++k){ gva += G[i][k]*ave[k]; gja += G[j][k]*ave[k]; }
      for(int a=0;a<d;++a){
        C.addA(v[i],a,v[j],a, rho*adv); C.addA(v[i],a,v[j],a, t*rho*supg);
        C.addA(v[i],a,v[j],d, -A*G[i][a]/N); C.addA(v[i],a,v[j],d, t*A*gva*G[j][a]);
        C.addA(v[i],d,v[j],a, A*G[j][a]/N); C.addA(v[i],d,v[j],a, t*A*gja*G[i][a]);
        Ms.addA(v[i],a,v[j],a, rho*A*(i==j?2:1)/den); Ms.addA(v[i],a,v[j],a, t*rho*supgM);
        Ms.addA(v[i],d,v[j],a, t*A*G[i][a]/N);
      }
      C.addA(v[i],d,v[j],d, A*t/rho*gg);
    }
  }
}
static void callNS(dfm2::CMatrixSparse<double>& M, V& b, const Mesh& m, double myu, double rho, const double* g, double dt, double ga, const V& u, const V& w){
  b.assign(m.np()*(m.dim+1), 0.0);
  if( m.dim==2 ) dfm2::MergeLinSys_NavierStokes2D(M, b.data(), myu, rho, g[0], g[1], dt, ga, m.X.data(), m.np(), m.E.data(), m.ne(), u.data(), w.data());
  else dfm2::MergeLinSys_NavierStokes3D_Dynamic(M, b, myu, rho, g[0], g[1], g[2], dt, ga, m.X, m.E, u, w);
}
VH_FAMILY(navier, 250, 4000){
  Rng& rng = ctx.rng; bool tet = rng.chance(0.5);
  Mesh m = tet ? mesh_tet(rng) : mesh_tri(rng); int d = m.dim, D = d+1; unsigned int n = m.np();
  ctx.sig(Hash().vd(m.X).h);
  double myu = logu(rng,0.001,10), rho = logu(rng,0.1,10), dt = logu(rng,1e-3,1), ga = rng.pick({0.5,0.6,1.0});
  double g[3] = { rng.uni(-10,10), rng.uni(-10,10), rng.uni(-10,10) };
  V u = rnd(rng,n*D,logu(rng,0.01,10)), w = rnd(rng,n*D,2.0);
  bool exact = rng.chance(0.25), still = !exact && rng.chance(0.15);
  V uc = rnd(rng,3,1.0), ac = rnd(rng,3,1.0), pc = rnd(rng,3,1.0);
  if( still ) for(unsigned int i=0;i<n;++i) for(int k=0;k<d;++k) u[i*D+k] = 0;
  if( exact ) for(unsigned int i=0;i<n;++i){ // uniformly accelerated plug flow driven by a linear pressure
    double p = 0; for(int k=0;k<d;++k){ u[i*D+k] = uc[k]; w[i*D+k] = ac[k]; p -= rho*ac[k]*m.X[i*d+k]; w[i*D+d] += 0; }
    w[i*D+d] = 0; for(int k=0;k<d;++k) w[i*D+d] += pc[k]*m.X[i*d+k];
    u[i*D+d] = p - dt*w[i*D+d];
    for(int k=0;k<3;++k) g[k] = 0; }
  dfm2::CMatrixSparse<double> M; pattern(M, m, D); V b;
  callNS(M, b, m, myu, rho, g, dt, ga, u, w);
  bool fin = true; for(double x : b) fin = fin && std::isfinite(x); for(double x : M.val_dia_) fin = fin && std::isfinite(x);
  if( !CK(fin, "Navier-Stokes: the assembled system is not finite", "dim %d still %d", d, (int)still) ) return;
  // stabilisation time per element
  V tau(m.ne()); double G[4][3];
  for(size_t e=0;e<m.ne();++e){
    double A = simplex_grad(m,e,G); const unsigned int* v=&m.E[e*m.nno];
    Mesh one; one.dim=d; one.nno=m.nno; V u1, w1; for(int i=0;i<m.nno;++i){ one.E.push_back(i); for(int k=0;k<d;++k) one.X.push_back(m.X[v[i]*d+k]); for(int k=0;k<D;++k){ u1.push_back(u[v[i]*D+k]); w1.push_back(w[v[i]*D+k]); } }
    dfm2::CMatrixSparse<double> M1; pattern(M1, one, D); V b1; callNS(M1, b1, one, myu, rho, g, dt, ga, u1, w1);
    double gg=0; for(int k=0;k<d;++k) gg += G[0][k]*G[0][k];
    tau[e] = M1.val_dia_[(0*D+d)*D+d]*rho/(A*gg*ga*dt);
    if( !CK(tau[e] >= 0 && std::isfinite(tau[e]), "Navier-Stokes: stabilisation time negative", "tau %g", tau[e]) ) return;
  }
  Sys<double> C(n,D), Ms(n,D), S(n,D); refNS(C, Ms, m, u, tau, rho, myu);
  for(int k=0;k<d;++k) refLoad(S, m, k, rho*g[k]);
  S.A = Ms.A; S.sA = Ms.sA; for(size_t i=0;i<S.A.size();++i){ S.A[i] += ga*dt*C.A[i]; S.sA[i] += ga*dt*C.sA[i]; }
  subAx(S, C, u, 1.0); subAx(S, C, w, dt); subAx(S, Ms, w, 1.0);
  // rounding of u+dt*w is relative to the larger, matrix entries mix very different units: compare per block
  if( !cmp(ctx, tet ? "Navier-Stokes 3D" : "Navier-Stokes 2D", S, M, b, 1e-10) ) return;
  if( exact ){
    for(unsigned int i=0;i<n*D;++i) if( !m.bnd[i/D] ) if( !CKN(b[i], 0.0, 1e-9*S.maxb(), "Navier-Stokes: uniformly accelerated flow leaves an interior residual", "dof %u dim %d", i, d) ) return;
    ctx.count("exact_flows");
  }
  { // the momentum of the whole region: boundary-free sum over all nodes of the velocity rows is independent of the stabilisation
    for(int k=0;k<d;++k){ double s=0; for(unsigned int i=0;i<n;++i) s += b[i*D+k];
      double ex = 0; double G2[4][3]; for(size_t e=0;e<m.ne();++e){ double A = simplex_grad(m,e,G2); const unsigned int* v=&m.E[e*m.nno]; int N=m.nno; ex += rho*g[k]*A;
        double dv[3]={0,0,0}, um[3]={0,0,0}; for(int j=0;j<N;++j){ ex -= rho*A*w[v[j]*D+k]/N; for(int l=0;l<d;++l){ dv[l] += G2[j][l]*(u[v[j]*D+k]+dt*w[v[j]*D+k]); um[l] += u[v[j]*D+l]/N; } }
        for(int l=0;l<d;++l) ex -= rho*A*um[l]*dv[l]; }
      CKN(s, ex, 1e-9*S.maxb()*n, "Navier-Stokes: total momentum rate", "axis %d", k); } }
  ctx.count("navier"); ctx.count(tet?"navier3":"navier2"); if( still ) ctx.count("still_fluid");
}

// ---------------------------------------------------------------- plates
VH_FAMILY(plate, 200, 3000){
  Rng& rng = ctx.rng; Mesh m = mesh_tri(rng); unsigned int n = m.np(); size_t N = n*3;
  ctx.sig(Hash().vd(m.X).h);
  double myu = logu(rng,0.1,100), lambda = logu(rng,0.1,100), rho = logu(rng,0.1,10), thk = logu(rng,0.01,1), gz = rng.uni(-10,10);
  V u = rng.chance(0.3) ? V(N,0.0) : rnd(rng,N,0.5);
  dfm2::CMatrixSparse<double> M; pattern(M, m, 3); V b(N,0.0);
  dfm2::MergeLinSys_ShellStaticPlateBendingMITC3_MeshTri2D(M, b.data(), thk, lambda, myu, rho, gz, m.X.data(), n, m.E.data(), m.ne(), u.data());
  V D; dense(D, M); double mA=0; for(double x : D) mA=std::max(mA,std::fabs(x));
  Sys<double> Ld(n,3); refLoad(Ld, m, 0, rho*thk*gz);
  double sb=0; for(size_t r=0;r<N;++r){ double s=std::fabs(Ld.b[r]); for(size_t q=0;q<N;++q) s += std::fabs(D[r*N+q]*u[q]); sb=std::max(sb,s); }
  for(size_t r=0;r<N;++r){
    double s = Ld.b[r], rig=0; for(size_t q=0;q<N;++q){ s -= D[r*N+q]*u[q]; if( q%3==0 ) rig += D[r*N+q];
      if( q<r && !CKN(D[r*N+q], D[q*N+r], 1e-11*mA, "plate: stiffness not symmetric", "(%zu,%zu)", r, q) ) return; }
    if( !CKN(rig, 0.0, 1e-11*mA*N, "plate: a translation has forces", "dof %zu", r) ) return;
    if( !CKN(b[r], s, 1e-10*sb, "plate: residual is not the load minus stiffness times displacement", "dof %zu (zero state %d)", r, (int)(u==V(N,0.0))) ) return;
  }
  // tilting the plate rigidly: w = a x + b y with the matching rotations carries no energy
  for(int t=0;t<2;++t){ bool ok=false;
    for(int sgn=-1;sgn<=1 && !ok;sgn+=2){ V r(N,0.0); double xs=1; for(unsigned int i=0;i<n;++i){ r[i*3]=m.X[i*2+t]; xs=std::max(xs,std::fabs(r[i*3])); r[i*3+2-t] = t==0 ? -sgn : sgn; }
      double mxr=0; for(size_t a=0;a<N;++a){ double s=0; for(size_t q=0;q<N;++q) s += D[a*N+q]*r[q]; mxr=std::max(mxr,std::fabs(s)); }
      ok = mxr <= 1e-9*mA*xs; }
    CK(ok, "plate: a rigid tilt has forces", "axis %d", t); }
  V mass(N); dfm2::MassLumped_ShellPlateBendingMITC3(mass.data(), rho, thk, m.X.data(), n, m.E.data(), (unsigned int)m.ne());
  double s0=0,s1=0,s2=0,A=lin_tot(m); for(unsigned int i=0;i<n;++i){ s0+=mass[i*3]; s1+=mass[i*3+1]; s2+=mass[i*3+2]; CK(mass[i*3]>0 && mass[i*3+1]>0 && mass[i*3+2]>0, "plate: nodal mass not positive", "node %u", i); }
  CKN(s0, rho*thk*A, 1e-10*rho*thk*A, "plate: total mass", "n %u", n);
  double I = rho*A*thk*thk*thk/12; CKN(s1, I, 1e-10*I, "plate: total rotary inertia about x", "n %u", n); CKN(s2, I, 1e-10*I, "plate: total rotary inertia about y", "n %u", n);
  ctx.count("plates");
}

// ---------------------------------------------------------------- shape functions and tables
static double fact(int n){ double f=1; for(int i=2;i<=n;++i) f*=i; return f; }
VH_FAMILY(tables, 300, 4000){
  Rng& rng = ctx.rng; ctx.sig(rng.next());
  int which = rng.irange(0,5);
  if( which==0 ){ // Gauss-Legendre: n points, degree 2n-1
    int n = rng.irange(1,7); unsigned int a = dfm2::kNumIntegrationPoint_GaussianQuadrature[n-1], b = dfm2::kNumIntegrationPoint_GaussianQuadrature[n];
    if( !CK((int)(b-a)==n, "Gauss table: number of points", "order %d has %u points", n, b-a) ) return;
    for(int deg=0;deg<=2*n-1;++deg){ double s=0; for(unsigned int i=a;i<b;++i) s += dfm2::kPositionWeight_GaussianQuadrature<double>[i][1]*std::pow(dfm2::kPositionWeight_GaussianQuadrature<double>[i][0],deg);
      CKN(s, deg%2?0.0:2.0/(deg+1), 1e-12, "Gauss table: a monomial is not integrated exactly", "%d points degree %d", n, deg);
      double sf=0; for(unsigned int i=a;i<b;++i) sf += (double)dfm2::kPositionWeight_GaussianQuadrature<float>[i][1]*std::pow((double)dfm2::kPositionWeight_GaussianQuadrature<float>[i][0],deg);
      CKN(sf, deg%2?0.0:2.0/(deg+1), 1e-6, "Gauss table (float): a monomial is not integrated exactly", "%d points degree %d", n, deg); }
    ctx.count("gauss_tables");
  } else if( which==1 ){ // Kronrod 15: degree 22
    for(int deg=0;deg<=22;++deg){ double s=0; for(int i=0;i<15;++i) s += dfm2::kPositionWeight_GaussKronrodQuadrature<double>[i][1]*std::pow(dfm2::kPositionWeight_GaussKronrodQuadrature<double>[i][0],deg);
      CKN(s, deg%2?0.0:2.0/(deg+1), 1e-12, "Kronrod table: a monomial is not integrated exactly", "degree %d", deg); }
    ctx.count("gauss_tables");
  } else if( which==2 ){
    int k = rng.irange(0,2); static const int dg[3] = {1,2,5};
    for(int p=0;p<=dg[k];++p) for(int q=0;p+q<=dg[k];++q){ double s=0, sw=0; for(unsigned int i=0;i<dfm2::NIntTriGauss[k];++i){ const double* t = dfm2::TriGauss<double>[k][i]; s += t[2]*std::pow(t[0],p)*std::pow(t[1],q); sw += t[2]; }
      CKN(s, 2*fact(p)*fact(q)/fact(p+q+2), 2e-8, "triangle table: a monomial is not integrated exactly", "rule %d x^%d y^%d (weights %.12g)", k, p, q, sw); }
    ctx.count("gauss_tables");
  } else if( which==3 ){
    int k = rng.irange(0,3); static const int dg[4] = {1,2,3,4};
    for(int p=0;p<=dg[k];++p) for(int q=0;p+q<=dg[k];++q) for(int r=0;p+q+r<=dg[k];++r){ double s=0; for(unsigned int i=0;i<dfm2::NIntTetGauss[k];++i){ const double* t = dfm2::TetGauss<double>[k][i]; s += t[3]*std::pow(t[0],p)*std::pow(t[1],q)*std::pow(t[2],r); }
      CKN(s, 6*fact(p)*fact(q)*fact(r)/fact(p+q+r+3), 2e-8, "tetrahedron table: a monomial is not integrated exactly", "rule %d x^%d y^%d z^%d", k, p, q, r); }
    ctx.count("gauss_tables");
  } else { // shape functions
    Mesh m = which==4 ? (rng.chance(0.5) ? mesh_tri(rng) : mesh_tet(rng)) : mesh_hex(rng);
    int d = m.dim, N = m.nno; size_t e = rng.irange(0,(int)m.ne()-1); const unsigned int* v=&m.E[e*N];
    double c[4] = { rng.uni(-1,1), rng.uni(-1,1), rng.uni(-1,1), rng.uni(-1,1) };
    double P[8][3]; for(int i=0;i<N;++i) for(int k=0;k<3;++k) P[i][k] = k<d ? m.X[v[i]*d+k] : 0;
    double f[8]; for(int i=0;i<N;++i){ f[i]=c[3]; for(int k=0;k<d;++k) f[i] += c[k]*P[i][k]; }
    double sc = 1; for(int i=0;i<N;++i) for(int k=0;k<d;++k) sc = std::max(sc,std::fabs(P[i][k]));
    if( N==3 ){
      double dl[3][2], ct[3]; dfm2::TriDlDx(dl, ct, P[0], P[1], P[2]);
      double G[4][3]; double A = simplex_grad(m,e,G); double gm=0; for(int i=0;i<3;++i) for(int k=0;k<2;++k) gm=std::max(gm,std::fabs(G[i][k]));
      for(int i=0;i<3;++i){ for(int k=0;k<2;++k) CKN(dl[i][k], G[i][k], 1e-11*gm*(1+sc*gm), "TriDlDx: gradient", "node %d", i);
        for(int j=0;j<3;++j) CKN(dl[i][0]*P[j][0]+dl[i][1]*P[j][1]+ct[i], i==j?1.0:0.0, 1e-11*(1+sc*gm)*(1+sc*gm), "TriDlDx: value at a node", "%d %d", i, j); }
      CKN(dfm2::femutil::TriArea2D(P[0],P[1],P[2]), A, 1e-12*(A+sc*sc), "TriArea2D", "%d", 0);
      double bc[3], l0=rng.u01(), l1=rng.u01()*(1-l0), q[2]; for(int k=0;k<2;++k) q[k] = l0*P[0][k]+l1*P[1][k]+(1-l0-l1)*P[2][k];
      dfm2::femutil::TriAreaCoord(bc, P[0],P[1],P[2], q); CKN(bc[0],l0,1e-10*(1+sc*gm)*(1+sc*gm),"TriAreaCoord","%d",0); CKN(bc[1],l1,1e-10*(1+sc*gm)*(1+sc*gm),"TriAreaCoord","%d",1); CKN(bc[2],1-l0-l1,1e-10*(1+sc*gm)*(1+sc*gm),"TriAreaCoord","%d",2);
    } else if( N==4 ){
      double dl[4][3], ct[4]; dfm2::TetDlDx(dl, ct, P[0], P[1], P[2], P[3]);
      double G[4][3]; double A = simplex_grad(m,e,G); double gm=0; for(int i=0;i<4;++i) for(int k=0;k<3;++k) gm=std::max(gm,std::fabs(G[i][k]));
      for(int i=0;i<4;++i){ for(int k=0;k<3;++k) CKN(dl[i][k], G[i][k], 1e-10*gm*(1+sc*gm), "TetDlDx: gradient", "node %d", i);
        for(int j=0;j<4;++j) CKN(dl[i][0]*P[j][0]+dl[i][1]*P[j][1]+dl[i][2]*P[j][2]+ct[i], i==j?1.0:0.0, 1e-10*(1+sc*gm)*(1+sc*gm), "TetDlDx: value at a node", "%d %d", i, j); }
      CKN(dfm2::femutil::TetVolume3D(P[0],P[1],P[2],P[3]), A, 1e-12*(A+sc*sc*sc), "TetVolume3D", "%d", 0);
    } else {
      double r[3] = { rng.uni(-1,1), rng.uni(-1,1), rng.uni(-1,1) }, det, dn[8][3], an[8];
      dfm2::ShapeFunc_Hex8(r[0],r[1],r[2], P, det, dn, an);
      double s=0, val=0, gr[3]={0,0,0}; for(int i=0;i<8;++i){ s += an[i]; val += an[i]*f[i]; for(int k=0;k<3;++k) gr[k] += dn[i][k]*f[i]; }
      CKN(s, 1.0, 1e-13*8, "Hex8: shape functions do not sum to one", "%d", 0); CK(det > 0, "Hex8: negative jacobian on a valid element", "det %g", det);
      for(int k=0;k<3;++k) CKN(gr[k], c[k], 1e-9*(1+sc), "Hex8: gradient of a linear field", "axis %d", k);
      for(int i=0;i<8;++i){ // delta property at the corners, in the library's numbering
        static const int sg[8][3] = {{-1,-1,-1},{1,-1,-1},{1,1,-1},{-1,1,-1},{-1,-1,1},{1,-1,1},{1,1,1},{-1,1,1}};
        double a2[8], d2[8][3], dt2; dfm2::ShapeFunc_Hex8((double)sg[i][0],(double)sg[i][1],(double)sg[i][2], P, dt2, d2, a2);
        for(int j=0;j<8;++j) CKN(a2[j], i==j?1.0:0.0, 1e-13, "Hex8: not one at its own corner only", "%d %d", i, j); }
      for(int o=1;o<=3;++o){ double vol=0, fd=0; int np=o+1; unsigned int off = dfm2::kNumIntegrationPoint_GaussianQuadrature[o];
        for(int a=0;a<np;++a) for(int b=0;b<np;++b) for(int q=0;q<np;++q){ double dd[8][3]; double w = dfm2::DiffShapeFuncAtQuadraturePoint_Hex(dd,o,a,b,q,P); vol += w; double t=0; for(int i=0;i<8;++i) t += dd[i][0]*f[i]; fd = std::max(fd,std::fabs(t-c[0])); }
        (void)off; static double v0; if( o==1 ) v0 = vol; else CKN(vol, v0, 1e-10*v0, "Hex8: volume depends on the quadrature order", "order %d", o);
        CK(fd <= 1e-9*(1+sc), "Hex8 at quadrature points: gradient of a linear field", "error %g", fd); }
      // axis aligned voxel
      double B[3] = { logu(rng,0.2,5), logu(rng,0.2,5), logu(rng,0.2,5) }, Q[8][3]; static const int vg[8][3] = {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}};
      for(int i=0;i<8;++i) for(int k=0;k<3;++k) Q[i][k] = P[0][k]+vg[i][k]*B[k];
      double dv[8][3], av[8], dtv, dh[8][3], ah[8], dth; dfm2::ShapeFunc_Hex8(r[0],r[1],r[2],Q,dth,dh,ah);
      for(int i=0;i<8;++i) f[i] = c[3]+c[0]*Q[i][0]+c[1]*Q[i][1]+c[2]*Q[i][2];
      { double QV[8][3]; for(int i=0;i<8;++i) for(int k=0;k<3;++k) QV[i][k] = P[0][k]+((i>>k)&1)*B[k];
        dfm2::ShapeFunc_Vox8(r[0],r[1],r[2],QV,dtv,dv,av);
        double gv[3]={0,0,0}, sv=0, fv=0, x[3]; for(int k=0;k<3;++k) x[k] = P[0][k]+B[k]*0.5*(1+r[k]);
        for(int i=0;i<8;++i){ double fi = c[3]+c[0]*QV[i][0]+c[1]*QV[i][1]+c[2]*QV[i][2]; sv += av[i]; fv += av[i]*fi; for(int k=0;k<3;++k) gv[k] += dv[i][k]*fi; }
        CKN(sv, 1.0, 1e-12, "Vox8: shape functions do not sum to one", "%d", 0); CKN(dtv, B[0]*B[1]*B[2]/8, 1e-11*B[0]*B[1]*B[2], "Vox8: jacobian of a box", "%d", 0);
        CKN(fv, c[3]+c[0]*x[0]+c[1]*x[1]+c[2]*x[2], 1e-11*(1+sc+B[0]+B[1]+B[2]), "Vox8: value of a linear field", "%d", 0);
        for(int k=0;k<3;++k) CKN(gv[k], c[k], 1e-9*(1+sc), "Vox8: gradient of a linear field", "axis %d", k); }
      CKN(dth, B[0]*B[1]*B[2]/8, 1e-11*B[0]*B[1]*B[2], "Hex8: jacobian of a box", "%d", 0);
    }
    ctx.count("shape_functions");
  }
}
VH_FAMILY(quad, 60, 600){
  Rng& rng = ctx.rng; double lx = logu(rng,0.2,5), ly = logu(rng,0.2,5); ctx.sig(Hash().d(lx).d(ly).h);
  double a[4][4], b[4][4]; dfm2::EMat_Poission2_QuadOrth(a, lx, ly); double mxv = lx/ly+ly/lx;
  double X[4][2] = {{0,0},{lx,0},{lx,ly},{0,ly}};
  for(unsigned int ng=1;ng<=4;++ng){ dfm2::EMat_Poisson2_QuadOrth_GaussInt(b, lx, ly, ng);
    for(int i=0;i<4;++i) for(int j=0;j<4;++j) CKN(b[i][j], a[i][j], 1e-12*mxv, "rectangle: closed form differs from the quadrature", "(%d,%d) rule %u", i, j, ng); }
  for(int t=0;t<2;++t) for(int i=0;i<4;++i){ double s=0,s1=0; for(int j=0;j<4;++j){ s += a[i][j]*X[j][t]; s1 += a[i][j]; }
    CKN(s, (X[i][t]>0?1:-1)*0.5*lx*ly/(t==0?lx:ly), 1e-12*mxv*(lx+ly), "rectangle: flux of a linear field", "node %d", i); CKN(s1, 0.0, 1e-13*mxv*4, "rectangle: constants have a residual", "node %d", i); }
  ctx.count("quads");
}
