// C21: linear programming. Oracle: exact enumeration of the vertices and extreme rays of the feasible
// polyhedron in integer arithmetic for small programs, a constructed primal/dual pair for larger ones.
#include <array>
#include <sstream>
#include <iostream>
#include "../lib/vh.h"
#include "delfem2/lp.h"
namespace dfm2 = delfem2;
using vh::Rng;
typedef std::vector<double> V;
typedef __int128 I;
struct Con { std::vector<int> a; int b; int t; }; // t 0:LE 1:GE 2:EQ
static double dbl(I x){ return (double)x; }
// determinant by fraction-free elimination
static I det(std::vector<std::vector<I>> m){
  int n = (int)m.size(); I prev = 1; int sg = 1;
  for(int k=0;k<n;++k){ int p = k; while( p<n && m[p][k]==0 ) ++p; if( p==n ) return 0; if( p!=k ){ std::swap(m[p],m[k]); sg = -sg; }
    for(int i=k+1;i<n;++i) for(int j=k+1;j<n;++j) m[i][j] = (m[i][j]*m[k][k]-m[i][k]*m[k][j])/prev; prev = m[k][k]; }
  return sg*m[n-1][n-1];
}
struct Vtx { std::vector<I> x; I w; }; // point x/w, w>0
static bool feasible(const std::vector<Con>& C, const Vtx& v){
  for(auto q : v.x) if( q < 0 ) return false;
  for(auto& c : C){ I s = -(I)c.b*v.w; for(size_t i=0;i<c.a.size();++i) s += c.a[i]*v.x[i]; if( c.t==0 ? s>0 : c.t==1 ? s<0 : s!=0 ) return false; }
  return true;
}
static std::vector<Vtx> vertices(const std::vector<Con>& C, int n){
  std::vector<std::vector<int>> H; std::vector<int> h; for(auto& c : C){ H.push_back(c.a); H.back().resize(n,0); h.push_back(c.b); } for(int i=0;i<n;++i){ std::vector<int> e(n,0); e[i] = 1; H.push_back(e); h.push_back(0); }
  std::vector<Vtx> R; int m = (int)H.size(); std::vector<int> sel(n); for(int i=0;i<n;++i) sel[i] = i;
  for(;;){
    std::vector<std::vector<I>> M(n,std::vector<I>(n)); for(int i=0;i<n;++i) for(int j=0;j<n;++j) M[i][j] = H[sel[i]][j]; I w = det(M);
    if( w != 0 ){ Vtx v; v.x.resize(n); v.w = w; for(int j=0;j<n;++j){ auto N = M; for(int i=0;i<n;++i) N[i][j] = h[sel[i]]; v.x[j] = det(N); } if( w<0 ){ v.w = -w; for(auto& q : v.x) q = -q; } if( feasible(C,v) ) R.push_back(v); }
    int k = n-1; while( k>=0 && sel[k]==m-n+k ) --k; if( k<0 ) break; ++sel[k]; for(int i=k+1;i<n;++i) sel[i] = sel[i-1]+1;
  }
  return R;
}
static std::string show(const std::vector<Con>& C, const std::vector<int>& c){ std::ostringstream o; for(auto& k : C){ for(int q : k.a) o<<q<<" "; o<<(k.t==0?"<=":k.t==1?">=":"=")<<" "<<k.b<<"; "; } o<<"max "; for(int q : c) o<<q<<" "; return o.str(); }
struct Quiet { std::streambuf* b; std::ostringstream o; Quiet(){ b = std::cout.rdbuf(o.rdbuf()); } ~Quiet(){ std::cout.rdbuf(b); } };
static const int LIM = 20000;

static bool sat(const std::vector<Con>& C, const V& x, double tol, double* worst=nullptr){
  double w = 0; for(double q : x) w = std::max(w,-q); for(auto& c : C){ double s = -c.b, m = 1+std::abs(c.b); for(size_t i=0;i<c.a.size();++i){ double q = i<x.size()?x[i]:0; s += c.a[i]*q; m += std::fabs(c.a[i]*q); } double r = c.t==0 ? s : c.t==1 ? -s : std::fabs(s); w = std::max(w, r/m); } if( worst ) *worst = w; return w <= tol;
}

// judge one program for several targets on one object
static void judge(vh::Ctx& ctx, dfm2::CLinPro& lp, const std::vector<Con>& C, int n, const std::vector<std::vector<int>>& targets){
  auto vs = vertices(C,n); std::vector<Vtx> rays; { auto D = C; for(auto& c : D) c.b = 0; Con k; k.a.assign(n,1); k.b = 1; k.t = 2; D.push_back(k); rays = vertices(D,n); }
  int it = LIM, r; { Quiet q; r = lp.Precomp(it); }
  if( !CK(it < LIM, "precomp_no_termination", "%s", show(C,targets[0]).c_str()) ) return;
  if( vs.empty() ){ CK(r == 3, "infeasible_not_reported", "res %d %s", r, show(C,targets[0]).c_str()); ctx.count("infeasible"); return; }
  if( !CK(r == 0, "feasible_rejected", "res %d %s", r, show(C,targets[0]).c_str()) ) return;
  ctx.count("feasible"); V g = lp.GetValid(); double wst; CK((int)g.size()==n && sat(C,g,1e-9,&wst), "initial_point_infeasible", "%g %s", wst, show(C,targets[0]).c_str());
  { bool deg = false; for(auto& v : vs){ int tight = 0; for(auto q : v.x) tight += q==0; for(auto& c : C){ I s = -(I)c.b*v.w; for(size_t i=0;i<c.a.size();++i) s += c.a[i]*v.x[i]; tight += s==0; } deg |= tight > n; } if( deg ) ctx.count("degenerate"); }
  for(auto& c : targets){
    bool unb = false; for(auto& d : rays){ I s = 0; for(int i=0;i<n;++i) s += (I)c[i]*d.x[i]; unb |= s > 0; }
    V cf(c.begin(),c.end()), x; double val = -777; int ni = LIM; int s; { Quiet q; s = lp.Solve(x, val, ni, cf); }
    if( !CK(ni < LIM, "no_termination", "%s", show(C,c).c_str()) ) return;
    if( unb ){ CK(s == 2, "unbounded_not_reported", "res %d val %g %s", s, val, show(C,c).c_str()); ctx.count("unbounded"); continue; }
    double best = -1e300; for(auto& v : vs){ I t = 0; for(int i=0;i<n;++i) t += (I)c[i]*v.x[i]; best = std::max(best, dbl(t)/dbl(v.w)); }
    if( !CK(s == 0, "optimum_not_found", "res %d, optimum %g %s", s, best, show(C,c).c_str()) ) continue;
    if( !CK((int)x.size()==n, "solution_size", "%zu", x.size()) ) continue; double cx = 0; for(int i=0;i<n;++i) cx += c[i]*x[i];
    CK(sat(C,x,1e-9,&wst), "infeasible_solution", "%g x %s %s", wst, vh::str(x).c_str(), show(C,c).c_str());
    CKN(val, best, 1e-8*(1+std::fabs(best)), "not_optimal", "%s", show(C,c).c_str()); CKN(cx, val, 1e-8*(1+std::fabs(best)), "value_mismatch", "%s", show(C,c).c_str()); ctx.count("optimal");
  }
}
static void add(dfm2::CLinPro& lp, const Con& c){ lp.AddEqn(V(c.a.begin(),c.a.end()), c.b, c.t==0 ? dfm2::CLinPro::LE : c.t==1 ? dfm2::CLinPro::GE : dfm2::CLinPro::EQ); }
static std::vector<std::vector<int>> goals(Rng& rng, int n, int k){ std::vector<std::vector<int>> T; for(int j=0;j<k;++j){ std::vector<int> c(n); int m = rng.pick({1,3,9}); for(int& q : c) q = rng.irange(-m,m); T.push_back(c); } return T; }
static uint64_t hsh(const std::vector<Con>& C){ vh::Hash h; for(auto& c : C){ for(int q : c.a) h.d(q); h.d(c.b).u(c.t); } return h.h; }

VH_FAMILY(general, 6000, 120000){
  Rng& rng = ctx.rng; int n = rng.irange(1,4), m = rng.irange(1,6); int mag = rng.pick({1,2,5,9}); double peq = rng.pick({0.0,0.2,0.6}), pneg = rng.pick({0.0,0.5}), pz = rng.uni(0,.6); std::vector<Con> C;
  for(int k=0;k<m;++k){ Con c; c.t = rng.chance(peq) ? 2 : rng.irange(0,1); for(int i=0;i<n;++i) c.a.push_back(rng.chance(pz) ? 0 : rng.irange(rng.chance(pneg)||pneg==0 ? -mag : 0, mag)); c.b = rng.irange(pneg>0 ? -mag : 0, 3*mag); C.push_back(c); }
  ctx.sig(hsh(C)); dfm2::CLinPro lp; for(auto& c : C) add(lp,c); judge(ctx, lp, C, n, goals(rng,n,3));
}
// one constraint kind only: every sign of the right hand side
VH_FAMILY(one_kind, 2000, 40000){
  Rng& rng = ctx.rng; int n = rng.irange(1,3), m = rng.irange(1,5), t = rng.irange(0,2), sg = rng.irange(-1,1); std::vector<Con> C;
  for(int k=0;k<m;++k){ Con c; c.t = t; for(int i=0;i<n;++i) c.a.push_back(rng.irange(-4,4)); c.b = sg*rng.irange(0,8); C.push_back(c); }
  ctx.sig(hsh(C)); dfm2::CLinPro lp; for(auto& c : C) add(lp,c); ctx.count(sg<0 ? "rhs_nonpositive" : sg>0 ? "rhs_nonnegative" : "rhs_zero"); judge(ctx, lp, C, n, goals(rng,n,2));
}
// many constraints through one vertex, rows repeated and combined
VH_FAMILY(degenerate, 4000, 80000){
  Rng& rng = ctx.rng; int n = rng.irange(2,4), m = rng.irange(n,7); std::vector<int> p(n); bool origin = rng.chance(0.4); for(int& q : p) q = origin || rng.chance(0.3) ? 0 : rng.irange(0,4); std::vector<Con> C;
  for(int k=0;k<m;++k){ Con c; int how = C.empty() ? 0 : rng.irange(0,5); if( how==5 && C.size()>=2 ){ const Con &u = C[rng.irange(0,(int)C.size()-1)], &v = C[rng.irange(0,(int)C.size()-1)]; c.t = rng.irange(0,2); for(int i=0;i<n;++i) c.a.push_back(u.a[i]+v.a[i]); c.b = u.b+v.b; } else if( how==4 ){ const Con& u = C[rng.irange(0,(int)C.size()-1)]; int f = rng.pick({1,2,-1,-3}); c = u; for(int& q : c.a) q *= f; c.b *= f; if( f<0 && c.t<2 ) c.t = 1-c.t; }
    else { c.t = rng.chance(0.3) ? 2 : rng.irange(0,1); c.b = 0; for(int i=0;i<n;++i){ int q = rng.irange(-3,5); c.a.push_back(q); c.b += q*p[i]; } }
    C.push_back(c); }
  ctx.sig(hsh(C)); dfm2::CLinPro lp; for(auto& c : C) add(lp,c); judge(ctx, lp, C, n, goals(rng,n,3));
}
// constraints added between runs on the same object
VH_FAMILY(history, 1500, 25000){
  Rng& rng = ctx.rng; int n = rng.irange(1,3); std::vector<Con> C; dfm2::CLinPro lp; int steps = rng.irange(2,4);
  for(int s=0;s<steps;++s){ int m = rng.irange(1,2); for(int k=0;k<m;++k){ Con c; c.t = rng.chance(0.25) ? 2 : rng.irange(0,1); for(int i=0;i<n;++i) c.a.push_back(rng.irange(-3,6)); c.b = rng.irange(-4,12); C.push_back(c); add(lp,c); }
    judge(ctx, lp, C, n, goals(rng,n,2)); if( ctx.failed ) return; ctx.count("history_steps"); }
  ctx.sig(hsh(C));
}
// classical examples on which unprotected simplex rules cycle
VH_FAMILY(cycling, 300, 3000){
  Rng& rng = ctx.rng; int which = rng.irange(0,3); std::vector<std::vector<double>> A; V b, c; double opt = 0; bool unb = false;
  if( which==0 ){ A = {{.25,-60,-1./25,9},{.5,-90,-1./50,3},{0,0,1,0}}; b = {0,0,1}; c = {.75,-150,1./50,-6}; opt = .05; } // Beale
  else if( which==1 ){ A = {{.5,-5.5,-2.5,9},{.5,-1.5,-.5,1},{1,0,0,0}}; b = {0,0,1}; c = {10,-57,-9,-24}; opt = 1; } // Chvatal
  else if( which==2 ){ A = {{.25,-8,-1,9},{.5,-12,-.5,3},{0,0,1,0}}; b = {0,0,1}; c = {.75,-20,.5,-6}; opt = 1.25; } // Beale variant
  else { A = {{-2,-9,1,9},{1./3,1,-1./3,-2}}; b = {0,0}; c = {2,3,-1,-12}; unb = true; } // Kuhn
  int n = (int)c.size(), m = (int)b.size(); std::vector<int> pv(n), pc(m); for(int i=0;i<n;++i) pv[i]=i; for(int i=0;i<m;++i) pc[i]=i; rng.shuffle(pv); rng.shuffle(pc); double sc = std::exp2(rng.irange(-2,2)); dfm2::CLinPro lp; for(int k=0;k<m;++k){ V r; for(int i=0;i<n;++i) r.push_back(A[pc[k]][pv[i]]*sc); lp.AddEqn(r, b[pc[k]]*sc, dfm2::CLinPro::LE); } V cf; for(int i=0;i<n;++i) cf.push_back(c[pv[i]]);
  int it = LIM; Quiet qt; if( !CK(lp.Precomp(it)==0, "feasible_rejected", "") ) return; it = LIM; V x; double v = 0; int s = lp.Solve(x,v,it,cf); ctx.sig(vh::Hash().d(which).d(sc).vd(cf).h); CK(it < LIM, "cycles", "example %d", which); if( unb ) CK(s==2, "unbounded_not_reported", "example %d res %d", which, s); else { CK(s==0, "optimum_not_found", "example %d", which); CKN(v, opt, 1e-9, "not_optimal", "example %d", which); } ctx.count("cycling_examples");
}
// larger programs with a constructed primal/dual pair
VH_FAMILY(large, 600, 9000){
  Rng& rng = ctx.rng; int n = rng.irange(3,24), m = rng.irange(2,24); bool ints = rng.chance(0.5); double dens = rng.uni(.2,1); bool deg = rng.chance(0.4);
  V x(n,0), y(m,0), s(n,0); for(int i=0;i<n;++i){ if( rng.chance(0.5) ) x[i] = ints ? rng.irange(1,9) : rng.uni(.1,9); else if( !deg || rng.chance(0.5) ) s[i] = ints ? rng.irange(1,5) : rng.uni(.1,5); }
  std::vector<V> A(m,V(n)); V b(m); std::vector<int> t(m); for(int k=0;k<m;++k){ for(int i=0;i<n;++i) A[k][i] = !rng.chance(dens) ? 0 : ints ? rng.irange(-5,9) : rng.gauss(); if( deg && k>1 && rng.chance(0.2) ){ int f = rng.irange(0,k-1); A[k] = A[f]; }
    t[k] = rng.chance(0.3) ? 2 : rng.irange(0,1); double ax = 0; for(int i=0;i<n;++i) ax += A[k][i]*x[i]; double slack = 0; bool tight = t[k]==2 || rng.chance(0.6); if( !tight ) slack = ints ? rng.irange(1,9) : rng.uni(.1,5); b[k] = t[k]==0 ? ax+slack : t[k]==1 ? ax-slack : ax; if( tight ){ double v = ints ? rng.irange(0,5) : rng.uni(0,5); if( deg && rng.chance(0.5) ) v = 0; y[k] = t[k]==0 ? v : t[k]==1 ? -v : rng.chance(0.5) ? v : -v; } }
  V c(n); double opt = 0; for(int i=0;i<n;++i){ c[i] = -s[i]; for(int k=0;k<m;++k) c[i] += A[k][i]*y[k]; opt += c[i]*x[i]; }
  ctx.sig(vh::Hash().vd(c).vd(b).h); dfm2::CLinPro lp; for(int k=0;k<m;++k) lp.AddEqn(A[k], b[k], t[k]==0 ? dfm2::CLinPro::LE : t[k]==1 ? dfm2::CLinPro::GE : dfm2::CLinPro::EQ);
  int it = LIM; int r; { Quiet q; r = lp.Precomp(it); } CK(it < LIM, "precomp_no_termination", "n=%d m=%d", n, m); if( !CK(r==0, "feasible_rejected", "res %d n=%d m=%d ints %d deg %d", r, n, m, ints, deg) ) return; auto viol = [&](const V& z){ double w = 0; for(int i=0;i<n;++i) w = std::max(w,-z[i]); for(int k=0;k<m;++k){ double q = -b[k], g = 1+std::fabs(b[k]); for(int i=0;i<n;++i){ q += A[k][i]*z[i]; g += std::fabs(A[k][i]*z[i]); } w = std::max(w,(t[k]==0 ? q : t[k]==1 ? -q : std::fabs(q))/g); } return w; };
  CK(viol(lp.GetValid()) < 1e-7, "initial_point_infeasible", "%g", viol(lp.GetValid())); V z; double val = 0; it = LIM; { Quiet q; r = lp.Solve(z, val, it, c); } if( !CK(it < LIM, "no_termination", "n=%d m=%d deg %d", n, m, deg) ) return; if( !CK(r==0, "optimum_not_found", "res %d n=%d m=%d", r, n, m) ) return;
  double sc = 1+std::fabs(opt); double cz = 0; for(int i=0;i<n;++i) { cz += c[i]*z[i]; sc += std::fabs(c[i]*x[i]); } CK(viol(z) < 1e-7, "infeasible_solution", "%g n=%d m=%d", viol(z), n, m); CKN(val, opt, 1e-7*sc, "not_optimal", "n=%d m=%d ints %d deg %d", n, m, ints, deg); CKN(cz, val, 1e-7*sc, "value_mismatch", "n=%d m=%d", n, m); ctx.count("large"); if( deg ) ctx.count("large_degenerate");
}
