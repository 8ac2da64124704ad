// C23: mesh files. Round trips through every writer/reader pair, syntax variants written by this
// harness, and truncated/corrupted files.
#include <fstream>
#include <iostream>
#include <sstream>
#include <filesystem>
#include "../lib/vh.h"
#include "delfem2/msh_io_obj.h"
#include "delfem2/msh_io_ply.h"
#include "delfem2/msh_io_misc.h"
namespace dfm2 = delfem2;
using vh::Rng;
typedef std::vector<double> V; typedef std::vector<unsigned> U; typedef std::vector<int> I; typedef std::string S;
struct Quiet { std::streambuf *b, *c; std::ostringstream o; Quiet(){ b = std::cout.rdbuf(o.rdbuf()); c = std::cerr.rdbuf(o.rdbuf()); } ~Quiet(){ std::cout.rdbuf(b); std::cerr.rdbuf(c); } };
static S path(const char* ext){ return vh::cfg().dir + vh::fmt("/c23_%d.%s", (int)getpid(), ext); }
struct Rm { S p; ~Rm(){ ::unlink(p.c_str()); } };
static S slurp(const S& p){ std::ifstream f(p,std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void spit(const S& p, const S& t){ std::ofstream f(p,std::ios::binary|std::ios::trunc); f << t; }
static double coord(Rng& rng){ switch( rng.irange(0,7) ){ case 0: return 0; case 1: return rng.irange(-9,9); case 2: return rng.gauss()*1e-7; case 3: return rng.gauss()*1e7; default: return rng.gauss(); } }
static V pts(Rng& rng, int n, int d=3){ V x(n*d); for(double& q : x) q = coord(rng); return x; }
static bool same(vh::Ctx& ctx, const V& a, const V& b, const char* what, double rel=6e-6){ if( !CK(a.size()==b.size(), what, "sizes %zu %zu", a.size(), b.size()) ) return false; for(size_t i=0;i<a.size();++i) if( !CKN(b[i], a[i], rel*std::fabs(a[i])+1e-300, what, "entry %zu of %zu", i, a.size()) ) return false; return true; }
template<class A, class B> static bool eq(vh::Ctx& ctx, const A& a, const B& b, const char* what){ if( !CK(a.size()==b.size(), what, "sizes %zu %zu", a.size(), b.size()) ) return false; for(size_t i=0;i<a.size();++i) if( !CK((long)(int)a[i]==(long)(int)b[i], what, "entry %zu: %ld %ld", i, (long)(int)a[i], (long)(int)b[i]) ) return false; return true; }
template<class T> static std::vector<T> els(Rng& rng, int ne, int nn, int np){ std::vector<T> e(ne*nn); for(T& q : e) q = rng.irange(0,np-1); return e; }
// insert lines a reader has to skip
static S decorate(Rng& rng, const S& t, bool crlf){ std::istringstream is(t); S l, r; while( std::getline(is,l) ){ if( rng.chance(0.15) ){ switch( rng.irange(0,4) ){ case 0: r += "# comment"; break; case 1: r += "# "+S(rng.irange(200,700),'x'); break; case 2: r += ""; break; case 3: r += "s off"; break; default: r += "#"+S(rng.pick({252,253,254,255,256,257}),'-'); } r += crlf ? "\r\n" : "\n"; } r += l + (crlf ? "\r\n" : "\n"); } if( rng.chance(0.3) && !r.empty() ) r.pop_back(); return r; }

static int amount(Rng& rng, int lo, int hi){ return rng.chance(0.02) ? rng.irange(100,2500) : rng.irange(lo,hi); }
VH_FAMILY(obj_uniform, 1500, 20000){
  Rng& rng = ctx.rng; int np = amount(rng,1,12), ne = amount(rng,0,12), nn = rng.irange(3,4); V X = pts(rng,np); U E = els<unsigned>(rng,ne,nn,np); S f = path("obj"); Rm rm{f}; ctx.sig(vh::Hash().vd(X).vu(E).u(nn).h);
  bool flt = rng.chance(0.3); if( flt ){ std::vector<float> x(X.begin(),X.end()); dfm2::Write_Obj_UniformMesh(f,x.data(),(size_t)np,E.data(),(size_t)ne,(size_t)nn); } else dfm2::Write_Obj_UniformMesh(f,X.data(),(size_t)np,E.data(),(size_t)ne,(size_t)nn);
  bool dec = rng.chance(0.6); if( dec ){ spit(f,decorate(rng,slurp(f),rng.chance(0.3))); ctx.count("decorated"); }
  V x(3,9); U e(2,9); if( nn==3 ){ dfm2::Read_Obj(x,e,f); same(ctx,X,x,"points"); eq(ctx,E,e,"Read_Obj"); dfm2::Read_Obj2(f,x,e); same(ctx,X,x,"points"); eq(ctx,E,e,"Read_Obj2"); dfm2::Read_Obj3(x,e,f); same(ctx,X,x,"points"); eq(ctx,E,e,"Read_Obj3"); std::vector<float> xf; dfm2::Read_Obj3(xf,e,f); same(ctx,X,V(xf.begin(),xf.end()),"points_float",8e-6); eq(ctx,E,e,"Read_Obj3"); ctx.count("obj_tri"); }
  else { dfm2::Read_Obj_MeshQuad3(x,e,f); same(ctx,X,x,"points"); eq(ctx,E,e,"Read_Obj_MeshQuad3"); dfm2::Read_Obj3(x,e,f); same(ctx,X,x,"points"); U w; for(int i=0;i<ne;++i) for(int k : {0,1,2,0,2,3}) w.push_back(E[i*4+k]); eq(ctx,w,e,"Read_Obj3_quad"); ctx.count("obj_quad"); }
}
struct Obj { S mtl; V x,t,n; U ind,ex,et,en; std::vector<S> g; U gi; bool ok; };
static Obj readmix(const S& f){ Obj o; o.mtl = "old"; o.x = {1,2}; o.t = {3}; o.n = {4}; o.ind = {5}; o.ex = {6}; o.et = {7,7}; o.en = {8}; o.gi = {9,9}; o.g = {"z"}; o.ok = dfm2::Read_WavefrontObjWithMaterialMixedElem(o.mtl,o.x,o.t,o.n,o.ind,o.ex,o.et,o.en,o.g,o.gi,f); return o; }
VH_FAMILY(obj_mixed, 800, 10000){
  Rng& rng = ctx.rng; int np = amount(rng,3,12), ne = amount(rng,0,12); V X = pts(rng,np); I ind = {0}, e; for(int i=0;i<ne;++i){ int k = rng.irange(3,4); for(int j=0;j<k;++j) e.push_back(rng.irange(0,np-1)); ind.push_back((int)e.size()); } S f = path("obj"); Rm rm{f}; dfm2::Write_Obj_ElemJArray(f,X,ind,e); if( rng.chance(0.5) ) spit(f,decorate(rng,slurp(f),false)); ctx.sig(vh::Hash().vd(X).vu(e).vu(ind).h);
  Obj o = readmix(f); if( !CK(o.ok, "read_failed", "") ) return; same(ctx,X,o.x,"points"); eq(ctx,ind,o.ind,"element_index"); eq(ctx,e,o.ex,"elements"); CK(o.g.size()==1 && o.gi.size()==2 && o.gi[0]==0 && (int)o.gi[1]==ne, "groups", ""); for(auto q : o.et) CK((int)q==-1, "no_texture", "%u", q); for(auto q : o.en) CK((int)q==-1, "no_normal", "%u", q); ctx.count("obj_mixed");
  V x; U t; dfm2::Read_Obj3(x,t,f); U w; for(int i=0;i<ne;++i){ int b = ind[i]; for(int k : {0,1,2}) w.push_back(e[b+k]); if( ind[i+1]-b==4 ) for(int k : {0,2,3}) w.push_back(e[b+k]); } eq(ctx,w,t,"Read_Obj3_mixed"); CK(!dfm2::Read_WavefrontObjWithMaterialMixedElem(o.mtl,o.x,o.t,o.n,o.ind,o.ex,o.et,o.en,o.g,o.gi,vh::cfg().dir+"/c23_no_such_file"), "missing_file_success", "");
}
VH_FAMILY(obj_groups, 800, 10000){
  Rng& rng = ctx.rng; S f = path("obj"); Rm rm{f};
  if( rng.chance(0.4) ){ int np = amount(rng,1,9), nt = amount(rng,1,14); V X = pts(rng,np); U T = els<unsigned>(rng,nt,3,np), F(nt); int m = rng.irange(0,4); for(auto& q : F) q = rng.irange(0,m); dfm2::Write_Obj_TriFlag(f,X,T,F); ctx.sig(vh::Hash().vd(X).vu(T).vu(F).h); Obj o = readmix(f); same(ctx,X,o.x,"points"); U w; unsigned mx = 0; for(auto q : F) mx = std::max(mx,q); U gi = {0,0}; std::vector<S> g = {"default"}; for(unsigned k=0;k<=mx;++k){ g.push_back("flag"+std::to_string(k)); for(int i=0;i<nt;++i) if( F[i]==k ) for(int j=0;j<3;++j) w.push_back(T[i*3+j]); gi.push_back((unsigned)w.size()/3); } eq(ctx,w,o.ex,"flag_order"); eq(ctx,gi,o.gi,"flag_groups"); CK(g==o.g, "flag_names", ""); ctx.count("obj_flag"); return; }
  if( rng.chance(0.5) ){ int nm = rng.irange(0,4); std::vector<std::pair<V,U>> M; V X; U w, gi = {0}; std::vector<S> g = {"default"}; unsigned off = 0; for(int i=0;i<nm;++i){ int np = rng.irange(1,6), nt = rng.irange(0,6); M.push_back({pts(rng,np),els<unsigned>(rng,nt,3,np)}); X.insert(X.end(),M[i].first.begin(),M[i].first.end()); gi.push_back((unsigned)w.size()/3); for(auto q : M[i].second) w.push_back(q+off); off += np; g.push_back(std::to_string(i)); } gi.push_back((unsigned)w.size()/3); dfm2::Write_Obj(f,M); ctx.sig(vh::Hash().vd(X).vu(w).h); Obj o = readmix(f); same(ctx,X,o.x,"points"); eq(ctx,w,o.ex,"multi_mesh"); eq(ctx,gi,o.gi,"multi_groups"); CK(o.g==g, "multi_names", ""); ctx.count("obj_multi"); return; }
  // attributes and named groups, there and back
  int np = amount(rng,1,8), nt = amount(rng,1,8), nn = amount(rng,1,8), ng = rng.irange(1,5); V X = pts(rng,np), T, N; for(int i=0;i<nt*2;++i) T.push_back(rng.uni(-1,2)); for(int i=0;i<nn;++i){ double a = rng.uni(-3,3), z = rng.uni(-1,1), r = std::sqrt(1-z*z); N.push_back(r*std::cos(a)); N.push_back(r*std::sin(a)); N.push_back(z); }
  U gi = {0}, a, b, c; std::vector<S> g = {"default"}; for(int k=0;k<ng;++k){ int m = rng.irange(0,4); for(int i=0;i<m*3;++i){ a.push_back(rng.irange(0,np-1)); b.push_back(rng.irange(0,nt-1)); c.push_back(rng.irange(0,nn-1)); } gi.push_back((unsigned)a.size()/3); if( k ) g.push_back("part"+std::to_string(rng.irange(0,99))+(rng.chance(0.3) ? S(rng.irange(1,300),'n') : S())); }
  dfm2::Write_WavefrontObj(f,X,T,N,a,b,c,g,gi); if( rng.chance(0.5) ) spit(f,decorate(rng,slurp(f),rng.chance(0.3))); ctx.sig(vh::Hash().vd(X).vu(a).vu(b).vu(gi).h); Obj o = readmix(f); same(ctx,X,o.x,"points"); same(ctx,T,o.t,"texcoords"); if( CK(N.size()==o.n.size(), "normals", "") ) for(size_t i=0;i<N.size();++i) CKN(o.n[i],N[i],2e-5,"normals",""); eq(ctx,a,o.ex,"corner_points"); eq(ctx,b,o.et,"corner_texcoords"); eq(ctx,c,o.en,"corner_normals"); eq(ctx,gi,o.gi,"group_index"); CK(g==o.g, "group_names", "%zu groups: got %s", g.size(), o.g.size()>1 ? o.g[1].c_str() : "none"); U ind; for(size_t i=0;i<=a.size()/3;++i) ind.push_back((unsigned)i*3); eq(ctx,ind,o.ind,"element_index"); ctx.count("obj_attr");
}
VH_FAMILY(obj_syntax, 800, 10000){
  Rng& rng = ctx.rng; S f = path("obj"); Rm rm{f}; int np = rng.irange(3,40); std::ostringstream o; V X = pts(rng,np), T, N; if( rng.chance(0.5) ) o << "mtllib a_b.mtl\n"; char b[200]; for(int i=0;i<np;++i){ std::snprintf(b,200, rng.chance(0.5) ? "v %.9g %.9g %.9g\n" : "v  %.9e   %.9e %.9e \n", X[i*3],X[i*3+1],X[i*3+2]); o << b; } bool mt = o.str()[0]=='m'; int nt = rng.irange(0,5), nn = rng.irange(0,5); for(int i=0;i<nt;++i){ double u = rng.u01(), v = rng.u01(); T.push_back(u); T.push_back(v); std::snprintf(b,200,"vt %.9g %.9g%s\n",u,v, rng.chance(0.3) ? " 0.0" : ""); o << b; } for(int i=0;i<nn;++i){ double n[3] = {rng.gauss(),rng.gauss(),rng.gauss()}, l = std::sqrt(n[0]*n[0]+n[1]*n[1]+n[2]*n[2]); for(double q : n) N.push_back(q/l); std::snprintf(b,200,"vn %.9g %.9g %.9g\n",n[0],n[1],n[2]); o << b; }
  U ind = {0}; I ex,et,en; int ne = rng.irange(0,8); for(int k=0;k<ne;++k){ if( rng.chance(0.2) ) o << "usemtl m1\n"; int nv = rng.chance(0.1) ? rng.irange(50,90) : rng.irange(3,6); o << "f"; int how = rng.irange(0,3); if( (how==1||how==3) && nt==0 ) how = 0; if( how>=2 && nn==0 ) how = 0; for(int j=0;j<nv;++j){ int p = rng.irange(0,np-1), t = nt ? rng.irange(0,nt-1) : 0, n = nn ? rng.irange(0,nn-1) : 0; o << " " << p+1; if( how==1 ) o << "/" << t+1; if( how==2 ) o << "//" << n+1; if( how==3 ) o << "/" << t+1 << "/" << n+1; ex.push_back(p); et.push_back(how==1||how==3 ? t : -1); en.push_back(how>=2 ? n : -1); } o << "\n"; ind.push_back((unsigned)ex.size()); ctx.count(vh::fmt("corner_syntax%d", how)); if( nv>40 ) ctx.count("long_polygon"); }
  spit(f,decorate(rng,o.str(),rng.chance(0.3))); ctx.sig(vh::Hash().s(o.str()).h); Obj r = readmix(f); same(ctx,X,r.x,"points",1e-8); same(ctx,T,r.t,"texcoords",1e-8); if( CK(N.size()==r.n.size(), "normals", "") ) for(size_t i=0;i<N.size();++i) CKN(r.n[i],N[i],1e-7,"normals",""); eq(ctx,ind,r.ind,"element_index"); eq(ctx,ex,r.ex,"corner_points"); eq(ctx,et,r.et,"corner_texcoords"); eq(ctx,en,r.en,"corner_normals"); CK(r.mtl == (mt ? "a_b.mtl" : ""), "material_library", "'%s'", r.mtl.c_str()); ctx.count("obj_syntax");
}
VH_FAMILY(material, 500, 6000){
  Rng& rng = ctx.rng; S f = path("mtl"); Rm rm{f}; int n = rng.irange(0,5); std::ostringstream o; std::vector<dfm2::MaterialWavefrontObj> M; if( rng.chance(0.2) ){ o << "Kd 1 1 1\nNs 3\n"; ctx.count("before_newmtl"); } auto f3 = [&](const char* k, float* q){ for(int i=0;i<3;++i) q[i] = (float)rng.u01(); q[3] = 1; char b[200]; std::snprintf(b,200,"%s %.8g %.8g %.8g\n",k,q[0],q[1],q[2]); o << b; };
  for(int i=0;i<n;++i){ dfm2::MaterialWavefrontObj m; m.name_mtl = "mat"+std::to_string(rng.irange(0,99)); o << "newmtl " << m.name_mtl << "\n"; if( rng.chance(0.7) ) f3("Kd",m.Kd); if( rng.chance(0.7) ) f3("Ka",m.Ka); if( rng.chance(0.7) ) f3("Ks",m.Ks); if( rng.chance(0.5) ) f3("Ke",m.Ke); if( rng.chance(0.5) ){ m.Ns = (float)rng.irange(0,500); o << "Ns " << m.Ns << "\n"; } if( rng.chance(0.5) ){ m.illum = rng.irange(0,10); o << "illum " << m.illum << "\n"; } if( rng.chance(0.5) ){ m.map_Kd = "img"+std::to_string(rng.irange(0,9))+".png"; o << "map_Kd " << m.map_Kd << "\n"; } M.push_back(m); }
  spit(f,decorate(rng,o.str(),rng.chance(0.3))); ctx.sig(vh::Hash().s(o.str()).h); std::vector<dfm2::MaterialWavefrontObj> R(2); dfm2::Read_WavefrontMaterial(f,R); if( !CK(R.size()==M.size(), "count", "%zu of %zu", R.size(), M.size()) ) return; for(int i=0;i<n;++i){ CK(R[i].name_mtl==M[i].name_mtl && R[i].map_Kd==M[i].map_Kd && R[i].illum==M[i].illum && R[i].Ns==M[i].Ns, "values", "material %d", i); for(int d=0;d<3;++d){ CKN(R[i].Kd[d],M[i].Kd[d],1e-7,"Kd",""); CKN(R[i].Ka[d],M[i].Ka[d],1e-7,"Ka",""); CKN(R[i].Ks[d],M[i].Ks[d],1e-7,"Ks",""); CKN(R[i].Ke[d],M[i].Ke[d],1e-7,"Ke",""); } } ctx.count("materials");
}
VH_FAMILY(ply, 800, 10000){
  Rng& rng = ctx.rng; S f = path("ply"); Rm rm{f}; int np = amount(rng,0,12), nt = np ? amount(rng,0,12) : 0; V X = pts(rng,np); U T = els<unsigned>(rng,nt,3,std::max(np,1)); ctx.sig(vh::Hash().vd(X).vu(T).h); Quiet q; if( rng.chance(0.5) ){ dfm2::Write_Ply(f,X,I(T.begin(),T.end())); } else dfm2::Write_Ply(f,(unsigned)np,X.data(),(unsigned)nt,T.data());
  if( rng.chance(0.5) ){ S t = slurp(f); int nc = rng.irange(1,4); bool lng = false;
    for(int i=0;i<nc;++i){ std::vector<size_t> at; for(size_t p=t.find('\n'), e=t.find("end_header"); p!=S::npos && p<e; p=t.find('\n',p+1)) at.push_back(p+1); S c = rng.pick(std::vector<S>{"comment made by ","comment ","comment element vertex 3 ","comment end_header ","comment property float x "}); int l = rng.chance(0.5) ? rng.irange(0,200) : rng.irange(220,1500); lng |= l>200; t.insert(rng.chance(0.4) ? t.find("element vertex") : rng.pick(at), c+S(l,'a')+"\n"); }
    ctx.count("ply_comment"); if( lng ) ctx.count("ply_long_comment"); if( rng.chance(0.3) ){ S u; for(char c : t){ if( c=='\n' ) u += '\r'; u += c; } t = u; ctx.count("ply_crlf"); } if( rng.chance(0.3) ){ while( !t.empty() && (t.back()=='\n' || t.back()=='\r') ) t.pop_back(); ctx.count("ply_no_last_newline"); } spit(f,t); }
  V x(3,7); U t(1,8); dfm2::Read_Ply(x,t,std::filesystem::path(f)); same(ctx,X,x,"points"); eq(ctx,T,t,"triangles"); int n1 = -1, n2 = -1; double* px = nullptr; unsigned* pt = nullptr; dfm2::Read_Ply(f,n1,px,n2,pt); if( CK(n1==np && n2==nt, "counts", "%d %d", n1, n2) ){ same(ctx,X,V(px,px+np*3),"points"); eq(ctx,T,U(pt,pt+nt*3),"triangles"); } delete[] px; delete[] pt; ctx.count("ply");
}
static int nno(int t){ return t==5 ? 3 : t==12 ? 8 : 4; }
VH_FAMILY(vtk, 800, 10000){
  Rng& rng = ctx.rng; S f = path("vtk"); Rm rm{f}; int np = amount(rng,1,12), ne = amount(rng,1,10), ty = rng.pick({5,9,10,12}), dim = rng.chance(0.3) ? 2 : 3; V X = pts(rng,np,dim); I E = els<int>(rng,ne,nno(ty),np); int pd = rng.irange(0,3); V val; ctx.sig(vh::Hash().vd(X).vu(E).u(ty).h); S name = rng.chance(0.3) ? "two words" : "title";
  { std::ofstream o(f); dfm2::WriteVTK_Points(o,name,X.data(),np,dim); dfm2::WriteVTK_Cells(o,ty,E.data(),ne); if( pd==1 ){ o << "POINT_DATA " << np << std::endl; int st = rng.irange(1,3); V w = pts(rng,np,st); dfm2::WriteVTK_Data_PointScalar(o,w.data(),np,st); for(int i=0;i<np;++i) val.push_back(w[i*st]); } if( pd==2 || pd==3 ){ int d = pd; o << "POINT_DATA " << np << std::endl; int st = d+rng.irange(0,2); V w = pts(rng,np,st); dfm2::WriteVTK_Data_PointVec(o,w.data(),np,st,d); for(int i=0;i<np;++i){ for(int k=0;k<d;++k) val.push_back(w[i*st+k]); if( d==2 ) val.push_back(0); } } }
  V Y; for(int i=0;i<np;++i) for(int d=0;d<3;++d) Y.push_back(d<dim ? X[i*dim+d] : 0); V x, pv(3,1); I e; int t = -1; dfm2::ReadVTK(x,t,e,pv,f); same(ctx,Y,x,"points"); CK(t==ty, "type", "%d %d", t, ty); eq(ctx,E,e,"cells"); same(ctx,val,pv,"point_data"); ctx.count("vtk"); ctx.count(vh::fmt("vtk_type%d", ty));
  // sub-mesh writer
  if( ty==5 && dim==3 ){ I map; int m = rng.irange(1,np); for(int i=0;i<m;++i) map.push_back(rng.irange(0,np-1)); I T = els<int>(rng,ne,3,m); int st = rng.irange(1,3), of = rng.irange(0,st-1); V w = pts(rng,np,st); dfm2::WriteVTK_MapTriScalar(f,name,X,map,T,w,st,of); dfm2::ReadVTK(x,t,e,pv,f); V Z, wz; for(int p : map){ for(int d=0;d<3;++d) Z.push_back(X[p*3+d]); wz.push_back(w[p*st+of]); } same(ctx,Z,x,"map_points"); eq(ctx,T,e,"map_cells"); same(ctx,wz,pv,"map_values"); ctx.count("vtk_map"); }
  // mixed cells: the text itself
  { I a = els<int>(rng,rng.irange(0,4),4,np), b = els<int>(rng,rng.irange(0,4),5,np), c = els<int>(rng,rng.irange(0,4),6,np); { std::ofstream o(f); dfm2::WriteVTK_Cells(o,a,b,c); } std::ifstream i(f); S k; int n, m; i >> k >> n >> m; I got, want; int q; for(int j=0;j<m;++j){ i >> q; got.push_back(q); } for(size_t j=0;j<a.size();++j){ if( j%4==0 ) want.push_back(4); want.push_back(a[j]); } for(size_t j=0;j<b.size();++j){ if( j%5==0 ) want.push_back(5); want.push_back(b[j]); } for(size_t j=0;j<c.size();++j){ if( j%6==0 ) want.push_back(6); want.push_back(c[j]); } CK(i && k=="CELLS" && n==(int)(a.size()/4+b.size()/5+c.size()/6), "mixed_cells", "%d", n); eq(ctx,want,got,"mixed_cells"); int n2; i >> k >> n2; CK(k=="CELL_TYPES" && n2==n, "mixed_types", ""); for(int j=0;j<n;++j){ i >> q; int w = j<(int)a.size()/4 ? 10 : j<(int)(a.size()/4+b.size()/5) ? 14 : 13; CK(i && q==w, "mixed_types", "%d %d", q, w); } ctx.count("vtk_mixed"); }
}
VH_FAMILY(plain_lists, 600, 8000){
  Rng& rng = ctx.rng; int np = amount(rng,1,12), nt = amount(rng,0,12); V X = pts(rng,np); I T = els<int>(rng,nt,3,np); S f = path("txt"); Rm rm{f}; ctx.sig(vh::Hash().vd(X).vu(T).h);
  { std::ofstream o(f); dfm2::Write_MeshTri3D(o,X,T); } { std::ifstream i(f); V x; I t; dfm2::Read_MeshTri3D(i,x,t); same(ctx,X,x,"points"); eq(ctx,T,t,"triangles"); }
  // stl
  V Y(np*3); for(double& q : Y) q = rng.gauss(); dfm2::Write_STL(f,Y,T); { std::ifstream i(f); S a,b; std::getline(i,a); CK(a.substr(0,5)=="solid", "stl", ""); for(int k=0;k<nt;++k){ double n[3], p[3][3]; i >> a >> b >> n[0] >> n[1] >> n[2] >> a >> b; if( i.fail() ){ if( T[k*3]==T[k*3+1] || T[k*3+1]==T[k*3+2] || T[k*3]==T[k*3+2] ){ break; } } for(auto& q : p) i >> a >> q[0] >> q[1] >> q[2]; i >> a >> b; if( !CK((bool)i, "stl_syntax", "") ) break; for(int j=0;j<3;++j) for(int d=0;d<3;++d) CKN(p[j][d], Y[T[k*3+j]*3+d], 6e-6*(std::fabs(p[j][d]))+1e-12, "stl_vertex", ""); double u[3],v[3]; for(int d=0;d<3;++d){ u[d] = Y[T[k*3+1]*3+d]-Y[T[k*3]*3+d]; v[d] = Y[T[k*3+2]*3+d]-Y[T[k*3]*3+d]; } double c[3] = {u[1]*v[2]-u[2]*v[1],u[2]*v[0]-u[0]*v[2],u[0]*v[1]-u[1]*v[0]}, l = std::sqrt(c[0]*c[0]+c[1]*c[1]+c[2]*c[2]); for(int d=0;d<3;++d) CKN(n[d], c[d]/l, 1e-5, "stl_normal", ""); ctx.count("stl_facets"); } }
  // tetgen
  { int ne = rng.irange(0,6); I E = els<int>(rng,ne,4,np); S b = path("tg"); Rm r1{b+".node"}, r2{b+".ele"}, r3{b+".face"}; { std::ofstream o(b+".node"); o.precision(17); o << np << " 3 0 0\n"; for(int i=0;i<np;++i) o << i << " " << X[i*3] << " " << X[i*3+1] << " " << X[i*3+2] << "\n"; } { std::ofstream o(b+".ele"); o << ne << " 4 0\n"; for(int i=0;i<ne;++i) o << i << " " << E[i*4] << " " << E[i*4+1] << " " << E[i*4+2] << " " << E[i*4+3] << "\n"; } { std::ofstream o(b+".face"); o << nt << " 0\n"; for(int i=0;i<nt;++i) o << i << " " << T[i*3] << " " << T[i*3+1] << " " << T[i*3+2] << "\n"; } V x; I e, t; dfm2::Read_MeshTet3D_TetGen(b,x,e,t); same(ctx,X,x,"tetgen_points",1e-15); eq(ctx,E,e,"tetgen_tets"); I w; for(int i=0;i<nt;++i) for(int k : {0,2,1}) w.push_back(T[i*3+k]); eq(ctx,w,t,"tetgen_faces"); ctx.count("tetgen"); }
}
static S nastran(Rng& rng, V& X, U& T, bool sane=true){ int np = amount(rng,1,12), nt = amount(rng,0,12); I id(np); for(int i=0;i<np;++i) id[i] = i*rng.irange(1,3)*0+i+1; int gap = rng.irange(1,7); for(int i=0;i<np;++i) id[i] = 1+i*gap; rng.shuffle(id); std::vector<S> L; char b[200]; for(int i=0;i<np;++i){ double q[3]; S s; std::snprintf(b,200,"GRID    %8d        ",id[i]); s = b; for(double& p : q){ p = rng.chance(0.2) ? rng.irange(-9,9) : rng.uni(-9,9); std::snprintf(b,200,"%8.4f",p); s += b; p = atof(b); X.push_back(p); } L.push_back(s); } std::vector<S> M; for(int i=0;i<nt;++i){ int k[3]; for(int& q : k){ q = rng.irange(0,np-1); T.push_back(q); } std::snprintf(b,200,"CTRIA3  %8d%8d%8d%8d%8d",i+1,1,id[k[0]],id[k[1]],id[k[2]]); M.push_back(b); } if( sane && rng.chance(0.3) ) std::swap(L,M); S r; if( rng.chance(0.5) ) r += "$ header\n"; for(auto* Q : {&L,&M}) for(auto& l : *Q){ r += l; if( rng.chance(0.1) ) r += "        "; r += "\n"; if( rng.chance(0.1) ) r += "$ "+S(rng.irange(0,600),'*')+"\n"; } if( rng.chance(0.4) ) r.pop_back(); return r; }
VH_FAMILY_CPU(nas, 600, 8000, 10){
  Rng& rng = ctx.rng; S f = path("nas"); Rm rm{f}; V X; U T; S s = nastran(rng,X,T); spit(f,s); ctx.sig(vh::Hash().s(s).h); V x(3,1); U t(1,1); dfm2::Read_MeshTri3D_Nas(x,t,f.c_str()); same(ctx,X,x,"points",1e-12); eq(ctx,T,t,"triangles"); ctx.count("nastran");
}

// -------------------------------------------------------------- hostile files
static S mutate(Rng& rng, S s){
  int n = rng.irange(1,4); static const char* W[] = {"-1","0","99","f","v ","vn","g","/","//","////","-","1/2/3/4/5/6","nan","inf","1e400","newmtl","Kd","GRID","CTRIA3","\n","\r","element","property ","comment ","POINT_DATA","CELLS","\"","\0x","usemtl","mtllib"};
  for(int k=0;k<n;++k){ size_t p = s.empty() ? 0 : rng.irange(0,(int)s.size()-1); switch( rng.irange(0,8) ){ case 0: s = s.substr(0,p); break; case 1: s.insert(p,W[rng.irange(0,29)]); break; case 2: if( !s.empty() ) s[p] = (char)rng.irange(0,255); break; case 3: if( !s.empty() ) s.erase(p, rng.irange(1,20)); break; case 4: { size_t q = s.find('\n',p); if( q!=S::npos ) s.erase(q,1); break; } case 5: s.insert(p, S(rng.irange(100,600), rng.pick({'a','/','-',' ','\t'}))); break; case 6: { size_t q = rng.irange(0,(int)s.size()); s += s.substr(std::min(p,q), std::min<size_t>(200, std::max(p,q)-std::min(p,q))); break; } case 7: { size_t q = s.find('\n',p); size_t a = s.rfind('\n',p); if( q!=S::npos ){ a = a==S::npos ? 0 : a; s.erase(a,q-a); } break; } default: { size_t q = s.find_first_of("0123456789",p); if( q!=S::npos ) s.replace(q,1,rng.pick({"-2","777","","1/","3 ","."})); } } }
  // keep counts small: the interest is in consistency, not in exhausting the memory
  S r; int run = 0; for(char c : s){ if( c>='0' && c<='9' ){ if( ++run > 5 ) continue; } else run = 0; r += c; } return r;
}
template<class F> static void attempt(vh::Ctx& ctx, F fn){ Quiet q; try { fn(); ctx.count("survived"); } catch( const std::exception& ){ ctx.count("reported_by_exception"); } }
VH_FAMILY_CPU(hostile, 12000, 250000, 10){
  Rng& rng = ctx.rng; int np = rng.irange(1,6), ne = rng.irange(0,6); V X = pts(rng,np); S f = path("bad"); Rm rm{f}; int kind = rng.irange(0,6); Quiet* qq = new Quiet; S s;
  if( kind<=1 ){ U a = els<unsigned>(rng,ne,3,np); if( rng.chance(0.5) ) dfm2::Write_Obj_UniformMesh(f,X.data(),(size_t)np,a.data(),(size_t)ne,(size_t)3); else { U g = {0,(unsigned)ne}; V T = {0,0,1,1}, N = {0,0,1}; U b(ne*3,0), c(ne*3,0); dfm2::Write_WavefrontObj(f,X,T,N,a,b,c,{"default"},g); } }
  else if( kind==2 ) dfm2::Write_Ply(f,X,els<int>(rng,ne,3,np)); else if( kind==3 ){ std::ofstream o(f); dfm2::WriteVTK_Points(o,"t",X.data(),np,3); I e = els<int>(rng,ne,4,np); dfm2::WriteVTK_Cells(o,10,e.data(),ne); if( rng.chance(0.5) ){ o << "POINT_DATA " << np << "\n"; dfm2::WriteVTK_Data_PointScalar(o,X.data(),np,3); } }
  else if( kind==4 ){ V x; U t; spit(f,nastran(rng,x,t)); } else if( kind==5 ) spit(f,"newmtl a\nKd 1 1 1\nKa 0 0 0\nNs 10\nillum 2\nmap_Kd x.png\nnewmtl b\nKs 1 0 0\nKe 1 1 1\n"); else { std::ofstream o(f); dfm2::Write_MeshTri3D(o,X,els<int>(rng,ne,3,np)); }
  delete qq; s = slurp(f); if( rng.chance(0.04) ){ s.clear(); int n = rng.irange(0,300); for(int i=0;i<n;++i) s += (char)rng.irange(0,255); } s = mutate(rng,s); spit(f,s); ctx.sig(vh::Hash().s(s).u(kind).h); ctx.count(vh::fmt("hostile_kind%d", kind));
  V x; U t; if( kind<=1 ){ attempt(ctx,[&]{ dfm2::Read_Obj(x,t,f); }); attempt(ctx,[&]{ dfm2::Read_Obj2(f,x,t); }); attempt(ctx,[&]{ dfm2::Read_Obj3(x,t,f); }); attempt(ctx,[&]{ dfm2::Read_Obj_MeshQuad3(x,t,f); }); attempt(ctx,[&]{ Obj o = readmix(f); CK(o.ind.size()>=1 && o.ind.back()==o.ex.size() && o.et.size()==o.ex.size() && o.en.size()==o.ex.size() && o.gi.size()==o.g.size()+1 && o.gi.back()+1==o.ind.size(), "inconsistent_arrays", ""); }); }
  else if( kind==2 ){ attempt(ctx,[&]{ dfm2::Read_Ply(x,t,std::filesystem::path(f)); CK(x.size()%3==0 && t.size()%3==0, "inconsistent_arrays", ""); }); int a = 0, b = 0; double* p = nullptr; unsigned* q = nullptr; attempt(ctx,[&]{ dfm2::Read_Ply(f,a,p,b,q); }); delete[] p; delete[] q; }
  else if( kind==3 ) attempt(ctx,[&]{ I e; V v; int ty; dfm2::ReadVTK(x,ty,e,v,f); }); else if( kind==4 ) attempt(ctx,[&]{ dfm2::Read_MeshTri3D_Nas(x,t,f.c_str()); for(auto q : t) CK(q < x.size()/3, "index_out_of_range", "%u of %zu", q, x.size()/3); }); else if( kind==5 ) attempt(ctx,[&]{ std::vector<dfm2::MaterialWavefrontObj> M; dfm2::Read_WavefrontMaterial(f,M); }); else attempt(ctx,[&]{ std::ifstream i(f); I tt; dfm2::Read_MeshTri3D(i,x,tt); });
}
