// C22: text expressions. Oracle: an independent recursive descent parser and evaluator of the usual grammar.
#include <sstream>
#include <iostream>
#include <map>
#include "../lib/vh.h"
#include "delfem2/parse_math_expression.h"
namespace dfm2 = delfem2;
using vh::Rng;
struct Quiet { std::streambuf *b, *c; std::ostringstream o; Quiet(){ b = std::cout.rdbuf(o.rdbuf()); c = std::cerr.rdbuf(o.rdbuf()); } ~Quiet(){ std::cout.rdbuf(b); std::cerr.rdbuf(c); } };
typedef std::map<std::string,double> Keys;
typedef long double R;
static const char* FUN[] = {"abs","floor","exp","sin","cos","sqrt","log"};
// sum := term (+|- term)* ; term := unary (*|/ unary)* ; unary := (+|-) unary | pow ; pow := prim [^ unary]
struct Ref {
  std::string s; size_t p = 0; const Keys& k; bool ok = true, undef = false, odd = false; R mag = 1; R err = 0; std::map<std::string,bool> used;
  Ref(const std::string& t, const Keys& kk) : k(kk) { for(char c : t) if( c!=' ' && c!='\n' && c!='\r' ) s += c; }
  struct E { R v, e; }; // value and error bound of a double evaluation
  static constexpr R u = 3e-16L;
  E chk(E a){ a.e += u*fabsl(a.v); mag = std::max(mag,fabsl(a.v)); if( !(fabsl(a.v) < 1e60L) || !(a.e < 1e-4L*(1+fabsl(a.v))) ) undef = true; return a; }
  char c() const { return p < s.size() ? s[p] : '\0'; }
  E sum(){ E a = term(); while( ok && (c()=='+' || c()=='-') ){ char o = c(); ++p; E b = term(); a = chk({o=='+' ? a.v+b.v : a.v-b.v, a.e+b.e}); } return a; }
  E term(){ E a = unary(); while( ok && (c()=='*' || c()=='/') ){ char o = c(); ++p; E b = unary(); if( o=='*' ) a = chk({a.v*b.v, a.e*fabsl(b.v)+b.e*fabsl(a.v)+a.e*b.e}); else { if( fabsl(b.v) < 1e-6L || b.e > 1e-3L*fabsl(b.v) ) { undef = true; a = {1,0}; continue; } a = chk({a.v/b.v, (a.e+fabsl(a.v/b.v)*b.e)/fabsl(b.v)*1.01L}); } } return a; }
  E unary(){ if( c()=='+' || c()=='-' ){ bool m = c()=='-'; ++p; if( c()=='+' || c()=='-' ) odd = true; if( ++depth > 400 ){ ok = false; return {0,0}; } E a = unary(); --depth; return {m ? -a.v : a.v, a.e}; } return power(); }
  int depth = 0;
  E power(){ E a = prim(); if( ok && c()=='^' ){ ++p; E b = unary(); if( undef || !ok ) return {1,0}; bool in = b.v==roundl(b.v) && b.e < 1e-3L*u*(1+fabsl(b.v)) + 0 && fabsl(b.v) < 40; if( b.v==roundl(b.v) && fabsl(b.v)<40 && b.e <= 4*u*(1+fabsl(b.v)) && a.v>0 ) in = true;
      if( a.v < 1e-6L && !(in && fabsl(a.v) > 1e-6L) && !(a.v==0 && a.e==0 && b.v>1e-3L) ){ undef = true; return {1,0}; } if( a.v<0 && b.e>0 ){ undef = true; return {1,0}; } if( fabsl(b.v*logl(std::max(fabsl(a.v),1e-30L))) > 60 ){ if( a.v!=0 ){ undef = true; return {1,0}; } } R v = powl(a.v,b.v); return chk({v, a.v==0 ? 0 : fabsl(v)*(fabsl(b.v)*a.e/fabsl(a.v)+fabsl(logl(fabsl(a.v)))*b.e)*1.1L}); } return a; }
  E prim(){
    if( c()=='(' ){ ++p; if( ++depth > 400 ){ ok = false; return {0,0}; } E a = sum(); --depth; if( c()!=')' ){ ok = false; return a; } ++p; return a; }
    size_t b = p; while( p<s.size() && std::string("+-*/^()").find(s[p])==std::string::npos ) ++p; std::string t = s.substr(b,p-b); if( t.empty() ){ ok = false; return {0,0}; }
    if( c()=='(' ){ int f = -1; for(int i=0;i<7;++i) if( t==FUN[i] ) f = i; if( f<0 ){ ok = false; return {0,0}; } ++p; if( ++depth > 400 ){ ok = false; return {0,0}; } E a = sum(); --depth; if( c()!=')' ){ ok = false; return a; } ++p; if( undef || !ok ) return {1,0};
      switch( f ){ case 0: return {fabsl(a.v),a.e}; case 1: if( fabsl(a.v-roundl(a.v)) <= 4*a.e+1e-9L && !(a.e==0 && a.v==roundl(a.v)) ) undef = true; return {floorl(a.v),0}; case 2: if( a.v>60 ){ undef = true; return {1,0}; } return chk({expl(a.v), a.e*expl(a.v)*1.1L}); case 3: if( fabsl(a.v)>1e4L ) undef = true; return chk({sinl(a.v),a.e+u}); case 4: if( fabsl(a.v)>1e4L ) undef = true; return chk({cosl(a.v),a.e+u}); case 5: if( a.v<1e-6L ){ undef = true; return {1,0}; } return chk({sqrtl(a.v),a.e/sqrtl(a.v)}); default: if( a.v<1e-6L ){ undef = true; return {1,0}; } return chk({logl(a.v),a.e/a.v*1.1L+u}); } }
    bool num = true; int dots = 0, dig = 0; for(char q : t){ if( q=='.' ) ++dots; else if( q>='0' && q<='9' ) ++dig; else num = false; }
    if( num ){ if( dots>1 || dig==0 ){ ok = false; return {0,0}; } double v = std::strtod(t.c_str(),nullptr); if( std::isinf(v) ) odd = undef = true; return chk({(R)v,0}); }
    if( t=="PI" ) return {3.14159265358979323846L,4e-15L}; auto it = k.find(t); if( it==k.end() ){ ok = false; return {0,0}; } used[t] = true; return chk({it->second,0});
  }
  E run(){ if( s.empty() ){ ok = false; return {0,0}; } E a = sum(); if( p != s.size() ) ok = false; return a; }
};
static std::string number(Rng& rng){ char b[64]; switch( rng.irange(0,6) ){ case 0: case 1: return std::to_string(rng.irange(0,12)); case 2: std::snprintf(b,64,"%.2f",rng.uni(0,20)); return b; case 3: std::snprintf(b,64,"%.15f",rng.uni(0,3)); return b; case 4: std::snprintf(b,64,".%d",rng.irange(1,99)); return b; case 5: std::snprintf(b,64,"%d.",rng.irange(1,99)); return b; default: return rng.chance(0.1) ? "0."+std::string(rng.irange(300,420),'0')+"1" : std::to_string(rng.irange(100,99999)); } }
static const char* NAMES[] = {"x","y","z","a1","foo","x_y","T","pi","sinx"};
static std::string gen(Rng& rng, int d){
  int r = d<=0 ? rng.irange(0,2) : rng.irange(0,11); std::string s;
  if( r<=0 ) return number(rng); if( r==1 ) return NAMES[rng.irange(0,8)]; if( r==2 ) return rng.chance(0.3) ? "PI" : rng.chance(0.5) ? number(rng) : NAMES[rng.irange(0,8)];
  if( r==3 ) return "("+gen(rng,d-1)+")"; if( r==4 ) return std::string(FUN[rng.irange(0,6)])+"("+gen(rng,d-1)+")"; if( r==5 ) return (rng.chance(0.7) ? "-" : "+")+gen(rng,d-1);
  if( r==6 ){ s = gen(rng,d-1)+"^"+(rng.chance(0.6) ? std::to_string(rng.irange(0,4)) : gen(rng,d-2)); return s; }
  int n = rng.irange(2,4); int fam = rng.irange(0,2); s = gen(rng,d-1); for(int i=1;i<n;++i){ s += fam==0 ? rng.pick({"+","-"}) : fam==1 ? rng.pick({"*","/"}) : rng.pick({"+","-","*","/"}); if( rng.chance(0.08) ) s += rng.pick({"-","+"}); s += gen(rng,d-1); } return s;
}
static std::string spaced(Rng& rng, const std::string& s){ if( rng.chance(0.5) ) return s; std::string r; for(char c : s){ if( std::string("+-*/^()").find(c)!=std::string::npos && rng.chance(0.5) ){ r += rng.pick({" ","\n","\r\n","  "}); r += c; if( rng.chance(0.5) ) r += " "; } else r += c; } return r; }
static void setkeys(Rng& rng, Keys& k, dfm2::CMathExpressionEvaluator& e, bool all){ for(auto n : NAMES) if( all || rng.chance(0.4) ){ double v = rng.chance(0.3) ? rng.irange(-5,5) : rng.uni(-4,4); k[n] = v; e.SetKey(n,v); } }

static bool compare(vh::Ctx& ctx, dfm2::CMathExpressionEvaluator& e, const std::string& s, const Keys& k){
  Ref r(s,k); auto a = r.run(); if( !r.ok || r.undef ) return false; double v = e.Eval(); double tol = (double)(8*a.e + 1e-14L*fabsl(a.v)) + 1e-15; ctx.count("values"); CKN(v, (double)a.v, tol, "value", "'%s'", s.c_str()); CK(v == e.Eval(), "not_repeatable", "'%s'", s.c_str()); for(auto& q : k) CK(e.IsKeyUsed(q.first) == (r.used.count(q.first)>0), "key_used", "%s in '%s'", q.first.c_str(), s.c_str()); return true;
}
VH_FAMILY(expressions, 60000, 1000000){
  Rng& rng = ctx.rng; dfm2::CMathExpressionEvaluator e; Keys k; setkeys(rng,k,e,true); std::string s = spaced(rng,gen(rng,rng.irange(1,4))); ctx.sig(vh::Hash().s(s).h);
  Ref r(s,k); r.run(); bool ok; { Quiet q; ok = e.SetExp(s); } if( !r.ok ){ CK(false, "harness_generated_ill_formed", "'%s'", s.c_str()); return; } if( r.odd && !ok ){ ctx.count("double_sign_rejected"); return; } if( !CK(ok, "rejected", "'%s'", s.c_str()) ) return; ctx.count("accepted"); if( s.size() > 40 ) ctx.count("long");
  compare(ctx,e,s,k); for(int i=0;i<2;++i){ setkeys(rng,k,e,false); if( compare(ctx,e,s,k) ) ctx.count("reevaluated"); }
  if( ctx.icase < 3 ) ctx.sample(s);
}
// same operator many times: association
VH_FAMILY(chains, 4000, 60000){
  Rng& rng = ctx.rng; dfm2::CMathExpressionEvaluator e; Keys k; setkeys(rng,k,e,true); int n = rng.irange(2,9); int kind = rng.irange(0,4); std::string s = rng.chance(0.2) ? "-" : ""; for(int i=0;i<n;++i){ if( i ) s += kind==0 ? "-" : kind==1 ? "/" : kind==2 ? (rng.chance(0.5) ? "*" : "/") : kind==3 ? (rng.chance(0.5) ? "+" : "-") : rng.pick({"+","-","*","/","^"}); s += kind==4 && i>1 ? std::to_string(rng.irange(1,3)) : rng.chance(0.4) ? NAMES[rng.irange(0,8)] : std::to_string(rng.irange(1,9)); }
  ctx.sig(vh::Hash().s(s).h); bool ok; { Quiet q; ok = e.SetExp(s); } if( CK(ok, "rejected", "'%s'", s.c_str()) && compare(ctx,e,s,k) ) ctx.count("chains");
}
// one object, many expressions, good and bad
VH_FAMILY(history, 2000, 30000){
  Rng& rng = ctx.rng; dfm2::CMathExpressionEvaluator e; Keys k; std::string cur; bool valid = false; vh::Hash h;
  for(int st=0;st<rng.irange(5,25);++st){ int op = rng.irange(0,3);
    if( op==0 ){ setkeys(rng,k,e,false); } else if( op==1 ){ double v = rng.uni(-3,3); const char* n = NAMES[rng.irange(0,8)]; k[n] = v; e.SetKey(n,v); }
    else { std::string s = spaced(rng,gen(rng,rng.irange(0,3))); if( rng.chance(0.15) ) s.insert(rng.irange(0,(int)s.size()), rng.pick({")","(","*","$","..","?"})); Ref r(s,k); r.run(); Quiet q; bool ok = e.SetExp(s); if( !r.odd ) CK(ok==r.ok, ok ? "ill_formed_accepted" : "rejected", "'%s' in a history", s.c_str()); valid = ok && r.ok; cur = s; h.s(s); ctx.count(ok ? "history_accepted" : "history_rejected"); }
    if( op==2 && rng.chance(0.1) ){ volatile double big = 1e300; big = std::exp(big*0+800); errno = ERANGE; ctx.count("errno_set"); }
    if( valid ) compare(ctx,e,cur,k); }
  ctx.sig(h.h);
}
// mutated and arbitrary text
VH_FAMILY(garbage, 40000, 800000){
  Rng& rng = ctx.rng; dfm2::CMathExpressionEvaluator e; Keys k; setkeys(rng,k,e,true); std::string s; int how = rng.irange(0,2);
  if( how==0 ){ s = gen(rng,rng.irange(0,3)); for(int i=0;i<rng.irange(1,3);++i){ size_t p = rng.irange(0,(int)s.size()); switch( rng.irange(0,3) ){ case 0: s.insert(p,1,"+-*/^().()x5 #,\t"[rng.irange(0,15)]); break; case 1: if( p<s.size() ) s.erase(p,1); break; case 2: if( p<s.size() ) s[p] = "+-*/^()9x"[rng.irange(0,8)]; break; default: s = s.substr(0,p); } } }
  else if( how==1 ){ static const char* T[] = {"(",")","+","-","*","/","^","x","y","sin","sin(","abs","PI","3",".","4.5","log(",")(","()"}; int n = rng.irange(0,12); for(int i=0;i<n;++i) s += T[rng.irange(0,18)]; }
  else { int n = rng.irange(0,30); for(int i=0;i<n;++i) s += (char)(rng.chance(0.8) ? rng.irange(32,126) : rng.irange(1,255)); }
  ctx.sig(vh::Hash().s(s).h); Ref r(s,k); r.run(); bool ok; { Quiet q; ok = e.SetExp(s); } if( r.odd ) { ctx.count("double_sign"); } else { CK(ok==r.ok, ok ? "ill_formed_accepted" : "rejected", "'%s'", s.c_str()); ctx.count(ok ? "well_formed" : "ill_formed"); } if( ok && r.ok ) compare(ctx,e,s,k);
}
VH_FAMILY(nested, 300, 3000){
  Rng& rng = ctx.rng; dfm2::CMathExpressionEvaluator e; Keys k; setkeys(rng,k,e,true); int n = rng.irange(1,120); std::string s = rng.chance(0.5) ? "x" : "1.5"; for(int i=0;i<n;++i){ switch( rng.irange(0,3) ){ case 0: s = "("+s+")"; break; case 1: s = std::string(rng.pick({"sin","cos","abs"}))+"("+s+")"; break; case 2: s = "("+s+")+"+std::to_string(rng.irange(0,3)); break; default: s = "2-("+s+")"; } }
  ctx.sig(vh::Hash().s(s).h); bool ok; { Quiet q; ok = e.SetExp(s); } if( CK(ok, "rejected", "nested %d", n) && compare(ctx,e,s,k) ) ctx.count("nested");
}
