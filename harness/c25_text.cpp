// C25: text utilities, XML/attribute scanners, path and parameter files, SVG path data,
// judged against reference rules written independently (cut positions, rejoining, generators).
#include "../lib/vh.h"
#include <unistd.h>
#include <cmath>
#include <cstring>
#include <iostream>
#include <fstream>
#include <sstream>
#include "delfem2/str.h"
#include "delfem2/file.h"
#include "delfem2/cad2_io_svg.h"
namespace dfm2 = delfem2;
typedef std::string S;
typedef std::vector<S> VS;

static S tmp(const char *ext) { return vh::cfg().dir + vh::fmt("/c25_%d.%s", (int) getpid(), ext); }
static void put(const S &path, const S &s) { std::ofstream o(path, std::ios::binary | std::ios::trunc); o.write(s.data(), (std::streamsize) s.size()); }
static S text(vh::Ctx &ctx, const S &alpha, int maxlen) {
  S s; int n = ctx.rng.irange(0, maxlen);
  for (int i = 0; i < n; ++i) { s += alpha[(size_t) ctx.rng.irange(0, (int) alpha.size() - 1)]; }
  return s;
}
static S show(const VS &v) { S r; for (auto &x: v) { r += "[" + x + "]"; } return r; }
static S word(vh::Ctx &ctx, int lo, int hi) { S s; int n = ctx.rng.irange(lo, hi); for (int i = 0; i < n; ++i) { s += (char) ctx.rng.irange('a', 'z'); } return s; }
struct Quiet { std::streambuf *o; std::ostringstream b; Quiet() { o = std::cout.rdbuf(b.rdbuf()); } ~Quiet() { std::cout.rdbuf(o); }};

VH_FAMILY(split_plain, 1500, 80000) {
  S s = text(ctx, "ab,,;  x", 14);
  if (ctx.rng.chance(0.1)) { s = text(ctx, "\x80\xff,\na", 12); }
  ctx.sig(vh::Hash().s(s).h);
  char d = ctx.rng.pick(std::vector<char>{',', ' ', ';', 'a'});
  VS ref; S cur;
  for (size_t i = 0; i <= s.size(); ++i) { if (i == s.size() || s[i] == d) { if (!cur.empty()) { ref.push_back(cur); } cur.clear(); } else { cur += s[i]; }}
  VS a = dfm2::Split(s, d), b = {"junk"};
  dfm2::Split(b, s, d);
  CK(a == ref && b == ref, "pieces between a delimiter", "'%s' by '%c': %s vs %s", s.c_str(), d, show(a).c_str(), show(ref).c_str());
  S set = text(ctx, ",; ax", 3);
  ref.clear(); cur.clear();
  for (size_t i = 0; i <= s.size(); ++i) { if (i == s.size() || set.find(s[i]) != S::npos) { if (!cur.empty()) { ref.push_back(cur); } cur.clear(); } else { cur += s[i]; }}
  VS c = dfm2::Split(s, set);
  CK(c == ref, "pieces between delimiters of a set", "'%s' by '%s': %s vs %s", s.c_str(), set.c_str(), show(c).c_str(), show(ref).c_str());
  ctx.count("splits"); ctx.count("pieces", (long) (a.size() + c.size()));
}
VH_FAMILY(split_nested, 1500, 80000) {
  S s; bool bal = ctx.rng.chance(0.6);
  if (bal) {
    int lev = 0, n = ctx.rng.irange(0, 16);
    for (int i = 0; i < n; ++i) {
      int t = ctx.rng.irange(0, 5);
      if (t == 0) { s += '('; ++lev; } else if (t == 1 && lev > 0) { s += ')'; --lev; } else if (t <= 3) { s += (char) ('a' + i % 3); } else { s += ','; }
    }
    while (lev-- > 0) { s += ')'; }
    if (ctx.rng.chance(0.3)) { s += ','; }
  } else { s = text(ctx, "(),,ab", 12); }
  ctx.sig(vh::Hash().s(s).h);
  ctx.sample(s);
  VS a = dfm2::Split_Parentheses(s, ',', "()");
  S joined; for (size_t i = 0; i < a.size(); ++i) { joined += (i ? "," : "") + a[i]; }
  CK(joined == s || joined + "," == s, "pieces do not rejoin to the text (parentheses)", "'%s': %s", s.c_str(), show(a).c_str());
  if (bal) {
    VS ref; S cur; int lev = 0;
    for (char c: s) { if (c == ',' && lev == 0) { ref.push_back(cur); cur.clear(); continue; } lev += (c == '(') - (c == ')'); cur += c; }
    if (!cur.empty()) { ref.push_back(cur); }
    CK(a == ref, "pieces at the outermost level", "'%s': %s vs %s", s.c_str(), show(a).c_str(), show(ref).c_str());
    ctx.count("nested_balanced");
  }
  // outermost bracket content
  S g = dfm2::Get_Parentheses(s, "()");
  size_t i0 = s.find('('), i1 = s.rfind(')');
  S rg = i0 != S::npos && i1 != S::npos && i1 > i0 ? s.substr(i0 + 1, i1 - i0 - 1) : S();
  CK(g == rg, "content between the first and last bracket", "'%s': '%s' vs '%s'", s.c_str(), g.c_str(), rg.c_str());
  // quotes
  S q = text(ctx, "''ab,,", 12);
  VS b = dfm2::Split_Quote(q, ',', '\''), ref; S cur; bool in = false;
  for (char c: q) { if (c == ',' && !in) { if (!cur.empty()) { ref.push_back(cur); } cur.clear(); continue; } if (c == '\'') { in = !in; } cur += c; }
  if (!cur.empty()) { ref.push_back(cur); }
  CK(b == ref, "pieces outside quotes", "'%s': %s vs %s", q.c_str(), show(b).c_str(), show(ref).c_str());
  ctx.count("splits");
}
VH_FAMILY(trim_replace, 1000, 50000) {
  S s = text(ctx, "ab  \t,.", 12), del = text(ctx, " \t,a", 3);
  ctx.sig(vh::Hash().s(s).s(del).h);
  S r; for (char c: s) { if (del.find(c) == S::npos) { r += c; }}
  CK(dfm2::Remove(s, del) == r, "characters removed", "'%s' minus '%s'", s.c_str(), del.c_str());
  S r2; for (char c: s) { if (c != ' ') { r2 += c; }}
  CK(dfm2::RemoveSpace(s) == r2, "spaces removed", "'%s'", s.c_str());
  size_t i = 0; while (i < s.size() && del.find(s[i]) != S::npos) { ++i; }
  S rb = dfm2::RemoveBeginning(s, del);
  CK(rb == s.substr(i), "beginning removed", "'%s' minus '%s' gives '%s'", s.c_str(), del.c_str(), rb.c_str());
  if (i == s.size()) { ctx.count("nothing_left"); }
  char f = ctx.rng.pick(std::vector<char>{'a', ' ', 'z'}), t = ctx.rng.pick(std::vector<char>{'Q', 'b', 'a'});
  S r3 = s; for (auto &c: r3) { c = c == f ? t : c; }
  CK(dfm2::Replace(s, f, t) == r3, "characters replaced", "'%s'", s.c_str());
  if (ctx.icase == 0) {
    for (int c = -128; c < 256; ++c) {
      bool up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', nu = c >= '0' && c <= '9';
      if (c < 128) { CK(dfm2::isAlphabet((char) c) == (up || lo), "letter test", "%d", c); }
      CK(dfm2::isAlphabetUpper(c) == up, "upper case test", "%d", c);
      CK(dfm2::isNumeric(c) == nu, "digit test", "%d", c);
      ctx.count("char_classes");
    }
  }
}
VH_FAMILY(xml_scan, 800, 30000) {
  // document of alternating content and tags
  VS ref; S doc;
  int n = ctx.rng.irange(0, 8);
  for (int i = 0; i < n; ++i) {
    S c = text(ctx, "abc  \n\"=/>", 8), t = text(ctx, "abc  =\"/<!", 8);
    doc += c + "<" + t + ">";
    for (S *x: {&c, &t}) { size_t k = 0; while (k < x->size() && (*x)[k] == ' ') { ++k; } ref.push_back(x->substr(k)); }
  }
  S tail = text(ctx, "ab \n", 4);
  if (ctx.rng.chance(0.2)) { tail += "<abc"; S t2 = tail.substr(0, tail.find('<')); size_t k = 0; while (k < t2.size() && t2[k] == ' ') { ++k; } ref.push_back(t2.substr(k)); ctx.count("unfinished_tag"); }
  doc += tail;
  ctx.sig(vh::Hash().s(doc).h);
  std::vector<char> in(doc.begin(), doc.end());
  if (ctx.rng.chance(0.5)) { in.push_back('\0'); if (ctx.rng.chance(0.5)) { S junk = text(ctx, "ab<> ", 8); in.insert(in.end(), junk.begin(), junk.end()); ctx.count("xml_text_after_terminator"); } } else { ctx.count("xml_no_terminator"); }
  in.shrink_to_fit();
  VS out;
  dfm2::XML_SeparateTagContent(out, in);
  CK(out == ref, "tags and contents", "'%s': %s vs %s", doc.c_str(), show(out).c_str(), show(ref).c_str());
  ctx.count("xml_docs"); ctx.count("xml_pieces", (long) out.size());
}
VH_FAMILY(attributes, 800, 30000) {
  std::map<S, S> ref; S s;
  int n = ctx.rng.irange(0, 6);
  for (int i = 0; i < n; ++i) {
    S k = word(ctx, 1, 5); if (ref.count(k)) { continue; }
    S v;
    if (ctx.rng.chance(0.7)) { v = text(ctx, "ab 01.,:/=-", 10); s += k + "=\"" + v + "\""; if (v.find('=') != S::npos) { ctx.count("attr_value_with_equal"); }}
    else { v = word(ctx, 1, 5); s += k + "=" + v; }
    ref[k] = v;
    s += S((size_t) ctx.rng.irange(1, 2), ' ');
  }
  if (!s.empty() && ctx.rng.chance(0.5)) { while (!s.empty() && s.back() == ' ') { s.pop_back(); }}
  if (ctx.rng.chance(0.3)) { s = S((size_t) ctx.rng.irange(1, 2), ' ') + s; }
  ctx.sig(vh::Hash().s(s).h);
  std::map<S, S> m;
  dfm2::ParseAttributes(m, s);
  S d; for (auto &x: m) { d += x.first + ":" + x.second + "|"; }
  CK(m == ref, "attributes", "%s gives %s", s.c_str(), d.c_str());
  ctx.count("attributes", (long) ref.size());
  S h = text(ctx, "ab  =\"\"", 14);  // hostile: memory monitors
  std::map<S, S> m2; dfm2::ParseAttributes(m2, h);
}
VH_FAMILY(json_csv_cmd, 600, 25000) {
  {
    std::map<S, S> ref; S s = "{"; int n = ctx.rng.irange(1, 5);
    for (int i = 0; i < n; ++i) {
      S k = word(ctx, 1, 6); if (ref.count(k)) { continue; }
      S v = text(ctx, "ab0,1.:-", 10); if (!v.empty() && v[0] == ':') { v = "x" + v; } if (!v.empty() && v[0] == ',') { v = "x" + v; }
      ref[k] = v; s += (s.size() > 1 ? "," : "") + S(ctx.rng.chance(0.3) ? " " : "") + "\"" + k + "\"" + (ctx.rng.chance(0.3) ? " " : "") + ":\"" + v + "\"";
    }
    s += "}";
    ctx.sig(vh::Hash().s(s).h);
    auto m = dfm2::ReadDictionary_Json(s);
    CK(m == ref, "JSON dictionary", "%s gives %zu entries", s.c_str(), m.size()); ctx.count("json", (long) m.size());
  }
  {
    std::vector<double> ref, out = {}; S s; int n = ctx.rng.irange(0, 8);
    for (int i = 0; i < n; ++i) { double v = ctx.rng.gauss() * std::pow(10., ctx.rng.irange(-9, 9)); S t = vh::fmt("%.17g", v); ref.push_back(v); s += (i ? "," : "") + t; }
    if (n && ctx.rng.chance(0.3)) { s += ","; }
    dfm2::ReadVector_CSV(out, s);
    CK(out == ref, "comma separated numbers", "%s", s.c_str());
  }
  {
    VS args = {"prog"}; int n = ctx.rng.irange(0, 5);
    for (int i = 0; i < n; ++i) { args.push_back(ctx.rng.pick(VS{"-a", "-b", "12", "-3.25", "x y", "-c", "7e3"})); }
    std::vector<char *> av; for (auto &a: args) { av.push_back(&a[0]); }
    char **b = av.data(), **e = av.data() + av.size();
    for (const char *o: {"-a", "-b", "-zz"}) {
      size_t k = 0; while (k < args.size() && args[k] != o) { ++k; }
      bool has = k < args.size(); S nx = has && k + 1 < args.size() ? args[k + 1] : S();
      bool val = has && k + 1 < args.size();
      CK(dfm2::cmdOptionExists(b, e, o) == has, "option exists", "%s", o);
      CK(dfm2::getCmdOptionStr(b, e, o) == nx, "option text", "%s", o);
      double df = ctx.rng.uni(-3, 3);
      CK(dfm2::getCmdOptionDouble(b, e, o, df) == (val ? strtod(nx.c_str(), nullptr) : df), "option number", "%s default %g", o, df);
      CK(dfm2::getCmdOptionInt(b, e, o, 5) == (val ? (int) strtol(nx.c_str(), nullptr, 10) : 5), "option integer", "%s", o);
      ctx.count("options");
    }
  }
}
VH_FAMILY(path_and_param, 500, 20000) {
  S dir; bool hasdir = ctx.rng.chance(0.6);
  if (hasdir) { dir = ctx.rng.pick(VS{".", "..", "", "a.b", "x"}); if (ctx.rng.chance(0.5)) { dir += "/" + word(ctx, 1, 4) + (ctx.rng.chance(0.3) ? ".d" : ""); } dir += "/"; }
  S stem = word(ctx, 1, 5); if (ctx.rng.chance(0.3)) { stem += "." + word(ctx, 1, 3); }
  S ext = word(ctx, 1, 4); bool hasext = ctx.rng.chance(0.7);
  if (!hasext) { stem = word(ctx, 1, 5); }
  S p = dir + stem + (hasext ? "." + ext : "");
  ctx.sig(vh::Hash().s(p).h);
  CK(dfm2::pathGetExtension(p) == (hasext ? ext : S()), "extension of a path", "%s gives %s", p.c_str(), dfm2::pathGetExtension(p).c_str());
  CK(dfm2::pathRemoveExtension(p) == dir + stem, "path without extension", "%s gives %s", p.c_str(), dfm2::pathRemoveExtension(p).c_str());
  S d = dfm2::getPathDir(p);
  if (hasdir) { CK(d + "/" == dir, "directory of a path", "%s gives %s", p.c_str(), d.c_str()); } else { CK(d.empty() || d == ".", "directory of a bare name", "%s gives %s", p.c_str(), d.c_str()); ctx.count("no_directory"); }
  // parameters
  std::vector<float> v((size_t) ctx.rng.irange(0, 12)); for (auto &x: v) { x = (float) (ctx.rng.gauss() * std::pow(10., ctx.rng.irange(-5, 5))); }
  S f = tmp("txt");
  CK(dfm2::WriteParam(f, v), "parameter file is not written", "%s", f.c_str());
  std::vector<float> w = {1, 2};
  auto same = [&](const std::vector<float> &a, const std::vector<float> &b) { if (a.size() != b.size()) { return false; } for (size_t i = 0; i < a.size(); ++i) { if (std::fabs(a[i] - b[i]) > 1e-5 * std::fabs(a[i])) { return false; }} return true; };
  CK(dfm2::ReadParam(w, f) && same(v, w), "parameters written and read back", "%zu vs %zu", v.size(), w.size());
  S t; for (size_t i = 0; i < v.size(); ++i) { t += (i ? (ctx.rng.chance(0.5) ? " " : "\n") : "") + vh::fmt("%.9g", v[i]); }
  put(f, t);
  CK(dfm2::ReadParam(w, f) && same(v, w), "parameters of a file without final newline", "%zu vs %zu", v.size(), w.size());
  put(f, t + "\nabc 3\n");
  CK(dfm2::ReadParam(w, f) && w.size() >= v.size() && w.size() <= v.size() + 1, "parameters before a text", "%zu vs %zu", v.size(), w.size());
  // whole file
  S c; int n = ctx.rng.irange(0, 300); for (int i = 0; i < n; ++i) { c += (char) ctx.rng.irange(0, 255); }
  put(f, c);
  std::vector<char> a;
  CK(dfm2::GetFileContents(a, f) && a.size() == c.size() + 1 && a.back() == 0 && std::memcmp(a.data(), c.data(), c.size()) == 0, "file contents", "%zu vs %zu", a.size(), c.size());
  CK(dfm2::LoadFile(f) == c, "file text", "%zu", c.size());
  CK(dfm2::isFileExists(f) && !dfm2::isFileExists(f + ".none"), "file existence", "%s", f.c_str());
  ctx.count("files");
}

// -------------------- SVG --------------------
struct RE { int type; double q[8]; };  // p0, c0, c1, p1
static S num(vh::Ctx &ctx, double v, bool &compact) {
  S s;
  int t = ctx.rng.irange(0, 4);
  if (t == 0) { s = vh::fmt("%.3f", v); } else if (t == 1) { s = vh::fmt("%g", v); } else if (t == 2) { s = vh::fmt("%.6e", v); ctx.count("svg_exponent"); }
  else if (t == 3) { s = vh::fmt("%d", (int) v); } else { s = vh::fmt("%.2f", v); if (s.compare(0, 2, "0.") == 0) { s = s.substr(1); } else if (s.compare(0, 3, "-0.") == 0) { s = "-" + s.substr(2); }}
  compact = s[0] == '-';
  return s;
}
static S sepr(vh::Ctx &ctx) {
  S s = ctx.rng.pick(VS{" ", ",", ", ", " ,", "  ", "\n", " \r\n ", "\t", " "});
  if (s.find('\n') != S::npos) { ctx.count("svg_newline_separator"); }
  return s;
}
static S gen_path(vh::Ctx &ctx, std::vector<RE> &ref) {
  S d; double cx = 0, cy = 0, kx = 0, ky = 0; char prev = ' ';
  auto args = [&](int n, double *v, bool first) {
    for (int i = 0; i < n; ++i) {
      bool comp; S t = num(ctx, ctx.rng.uni(-50, 50), comp);
      v[i] = strtod(t.c_str(), nullptr);
      bool need = !(first && i == 0);
      if (need && !(comp && ctx.rng.chance(0.5))) { d += sepr(ctx); }
      else if (!need && ctx.rng.chance(0.5)) { d += " "; }
      d += t;
    }
  };
  auto push = [&](int ty, double a, double b, double c, double e, double x, double y) { ref.push_back({ty, {cx, cy, a, b, c, e, x, y}}); cx = x; cy = y; };
  bool rel = ctx.rng.chance(0.5);
  d += rel ? "m" : "M";
  double v[6];
  args(2, v, true); cx = v[0]; cy = v[1];
  double sx = cx, sy = cy;
  for (int k = ctx.rng.irange(0, 2); k > 0; --k) { args(2, v, false); double bx = rel ? cx : 0, by = rel ? cy : 0; push(0, 0, 0, 0, 0, bx + v[0], by + v[1]); }
  int nc = ctx.rng.irange(1, 6);
  for (int c = 0; c < nc; ++c) {
    char ty = ctx.rng.pick(std::vector<char>{'L', 'H', 'V', 'C', 'S', 'Q', 'T', 'C', 'L'});
    bool r = ctx.rng.chance(0.5);
    if (ctx.rng.chance(0.4)) { d += " "; }
    d += (char) (r ? ty - 'A' + 'a' : ty);
    ctx.count(vh::fmt("svg_cmd_%c", r ? ty - 'A' + 'a' : ty));
    int rep = ctx.rng.chance(0.3) ? ctx.rng.irange(2, 3) : 1;
    if (rep > 1) { ctx.count("svg_repeated_args"); }
    for (int k = 0; k < rep; ++k) {
      double bx = r ? cx : 0, by = r ? cy : 0;
      bool first = k == 0;
      if (ty == 'L') { args(2, v, first); push(0, 0, 0, 0, 0, bx + v[0], by + v[1]); }
      if (ty == 'H') { args(1, v, first); push(0, 0, 0, 0, 0, bx + v[0], cy); }
      if (ty == 'V') { args(1, v, first); push(0, 0, 0, 0, 0, cx, by + v[0]); }
      if (ty == 'C') { args(6, v, first); kx = bx + v[2]; ky = by + v[3]; push(1, bx + v[0], by + v[1], kx, ky, bx + v[4], by + v[5]); }
      if (ty == 'S') {
        args(4, v, first);
        double ax = cx, ay = cy; if (prev == 'C' || prev == 'S') { ax = 2 * cx - kx; ay = 2 * cy - ky; ctx.count("svg_smooth"); }
        kx = bx + v[0]; ky = by + v[1]; push(1, ax, ay, kx, ky, bx + v[2], by + v[3]);
      }
      if (ty == 'Q') { args(4, v, first); kx = bx + v[0]; ky = by + v[1]; push(2, kx, ky, 0, 0, bx + v[2], by + v[3]); }
      if (ty == 'T') {
        args(2, v, first);
        double ax = cx, ay = cy; if (prev == 'Q' || prev == 'T') { ax = 2 * cx - kx; ay = 2 * cy - ky; ctx.count("svg_smooth"); }
        kx = ax; ky = ay; push(2, kx, ky, 0, 0, bx + v[0], by + v[1]);
      }
      prev = ty;
    }
  }
  if (ctx.rng.chance(0.3)) { d += " "; }
  d += ctx.rng.chance(0.5) ? "z" : "Z";
  if (std::hypot(cx - sx, cy - sy) > 1e-6) { push(0, 0, 0, 0, 0, sx, sy); }
  return d;
}
static S wrap(vh::Ctx &ctx, const VS &elems) {
  S s = "<?xml version=\"1.0\"?>\n<svg xmlns=\"http://www.w3.org/2000/svg\" width=\"100\">\n";
  if (ctx.rng.chance(0.3)) { s += "<g id=\"g1\">\n<rect x=\"1\" y=\"2\"/>\n"; }
  for (auto &e: elems) { s += e + "\n"; }
  return s + "</svg>\n";
}
static bool same_edges(vh::Ctx &ctx, const std::vector<dfm2::CCad2D_EdgeGeo> &e, const std::vector<RE> &r, const S &d) {
  if (!CK(e.size() == r.size(), "number of path edges", "%zu vs %zu: %s", e.size(), r.size(), d.c_str())) { return false; }
  for (size_t i = 0; i < r.size(); ++i) {
    const auto &x = e[i]; const RE &y = r[i];
    if (!CK((int) x.type_edge == y.type, "type of a path edge", "%d vs %d edge %zu: %s", (int) x.type_edge, y.type, i, d.c_str())) { return false; }
    CKN(x.p0.x, y.q[0], 1e-6, "start of a path edge", "x edge %zu: %s", i, d.c_str()); CKN(x.p0.y, y.q[1], 1e-6, "start of a path edge", "y edge %zu: %s", i, d.c_str());
    CKN(x.p1.x, y.q[6], 1e-6, "end of a path edge", "x edge %zu: %s", i, d.c_str()); CKN(x.p1.y, y.q[7], 1e-6, "end of a path edge", "y edge %zu: %s", i, d.c_str());
    if (y.type == 1) {
      if (!CK(x.param.size() == 4, "parameters of a cubic edge", "%zu", x.param.size())) { return false; }
      CKN(x.p0.x + x.param[0], y.q[2], 1e-6, "first control point", "x edge %zu: %s", i, d.c_str()); CKN(x.p0.y + x.param[1], y.q[3], 1e-6, "first control point", "y edge %zu: %s", i, d.c_str());
      CKN(x.p1.x + x.param[2], y.q[4], 1e-6, "second control point", "x edge %zu: %s", i, d.c_str()); CKN(x.p1.y + x.param[3], y.q[5], 1e-6, "second control point", "y edge %zu: %s", i, d.c_str());
    }
    if (y.type == 2) {
      if (!CK(x.param.size() == 2, "parameters of a quadratic edge", "%zu", x.param.size())) { return false; }
      CKN(x.p0.x + x.param[0], y.q[2], 1e-6, "quadratic control point", "x edge %zu: %s", i, d.c_str()); CKN(x.p0.y + x.param[1], y.q[3], 1e-6, "quadratic control point", "y edge %zu: %s", i, d.c_str());
    }
    ctx.count("svg_edges");
  }
  return !ctx.failed;
}
VH_FAMILY(svg_path, 800, 30000) {
  int np = ctx.rng.irange(1, 3), ng = ctx.rng.irange(0, 2);
  std::vector<std::vector<RE>> refs; VS el; S ds;
  for (int i = 0; i < np; ++i) {
    std::vector<RE> r; S d = gen_path(ctx, r); refs.push_back(r); ds += d + "|";
    S pre = ctx.rng.chance(0.5) ? " id=\"p\" style=\"fill:none;a=b\"" : "", post = ctx.rng.chance(0.5) ? ctx.rng.pick(VS{" stroke=\"red\"", "\nclass=\"k\"", "\r\n   transform=\"\""}) : "";
    el.push_back("<path" + pre + ctx.rng.pick(VS{" ", "\n   "}) + "d=\"" + d + "\"" + post + "/>");
  }
  for (int i = 0; i < ng; ++i) {
    std::vector<RE> r; int n = ctx.rng.irange(3, 7); std::vector<double> q; S p;
    for (int k = 0; k < n * 2; ++k) { bool c; S t = num(ctx, ctx.rng.uni(-50, 50), c); q.push_back(strtod(t.c_str(), nullptr)); p += (k ? (k % 2 ? S(",") : ctx.rng.pick(VS{" ", "\n", "  "})) : "") + t; }
    for (int k = 0; k < n; ++k) { int m = (k + 1) % n; r.push_back({0, {q[k * 2], q[k * 2 + 1], 0, 0, 0, 0, q[m * 2], q[m * 2 + 1]}}); }
    refs.push_back(r); ds += p + "|";
    el.push_back("<polygon" + ctx.rng.pick(VS{" ", "\n "}) + "points=\"" + p + "\" fill=\"blue\"></polygon>");
    ctx.count("svg_polygons");
  }
  S f = tmp("svg"), all = wrap(ctx, el);
  put(f, all);
  ctx.sig(vh::Hash().s(all).h); ctx.sample(ds);
  std::vector<std::vector<dfm2::CCad2D_EdgeGeo>> aa(2);
  dfm2::ReadSVG_LoopEdgeCCad2D(aa, f);
  if (!CK(aa.size() == refs.size(), "number of loops in an SVG", "%zu vs %zu: %s", aa.size(), refs.size(), ds.c_str())) { return; }
  for (size_t i = 0; i < aa.size(); ++i) { if (!same_edges(ctx, aa[i], refs[i], ds)) { return; }}
  ctx.count("svg_files");
}
VH_FAMILY(svg_polygon_text, 300, 10000) {
  int n = ctx.rng.irange(0, 8); std::vector<double> xy; for (int i = 0; i < n * 2; ++i) { xy.push_back(ctx.rng.irange(-500, 500) / 4.); }
  double sc = ctx.rng.pick(std::vector<double>{1, 2, 0.5, -1});
  S s = dfm2::Str_SVGPolygon(xy, sc);
  ctx.sig(vh::Hash().s(s).h);
  S f = tmp("svg"); put(f, s);
  std::vector<std::vector<dfm2::CCad2D_EdgeGeo>> aa;
  dfm2::ReadSVG_LoopEdgeCCad2D(aa, f);
  if (n == 0) { CK(aa.empty(), "loops from an empty polygon", "%zu", aa.size()); return; }
  if (!CK(aa.size() == 1 && (int) aa[0].size() == n, "polygon text read back", "%zu: %s", aa.size(), s.c_str())) { return; }
  for (int i = 0; i < n; ++i) {
    CKN(aa[0][(size_t) i].p0.x, xy[(size_t) i * 2] * sc, 1e-9, "polygon text read back: x", "%d", i);
    CKN(aa[0][(size_t) i].p0.y, -xy[(size_t) i * 2 + 1] * sc, 1e-9, "polygon text read back: y", "%d", i);
  }
  ctx.count("svg_polygon_text");
}
VH_FAMILY(svg_hostile, 800, 40000) {
  std::vector<RE> r; S d = gen_path(ctx, r);
  int n = ctx.rng.irange(1, 4);
  for (int k = 0; k < n && !d.empty(); ++k) {
    size_t at = (size_t) ctx.rng.irange(0, (int) d.size() - 1);
    switch (ctx.rng.irange(0, 4)) {
      case 0: d.resize(at); break;
      case 1: d.erase(at, (size_t) ctx.rng.irange(1, 5)); break;
      case 2: d.insert(at, ctx.rng.pick(VS{"z", "M", "a1 2 3", "..", "--", "e", "1e", "S", "T", ",", "h", "\n", "xx"})); break;
      case 3: d[at] = (char) ctx.rng.irange(32, 126); break;
      default: d[at] = (char) ctx.rng.irange(1, 255); break;
    }
  }
  S doc = wrap(ctx, {"<path d=\"" + d + "\"/>", ctx.rng.pick(VS{"<path>", "<path/>", "<polygon>", "<polygon points=\"\"/>", "<polygon points=\"1\"/>", "<path d=\"M0 0z\"/>", "<path d=\"\"/>"})});
  if (ctx.rng.chance(0.2)) { doc.resize((size_t) ctx.rng.irange(0, (int) doc.size())); }
  S f = tmp("svg"); put(f, doc);
  ctx.sig(vh::Hash().s(doc).h);
  Quiet q;
  std::vector<std::vector<dfm2::CCad2D_EdgeGeo>> aa;
  dfm2::ReadSVG_LoopEdgeCCad2D(aa, f);
  size_t ne = 0;
  for (auto &l: aa) {
    ne += l.size();
    for (size_t i = 0; i < l.size(); ++i) {
      const auto &a = l[i], &b = l[(i + 1) % l.size()];
      CK(std::hypot(a.p1.x - b.p0.x, a.p1.y - b.p0.y) <= 1e-8 || !(std::fabs(a.p1.x) < 1e12 && std::fabs(b.p0.x) < 1e12 && std::fabs(a.p1.y) < 1e12 && std::fabs(b.p0.y) < 1e12),
         "edges of a loop read from SVG are not chained", "edge %zu: %s", i, d.c_str());
      CK((a.type_edge == 0 && a.param.empty()) || (a.type_edge == 1 && a.param.size() == 4) || (a.type_edge == 2 && a.param.size() == 2), "edge type and parameters disagree", "%d %zu", (int) a.type_edge, a.param.size());
    }
  }
  ctx.count("svg_hostile_edges", (long) ne);
  dfm2::CCad2D cad;
  dfm2::ReadSVG_Cad2D(cad, f, 0.5);
  CK(cad.aVtx.size() == cad.topo.num_vertex && cad.aEdge.size() == cad.topo.edges.size(), "shape from SVG is inconsistent", "%zu %zu", cad.aVtx.size(), cad.aEdge.size());
  ctx.count("svg_hostile_files");
}
