// C24: PPM / NumPy loaders, image sampling and image gradients against independent
// writers, a reference parser and a reference sampler.
#include "../lib/vh.h"
#include <cstring>
#include <fstream>
#include <unistd.h>
#include <cmath>
#include "delfem2/img_ioppm.h"
#include "delfem2/img_interpolation.h"
#include "delfem2/filenpy_str.h"
#include "delfem2/cvimggraygrad.h"
namespace dfm2 = delfem2;
typedef std::vector<unsigned char> Bytes;

static std::string path_of(vh::Ctx &ctx, const char *ext) {
  return vh::cfg().dir + vh::fmt("/c24_%d.%s", (int) getpid(), ext);
}
static void put(const std::string &path, const std::string &s) {
  std::ofstream o(path, std::ios::binary | std::ios::trunc);
  o.write(s.data(), (std::streamsize) s.size());
}
static bool isws(unsigned char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\v' || c == '\f'; }

// ---------- reference PPM header reader (netpbm rules) ----------
struct PPM { bool ok = false; long w = 0, h = 0, mx = 0; size_t off = 0; bool comment = false; bool weird = false; };
static PPM ref_header(const std::string &s, char kind) {
  PPM r;
  if (s.size() < 2 || s[0] != 'P' || s[1] != kind) { return r; }
  size_t i = 2;
  long v[3];
  for (int k = 0; k < 3; ++k) {
    size_t i0 = i;
    while (i < s.size()) {
      if (isws((unsigned char) s[i])) { ++i; }
      else if (s[i] == '#') { r.comment = true; while (i < s.size() && s[i] != '\n') { ++i; }}
      else { break; }
    }
    if (i == i0) { return r; }
    size_t d0 = i;
    long x = 0;
    while (i < s.size() && s[i] >= '0' && s[i] <= '9') { x = std::min(x * 10 + (s[i] - '0'), 100000000000L); ++i; }  // leading zeros are fine
    if (i == d0 || x >= 10000000000L) { return r; }
    v[k] = x;
  }
  if (i >= s.size() || !isws((unsigned char) s[i])) { return r; }
  if (kind == '6') { ++i; }
  r.off = i;
  r.w = v[0]; r.h = v[1]; r.mx = v[2];
  if (r.w > 1000000 || r.h > 1000000) { return r; }  // no such file is made here
  if (r.w <= 0 || r.h <= 0 || r.mx <= 0 || (kind == '6' && r.mx > 65535)) { return r; }
  r.ok = true;
  return r;
}
static bool minus_zero(const std::string &s) {  // "255-0": read as 255 and 0
  for (size_t i = s.find("-0"); i != std::string::npos; i = s.find("-0", i + 1)) {
    size_t j = s.find_first_not_of('0', i + 1);
    if (j == std::string::npos || s[j] < '1' || s[j] > '9') { return true; }
  }
  return false;
}
static std::string ws(vh::Ctx &ctx, bool comment) {
  static const char *w[] = {" ", "\n", "\t", "  ", "\r\n", " \n"};
  std::string s = w[ctx.rng.irange(0, 5)];
  if (comment && ctx.rng.chance(0.4)) {
    s += "\n# a comment 12 34\n";
    if (ctx.rng.chance(0.3)) { s += "#" + std::string((size_t) ctx.rng.irange(0, 400), 'x') + "\n"; }
    ctx.count("ppm_comment");
  }
  return s;
}
static Bytes rnd_img(vh::Ctx &ctx, int w, int h) {
  Bytes b((size_t) w * h * 3);
  int mode = ctx.rng.irange(0, 3);
  for (auto &c: b) {
    c = mode == 0 ? (unsigned char) ctx.rng.irange(0, 255) : mode == 1 ? (ctx.rng.chance(0.5) ? 0 : 255)
        : mode == 2 ? (unsigned char) ctx.rng.pick(std::vector<int>{'\n', ' ', '#', '\r', '0', '9', 26, 255})
        : (unsigned char) ctx.rng.irange(48, 57);
  }
  return b;
}
static std::string header6(vh::Ctx &ctx, int w, int h) {
  std::string s = "P6";
  int lay = ctx.rng.irange(0, 3);
  if (lay == 0) { s += vh::fmt("\n%d %d\n255\n", w, h); }
  else if (lay == 1) { s += vh::fmt("\n%d %d 255\n", w, h); }
  else if (lay == 2) { s += vh::fmt("\n# CREATOR: GIMP\n%d %d\n255\n", w, h); ctx.count("ppm_comment"); }
  else {
    s += ws(ctx, true) + vh::str(std::vector<int>{});
    s = "P6" + ws(ctx, true);
    s += std::to_string(w) + ws(ctx, true) + std::to_string(h) + ws(ctx, true) + "255";
    s += ctx.rng.pick(std::vector<int>{0, 1}) ? "\n" : " ";
  }
  ctx.count(vh::fmt("ppm6_layout_%d", lay));
  return s;
}

VH_FAMILY(ppm_binary, 500, 20000) {
  int w = ctx.rng.irange(1, 14), h = ctx.rng.irange(1, 14);
  if (ctx.rng.chance(0.05)) { w = ctx.rng.irange(100, 300); }
  Bytes px = rnd_img(ctx, w, h);
  std::string s = header6(ctx, w, h);
  std::string hd = s;
  s.append((const char *) px.data(), px.size());
  if (ctx.rng.chance(0.1)) { s += "trailing"; }
  std::string path = path_of(ctx, "ppm");
  put(path, s);
  ctx.sample(hd);
  Bytes img; int W = -7, H = -7;
  bool r = dfm2::LoadImage_PPMBinary(path, img, W, H);
  if (!CK(r, "a valid binary image is refused", "header %s", hd.c_str())) { return; }
  if (!CK(W == w && H == h, "dimensions differ", "%d %d vs %d %d header %s", W, H, w, h, hd.c_str())) { return; }
  if (!CK(img.size() >= (size_t) w * h * 3, "buffer too small", "%zu", img.size())) { return; }
  size_t bad = 0;
  for (int y = 0; y < h; ++y) for (int x = 0; x < w * 3; ++x) { bad += img[(size_t) (h - 1 - y) * w * 3 + x] != px[(size_t) y * w * 3 + x]; }
  CK(bad == 0, "pixels differ from the file", "%zu of %zu, header %s", bad, px.size(), hd.c_str());
  ctx.count("ppm6_read"); ctx.count("pixels", (long) px.size());
  ctx.sig(vh::Hash().s(s).h);
}

VH_FAMILY(ppm_ascii, 500, 20000) {
  int w = ctx.rng.irange(1, 12), h = ctx.rng.irange(1, 12);
  Bytes px = rnd_img(ctx, w, h);
  std::string s = "P3";
  if (ctx.rng.chance(0.5)) { s += vh::fmt("\n%d %d\n255\n", w, h); }
  else { s += ws(ctx, false) + std::to_string(w) + ws(ctx, false) + std::to_string(h) + ws(ctx, false) + "255" + ws(ctx, false); }
  std::string hd = s;
  for (size_t i = 0; i < px.size(); ++i) {
    if (i) { s += ctx.rng.chance(0.8) ? std::string(" ") : ws(ctx, false); }
    s += std::to_string((int) px[i]);
  }
  if (ctx.rng.chance(0.7)) { s += "\n"; }
  std::string path = path_of(ctx, "ppm");
  put(path, s);
  ctx.sample(hd);
  unsigned W = 77, H = 77;
  Bytes img(ctx.rng.irange(0, 9), 3);
  int r = dfm2::LoadImage_PPMAscii(W, H, img, path);
  if (!CK(r == 0, "a valid ASCII image is refused", "ret %d header %s", r, hd.c_str())) { return; }
  if (!CK((int) W == w && (int) H == h && img.size() == px.size(), "dimensions differ", "%u %u vs %d %d", W, H, w, h)) { return; }
  size_t bad = 0;
  for (int y = 0; y < h; ++y) for (int x = 0; x < w * 3; ++x) { bad += img[(size_t) (h - 1 - y) * w * 3 + x] != px[(size_t) y * w * 3 + x]; }
  CK(bad == 0, "pixels differ from the file", "%zu of %zu", bad, px.size());
  ctx.count("ppm3_read"); ctx.count("pixels", (long) px.size());
  ctx.sig(vh::Hash().s(s).h);
}

static std::string mutate(vh::Ctx &ctx, std::string s, size_t head) {
  int n = ctx.rng.irange(1, 3);
  for (int k = 0; k < n; ++k) {
    if (s.empty()) { break; }
    size_t hs = std::min(head, s.size());
    size_t at = hs ? (size_t) ctx.rng.irange(0, (int) hs - 1) : 0;
    switch (ctx.rng.irange(0, 7)) {
      case 0: s.resize((size_t) ctx.rng.irange(0, (int) s.size() - 1)); break;
      case 1: s.resize(at); break;
      case 2: s[at] = (char) ctx.rng.irange(0, 255); break;
      case 3: s.erase(at, (size_t) ctx.rng.irange(1, 4)); break;
      case 4: s.insert(at, std::string((size_t) ctx.rng.irange(1, 12), (char) ctx.rng.pick(std::vector<int>{'9', '-', '0', '#', '\n', '(', ')', ',', ':', 'A', '\''}))); break;
      case 5: s.insert(at, ctx.rng.pick(std::vector<std::string>{"99999", "-1", "4294967295", "2147483647", "65536", "1e9", "0x10", "65536 65536 "})); break;
      case 6: s.insert(at, std::string((size_t) ctx.rng.irange(200, 700), (char) ctx.rng.pick(std::vector<int>{'a', ' ', '\n', '#', '('}))); break;
      default: s[at] = (char) ctx.rng.pick(std::vector<int>{'9', '0', '-', ' ', '\n', '#'}); break;
    }
  }
  return s;
}

VH_FAMILY(ppm_hostile, 1500, 60000) {
  bool bin = ctx.rng.chance(0.5);
  int w = ctx.rng.irange(1, 6), h = ctx.rng.irange(1, 6);
  Bytes px = rnd_img(ctx, w, h);
  std::string s;
  if (bin) { s = header6(ctx, w, h); }
  else { s = vh::fmt("P3\n%d %d\n255\n", w, h); }
  size_t head = s.size();
  if (bin) { s.append((const char *) px.data(), px.size()); }
  else { for (size_t i = 0; i < px.size(); ++i) { s += std::to_string((int) px[i]) + (i + 1 < px.size() ? " " : "\n"); }}
  if (ctx.rng.chance(0.03)) { s = std::string(); for (int i = ctx.rng.irange(0, 40); i > 0; --i) { s += (char) ctx.rng.irange(0, 255); }}
  else { s = mutate(ctx, s, head); }
  std::string path = path_of(ctx, "ppm");
  put(path, s);
  ctx.sig(vh::Hash().s(s).h);
  Bytes img;
  PPM ref = ref_header(s, bin ? '6' : '3');
  if (bin) {
    int W = -7, H = -7;
    bool r = dfm2::LoadImage_PPMBinary(path, img, W, H);
    size_t need = ref.ok ? (size_t) ref.w * (size_t) ref.h * 3 * (ref.mx > 255 ? 2 : 1) : 0;
    bool valid = ref.ok && s.size() - ref.off >= need;
    ctx.count(valid ? "hostile_still_valid" : "hostile_invalid");
    if (r) {
      if (!CK(valid, "a malformed or truncated binary image is reported as loaded", "w %d h %d, file of %zu bytes: %s", W, H, s.size(), s.substr(0, 60).c_str())) { return; }
      if (!CK(W == ref.w && H == ref.h && img.size() >= (size_t) ref.w * ref.h * 3 && ref.mx <= 255, "dimensions differ (mutated)", "%d %d vs %ld %ld", W, H, ref.w, ref.h)) { return; }
      size_t bad = 0;
      for (long y = 0; y < H; ++y) for (long x = 0; x < W * 3; ++x) { bad += img[(size_t) ((H - 1 - y) * W * 3 + x)] != (unsigned char) s[ref.off + (size_t) (y * W * 3 + x)]; }
      CK(bad == 0, "pixels differ from the file (mutated)", "%zu", bad);
    } else {
      CK(!(valid && ref.mx == 255), "a valid binary image is refused (mutated)", "%s", s.substr(0, 60).c_str());
    }
  } else {
    unsigned W = 0, H = 0;
    int r = dfm2::LoadImage_PPMAscii(W, H, img, path);
    bool valid = ref.ok && !ref.comment;
    std::vector<long> v;
    if (valid) {
      size_t i = ref.off;
      while (v.size() < (size_t) (ref.w * ref.h * 3)) {
        while (i < s.size() && isws((unsigned char) s[i])) { ++i; }
        size_t d0 = i; long x = 0;
        while (i < s.size() && s[i] >= '0' && s[i] <= '9') { x = std::min(x * 10 + (s[i] - '0'), 1000000000L); ++i; }
        if (d0 == i || (i < s.size() && !isws((unsigned char) s[i]))) { break; }
        v.push_back(x);
      }
      valid = v.size() == (size_t) (ref.w * ref.h * 3);
      for (long x: v) { if (x > ref.mx) { valid = false; }}
    }
    ctx.count(valid ? "hostile_still_valid" : "hostile_invalid");
    if (r == 0) {
      if (!CK(ref.ok || ref.comment || s.find('+') != std::string::npos || minus_zero(s), "a malformed ASCII header is reported as loaded", "%u x %u: %s", W, H, s.substr(0, 60).c_str())) { return; }
      if (!CK(img.size() == (size_t) W * H * 3, "buffer size differs from the dimensions", "%zu vs %u x %u", img.size(), W, H)) { return; }
      if (ref.ok && !ref.comment) {
        if (!CK(v.size() == (size_t) (ref.w * ref.h * 3) || s.find_first_of("+-.#eExX") != std::string::npos || v.size() + 1 == (size_t) (ref.w * ref.h * 3),
                "a truncated ASCII image is reported as loaded", "%zu values of %u x %u: %s", v.size(), W, H, s.substr(0, 60).c_str())) { return; }
      }
      if (valid && ref.mx <= 255) {
        size_t bad = 0;
        for (long y = 0; y < H; ++y) for (long x = 0; x < W * 3; ++x) { bad += img[(size_t) ((H - 1 - y) * W * 3 + x)] != (unsigned char) v[(size_t) (y * W * 3 + x)]; }
        CK(bad == 0, "pixels differ from the file (mutated)", "%zu", bad);
      }
    } else {
      CK(!(valid && ref.mx == 255), "a valid ASCII image is refused (mutated)", "ret %d: %s", r, s.substr(0, 60).c_str());
    }
  }
}

// ---------------- NumPy ----------------
struct Npy { std::string descr = "<f4"; bool fortran = false; std::vector<long> shape; std::string data; };
static std::string write_npy(vh::Ctx &ctx, const Npy &a, size_t *head) {
  std::string sh = "(";
  for (size_t i = 0; i < a.shape.size(); ++i) { sh += std::to_string(a.shape[i]) + (i + 1 < a.shape.size() || a.shape.size() == 1 ? "," : "") + (i + 1 < a.shape.size() && ctx.rng.chance(0.8) ? " " : ""); }
  sh += ")";
  std::vector<std::string> e = {"'descr': '" + a.descr + "'", std::string("'fortran_order': ") + (a.fortran ? "True" : "False"), "'shape': " + sh};
  if (ctx.rng.chance(0.25)) { ctx.rng.shuffle(e); ctx.count("npy_key_order"); }
  std::string d = "{" + e[0] + ", " + e[1] + ", " + e[2] + ", }";
  size_t align = ctx.rng.chance(0.5) ? 16 : 64;
  if (ctx.rng.chance(0.15)) { d += std::string((size_t) ctx.rng.irange(100, 3000), ' '); ctx.count("npy_long_header"); }
  while ((10 + d.size() + 1) % align) { d += ' '; }
  d += '\n';
  std::string s = "\x93NUMPY";
  s += '\x01'; s += '\0';
  s += (char) (d.size() & 255); s += (char) (d.size() >> 8);
  s += d;
  *head = s.size();
  return s + a.data;
}
template<class T> static std::string raw(const std::vector<T> &v) { return v.empty() ? std::string() : std::string((const char *) v.data(), v.size() * sizeof(T)); }

template<class T> static void npy2(vh::Ctx &ctx, const char *descr, const char *other) {
  Npy a;
  long n0 = ctx.rng.irange(1, 9), n1 = ctx.rng.irange(1, 9);
  if (ctx.rng.chance(0.06)) { n0 = 0; ctx.count("npy_empty"); }
  if (ctx.rng.chance(0.06)) { n1 = ctx.rng.irange(100, 400); }
  a.shape = {n0, n1};
  std::vector<T> v((size_t) (n0 * n1));
  for (auto &x: v) { x = (T) (ctx.rng.gauss() * std::pow(10., ctx.rng.irange(-8, 8))); }
  a.descr = descr; a.data = raw(v);
  size_t head;
  std::string path = path_of(ctx, "npy");
  int kind = ctx.rng.irange(0, 9);
  std::string why;
  if (kind == 0) { a.fortran = true; why = "fortran order"; if (n0 <= 1 || n1 <= 1) { return; }}
  if (kind == 1) { a.descr = other; why = "element type"; if (v.empty()) { return; }
    if (sizeof(T) == 4) { a.data += a.data; } }
  if (kind == 2) { a.shape.push_back(1); why = "three dimensions"; }
  if (kind == 3) { a.shape = {n0 * n1}; why = "one dimension"; }
  if (kind == 4) { if (v.empty()) { return; } a.data.resize((size_t) ctx.rng.irange(0, (int) a.data.size() - 1)); why = "truncated data"; }
  std::string s = write_npy(ctx, a, &head);
  put(path, s);
  int d0 = -5, d1 = -5; std::vector<T> out;
  bool r = dfm2::LoadNumpy_2Dim(d0, d1, out, path);
  ctx.sig(vh::Hash().s(s).h);
  ctx.sample(s.substr(10, 70));
  if (!why.empty()) {
    ctx.count("npy_refusable");
    CK(!r, (std::string("an array file that cannot be represented is loaded: ") + why).c_str(), "%ld x %ld descr %s", n0, n1, a.descr.c_str());
    return;
  }
  if (!CK(r, "a valid 2D array is refused", "%ld x %ld", n0, n1)) { return; }
  if (!CK(d0 == n0 && d1 == n1 && out.size() == v.size(), "2D shape differs", "%d %d vs %ld %ld", d0, d1, n0, n1)) { return; }
  CK(raw(out) == raw(v), "2D values differ", "%ld x %ld", n0, n1);
  ctx.count("npy2_read");
}
VH_FAMILY(npy_2d, 600, 25000) {
  if (ctx.rng.chance(0.5)) { npy2<float>(ctx, "<f4", ctx.rng.pick(std::vector<std::string>{"<f8", ">f4", "<i4", "<i8"}).c_str()); }
  else { npy2<double>(ctx, "<f8", ctx.rng.pick(std::vector<std::string>{">f8", "<i8", "<c8"}).c_str()); }
}
VH_FAMILY(npy_1d, 400, 15000) {
  Npy a;
  long n = ctx.rng.irange(1, 40);
  if (ctx.rng.chance(0.06)) { n = 0; ctx.count("npy_empty"); }
  std::vector<float> v((size_t) n);
  for (auto &x: v) { x = (float) ctx.rng.gauss(); }
  a.shape = {n}; a.data = raw(v); a.descr = "<f4"; a.fortran = ctx.rng.chance(0.1);
  std::string why;
  int kind = ctx.rng.irange(0, 7);
  if (kind == 0) { a.descr = ctx.rng.pick(std::vector<std::string>{"<f8", ">f4", "<i4"}); why = "element type"; a.data += a.data; if (n == 0) { return; }}
  if (kind == 1) { a.shape = {n, 1}; why = "two dimensions"; }
  if (kind == 2) { if (n == 0) { return; } a.data.resize((size_t) ctx.rng.irange(0, (int) a.data.size() - 1)); why = "truncated data"; }
  size_t head;
  std::string s = write_npy(ctx, a, &head);
  std::string path = path_of(ctx, "npy");
  put(path, s);
  int d = -5; std::vector<float> out;
  bool r = dfm2::LoadNumpy_1DimF(d, out, path);
  ctx.sig(vh::Hash().s(s).h);
  if (!why.empty()) {
    ctx.count("npy_refusable");
    CK(!r, (std::string("a 1D array file that cannot be represented is loaded: ") + why).c_str(), "%ld descr %s", n, a.descr.c_str());
    return;
  }
  if (!CK(r, "a valid 1D array is refused", "%ld", n)) { return; }
  CK(d == n && raw(out) == raw(v), "1D values differ", "%d vs %ld", d, n);
  ctx.count("npy1_read");
}
VH_FAMILY(npy_hostile, 1500, 60000) {
  Npy a; size_t head;
  bool two = ctx.rng.chance(0.6);
  long n = ctx.rng.irange(1, 6), m = ctx.rng.irange(1, 6);
  std::vector<float> v((size_t) (two ? n * m : n));
  for (auto &x: v) { x = (float) ctx.rng.gauss(); }
  a.shape = two ? std::vector<long>{n, m} : std::vector<long>{n};
  a.data = raw(v);
  std::string s = write_npy(ctx, a, &head);
  if (ctx.rng.chance(0.3)) {  // hostile shape text
    static const char *sh[] = {"(99999, 99999)", "(-1, -1)", "(-4, 3)", "(2147483647, 2)", "(65536, 65536)", "(4294967297, 1)", "(a, b)", "(,)", "()", "((((", "(1, 2, 3)", "4", "(1073741824, 4)"};
    std::string d = std::string("{'descr': '<f4', 'fortran_order': False, 'shape': ") + sh[ctx.rng.irange(0, 12)] + ", }\n";
    std::string t = "\x93NUMPY"; t += '\x01'; t += '\0'; t += (char) (d.size() & 255); t += (char) (d.size() >> 8);
    s = t + d + a.data; head = s.size() - a.data.size();
    ctx.count("npy_hostile_shape");
  } else { s = mutate(ctx, s, head); }
  std::string path = path_of(ctx, "npy");
  put(path, s);
  ctx.sig(vh::Hash().s(s).h);
  int d0 = -5, d1 = 1; std::vector<float> out;
  bool r = two ? dfm2::LoadNumpy_2Dim(d0, d1, out, path) : dfm2::LoadNumpy_1DimF(d0, out, path);
  ctx.count(r ? "npy_hostile_loaded" : "npy_hostile_refused");
  if (r) {
    if (!CK(d0 >= 0 && d1 >= 0 && out.size() == (size_t) d0 * (size_t) d1, "loaded array has a size differing from its shape", "%d x %d, %zu", d0, d1, out.size())) { return; }
    if (!CK(s.size() >= 10 && s.compare(0, 6, "\x93NUMPY") == 0, "a file that is no array is loaded", "%s", s.substr(0, 10).c_str())) { return; }
    size_t hl = (unsigned char) s[8] + 256u * (unsigned char) s[9];
    if (s[6] == 1) {
      if (!CK(s.size() >= 10 + hl + out.size() * 4, "a truncated array is reported as loaded", "%d x %d in %zu bytes", d0, d1, s.size())) { return; }
      CK(s.compare(10 + hl, out.size() * 4, raw(out)) == 0, "values differ from the file (mutated)", "%d x %d", d0, d1);
    }
  }
}
VH_FAMILY(py_dictionary, 600, 25000) {
  std::map<std::string, std::string> ref;
  std::string s = "{";
  int n = ctx.rng.irange(0, 6);
  for (int i = 0; i < n; ++i) {
    std::string k = "'";
    int lk = ctx.rng.chance(0.1) ? ctx.rng.irange(250, 600) : ctx.rng.irange(1, 9);
    for (int j = 0; j < lk; ++j) { k += (char) ctx.rng.irange('a', 'z'); }
    k += "'";
    std::string val;
    int t = ctx.rng.irange(0, 2);
    if (t == 0) { val = ctx.rng.chance(0.5) ? "True" : "False"; }
    else if (t == 1) { int lv = ctx.rng.chance(0.1) ? ctx.rng.irange(250, 600) : ctx.rng.irange(0, 9); val = "'"; for (int j = 0; j < lv; ++j) { val += (char) ctx.rng.irange('<', 'z'); } val += "'"; }
    else { val = "("; int m = ctx.rng.irange(1, 5); for (int j = 0; j < m; ++j) { val += std::to_string(ctx.rng.irange(0, 999)); val += j + 1 < m ? "," : ""; } val += ")"; }
    if (ref.count(k)) { continue; }
    ref[k] = val;
    s += k + ":" + (ctx.rng.chance(0.7) ? " " : "") + val + "," + (ctx.rng.chance(0.7) ? " " : "");
  }
  s += "}";
  if (ctx.rng.chance(0.3)) { s += "   \n"; }
  if (ctx.rng.chance(0.3)) {
    s = mutate(ctx, s, s.size());
    auto m = dfm2::ReadDictionary_Python(s);  // memory monitors only
    ctx.count("dict_hostile"); ctx.sig(vh::Hash().s(s).h);
    CK(m.size() <= s.size(), "more entries than characters", "%zu", m.size());
    return;
  }
  auto m = dfm2::ReadDictionary_Python(s);
  CK(m == ref, "dictionary entries differ", "%zu vs %zu: %s", m.size(), ref.size(), s.c_str());
  ctx.count("dict_read"); ctx.sig(vh::Hash().s(s).h);
}

// ---------------- sampling ----------------
VH_FAMILY(bilinear, 800, 40000) {
  int w = ctx.rng.irange(1, 7), h = ctx.rng.irange(1, 7);
  Bytes px = rnd_img(ctx, w, h);
  ctx.sig(vh::Hash().u((uint64_t) w).u((uint64_t) h).s(std::string((char *) px.data(), px.size())).h);
  auto at = [&](int x, int y, int c) { x = std::min(x, w - 1); y = std::min(y, h - 1); return px[(size_t) ((y * w + x) * 3 + c)] / 255.; };
  for (int it = 0; it < 12; ++it) {
    double x = ctx.rng.u01() * w, y = ctx.rng.u01() * h;
    if (ctx.rng.chance(0.3)) { x = std::floor(x); }
    if (ctx.rng.chance(0.3)) { y = std::floor(y); }
    if (ctx.rng.chance(0.1)) { x = std::nextafter((double) ctx.rng.irange(1, w), 0.); }
    double col[3] = {-9, -9, -9};
    dfm2::ImageInterpolation_Bilinear(col, w, h, px.data(), x, y);
    int ix = (int) std::floor(x), iy = (int) std::floor(y);
    double fx = x - ix, fy = y - iy;
    for (int c = 0; c < 3; ++c) {
      double a = at(ix, iy, c), b = at(ix + 1, iy, c), d = at(ix, iy + 1, c), e = at(ix + 1, iy + 1, c);
      double lo = std::min(std::min(a, b), std::min(d, e)), hi = std::max(std::max(a, b), std::max(d, e));
      CK(col[c] >= lo - 1e-12 && col[c] <= hi + 1e-12, "sampled value outside its neighbours", "(%g %g) in %dx%d: %g not in [%g %g]", x, y, w, h, col[c], lo, hi);
      if (fx == 0 && fy == 0) { CKN(col[c], a, 1e-13, "value at a pixel centre", "(%g %g) in %dx%d", x, y, w, h); ctx.count("pixel_centres"); }
      double u = a + (b - a) * fx, l = d + (e - d) * fx;
      CKN(col[c], u + (l - u) * fy, 1e-12, "bilinear weights", "(%g %g) in %dx%d ch %d", x, y, w, h, c);
      ctx.count("samples");
    }
  }
}

// ---------------- gray gradient ----------------
VH_FAMILY(gray_gradient, 400, 15000) {
  int nv = ctx.rng.irange(1, 3), nx = ctx.rng.irange(1, 8), ny = ctx.rng.irange(1, 8);
  if (nx == 1 || ny == 1) { ctx.count("one_pixel_wide"); }
  std::vector<float> rgb((size_t) (nv * ny * nx * 3));
  int mode = ctx.rng.irange(0, 2);
  float gx = (float) ctx.rng.uni(-1, 1), gy = (float) ctx.rng.uni(-1, 1), g0 = (float) ctx.rng.uni(-1, 1);
  for (int v = 0; v < nv; ++v) for (int y = 0; y < ny; ++y) for (int x = 0; x < nx; ++x) for (int c = 0; c < 3; ++c) {
    rgb[(size_t) (((v * ny + y) * nx + x) * 3 + c)] = mode == 0 ? g0 * (float) (c + 1) : mode == 1 ? (gx * (float) x + gy * (float) y + g0) * (float) (c + 1) : (float) ctx.rng.uni(-2, 2);
  }
  float co[3] = {(float) ctx.rng.uni(0, 1), (float) ctx.rng.uni(0, 1), (float) ctx.rng.uni(0, 1)};
  ctx.sig(vh::Hash().u((uint64_t) nx).u((uint64_t) ny).u((uint64_t) nv).d(rgb[0]).d(rgb.back()).d(co[0]).h);
  std::vector<float> gray((size_t) (nv * ny * nx), 9e9f), gc((size_t) (nv * ny * nx * 2), 9e9f), gs((size_t) (nv * ny * nx * 2), 9e9f);
  dfm2::Grayscale(gray.data(), nv, ny, nx, rgb.data(), co);
  dfm2::GrayscaleGradientCenter(gc.data(), nv, ny, nx, rgb.data(), co);
  dfm2::GrayscaleGradientSobel(gs.data(), nv, ny, nx, rgb.data(), co);
  auto I = [&](int v, int y, int x) { const float *q = rgb.data() + ((v * ny + y) * nx + x) * 3; return (double) q[0] * co[0] + (double) q[1] * co[1] + (double) q[2] * co[2]; };
  auto cl = [](int i, int n) { return std::max(0, std::min(n - 1, i)); };
  auto rf = [](int i, int n) { if (n == 1) { return 0; } if (i < 0) { return -i; } if (i >= n) { return 2 * (n - 1) - i; } return i; };
  for (int v = 0; v < nv; ++v) for (int y = 0; y < ny; ++y) for (int x = 0; x < nx; ++x) {
    size_t k = (size_t) ((v * ny + y) * nx + x);
    CKN(gray[k], I(v, y, x), 1e-4, "gray value", "%d %d", x, y);
    CKN(gc[k * 2 + 0], 0.5 * (I(v, y, cl(x + 1, nx)) - I(v, y, cl(x - 1, nx))), 1e-4, "central difference along x", "(%d %d) of %dx%d", x, y, nx, ny);
    CKN(gc[k * 2 + 1], 0.5 * (I(v, cl(y + 1, ny), x) - I(v, cl(y - 1, ny), x)), 1e-4, "central difference along y", "(%d %d) of %dx%d", x, y, nx, ny);
    double dx = 0, dy = 0;
    for (int a = -1; a <= 1; ++a) for (int b = -1; b <= 1; ++b) {
      double q = I(v, rf(y + b, ny), rf(x + a, nx));
      dx += q * a * (b == 0 ? 2 : 1) / 8; dy += q * b * (a == 0 ? 2 : 1) / 8;
    }
    CKN(gs[k * 2 + 0], dx, 1e-4, "Sobel gradient along x", "(%d %d) of %dx%d", x, y, nx, ny);
    CKN(gs[k * 2 + 1], dy, 1e-4, "Sobel gradient along y", "(%d %d) of %dx%d", x, y, nx, ny);
    ctx.count("gradients");
  }
}
