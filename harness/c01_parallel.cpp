// C01 : data-parallel loops.  Built twice: ASan+UBSan and TSan.
#include "vh.h"
#include <atomic>
#include <chrono>
#include <mutex>
#include <thread>
#include <stdexcept>
#include "delfem2/srch_trimesh3_class.h"
#include "delfem2/srch_bv3_sphere.h"
#include "delfem2/msh_primitive.h"
#include "delfem2/thread.h"

namespace dfm2 = delfem2;

struct Injected : std::runtime_error {
  long id;
  explicit Injected(long i) : std::runtime_error("injected"), id(i) {}
};

// event log: (thread, index) in the global order in which calls began
struct Log {
  std::mutex m;
  std::vector<std::pair<uint64_t, long>> ev;
  std::atomic<int> active{0};
  std::atomic<bool> returned{false};
  std::atomic<long> late{0};
  std::atomic<int> maxactive{0};
};

static void delay(unsigned k) {
  switch (k % 5) {
    case 0: break;
    case 1: std::this_thread::yield(); break;
    case 2: { volatile int x = 0; for (int i = 0; i < 300; ++i) x = x + i; break; }
    case 3: std::this_thread::sleep_for(std::chrono::microseconds(20)); break;
    case 4: { volatile int x = 0; for (int i = 0; i < 3000; ++i) x = x + i; break; }
  }
}

static void begin_ev(Log &L, long idx) {
  int a = ++L.active;
  int m = L.maxactive.load();
  while (a > m && !L.maxactive.compare_exchange_weak(m, a)) {}
  if (L.returned) L.late++;
  std::lock_guard<std::mutex> g(L.m);
  L.ev.emplace_back(std::hash<std::thread::id>()(std::this_thread::get_id()), idx);
}

static uint64_t interleaving(const Log &L) {
  // thread ids renamed by order of first appearance
  std::map<uint64_t, int> name;
  vh::Hash h;
  for (auto &e: L.ev) {
    auto it = name.emplace(e.first, (int) name.size()).first;
    h.u(it->second).u(e.second);
  }
  return h.h;
}

template<typename T>
static void run1(vh::Ctx &ctx, T num, unsigned nth, unsigned mode, const std::set<long> &thr) {
  Log L;
  const long n = (long) num;
  std::vector<std::atomic<int>> cnt(n > 0 ? n : 1);
  for (auto &c: cnt) c = 0;
  std::vector<long> plain(n > 0 ? n : 1, -1);   // written without synchronisation: disjoint slots
  std::atomic<long> outside{0};
  bool caught = false;
  long caught_id = -1;
  std::atomic<long> nthrown{0};
  const uint64_t dseed = ctx.rng.next();
  auto f = [&](T i0) {
    const long i = (long) i0;
    begin_ev(L, i);
    if (i < 0 || i >= n) { outside++; L.active--; return; }
    cnt[i]++;
    if (mode) delay((unsigned) (vh::mix64(dseed ^ i) >> 7) % (mode == 2 ? 5 : 3));
    plain[i] = i * 3 + 1;
    if (thr.count(i)) {
      nthrown++;
      L.active--;
      throw Injected(i);
    }
    L.active--;
  };
  try { dfm2::parallel_for(num, f, nth); }
  catch (const Injected &e) { caught = true; caught_id = e.id; }
  const int act = L.active.load();
  L.returned = true;
  const std::string d = vh::fmt("num=%ld sizeof(T)=%d signed=%d nthread=%u mode=%u throws=%zu", n, (int) sizeof(T), (int) std::is_signed<T>::value, nth, mode, thr.size());
  ctx.check(act == 0, "still_running_at_return", d);
  ctx.check(outside == 0, "index_out_of_range", d + vh::fmt(" outside=%ld", outside.load()));
  long miss = 0, dup = 0, badplain = 0;
  for (long i = 0; i < n; ++i) {
    if (cnt[i] == 0) miss++;
    if (cnt[i] > 1) dup++;
    if (cnt[i] == 1 && plain[i] != i * 3 + 1) badplain++;
  }
  ctx.check(dup == 0, "index_twice", d + vh::fmt(" dup=%ld", dup));
  if (thr.empty()) {
    ctx.check(!caught, "spurious_exception", d);
    ctx.check(miss == 0, "index_lost", d + vh::fmt(" missing=%ld", miss));
    ctx.check(badplain == 0, "result_lost", d);
  } else {
    if (nthrown > 0) ctx.check(caught, "exception_swallowed", d);
    ctx.check(nthrown > 0, "throwing_index_never_ran", d); // at least one of the throwing indices is reached: workers stop only after an error
    if (caught) ctx.check(thr.count(caught_id) > 0, "wrong_exception", d);
  }
  ctx.count("loop_calls_observed", L.ev.size());
  if (L.maxactive > 1) ctx.count("loops_with_overlapping_calls");
  if (thr.size()) ctx.count("loops_with_injected_exception");
  if (n > 1) ctx.sig(interleaving(L));
  if (L.late) ctx.fail("call_after_return", d);
}

static unsigned pick_threads(vh::Rng &r) {
  static const unsigned t[] = {0, 1, 2, 3, 4, 5, 8, 13, 16};
  return t[r.next() % 9];
}

VH_FAMILY(loop1d, 1200, 12000) {
  auto &r = ctx.rng;
  long n = r.chance(0.1) ? r.irange(0, 2) : r.chance(0.2) ? r.irange(100, 1500) : r.irange(2, 80);
  unsigned nth = pick_threads(r), mode = r.irange(0, 2);
  std::set<long> thr;
  if (r.chance(0.3) && n > 0) {
    int k = r.irange(1, 3);
    for (int i = 0; i < k; ++i) thr.insert(r.chance(0.3) ? n - 1 : r.irange(0, (int) n - 1));
  }
  if (ctx.icase < 2) ctx.sample(vh::fmt("n=%ld threads=%u delaymode=%u throwing=%s", n, nth, mode, vh::str(thr).c_str()));
  switch (r.irange(0, 4)) {
    case 0: run1<unsigned int>(ctx, (unsigned int) n, nth, mode, thr); break;
    case 1: run1<int>(ctx, (int) n, nth, mode, thr); break;
    case 2: run1<size_t>(ctx, (size_t) n, nth, mode, thr); break;
    case 3: run1<long>(ctx, (long) n, nth, mode, thr); break;
    case 4: run1<uint16_t>(ctx, (uint16_t) n, nth, mode, thr); break;
  }
}

// counts close to the largest value of a narrow index type
VH_FAMILY_CPU(loop1d_narrow, 60, 600, 10) {
  auto &r = ctx.rng;
  unsigned nth = r.irange(1, 12);
  if (r.chance(0.5)) run1<uint8_t>(ctx, (uint8_t) r.irange(240, 255), nth, r.irange(0, 1), {});
  else run1<int8_t>(ctx, (int8_t) r.irange(112, 127), nth, r.irange(0, 1), {});
}

VH_FAMILY(loop2d, 800, 8000) {
  auto &r = ctx.rng;
  int n1 = r.chance(0.1) ? 0 : r.irange(1, 24), n2 = r.chance(0.1) ? 0 : r.irange(1, 24);
  unsigned nth = pick_threads(r), mode = r.irange(0, 1);
  std::set<long> thr;
  const bool dothrow = r.chance(0.25) && n1 * n2 > 0;
  if (dothrow) thr.insert((long) r.irange(0, n2 - 1) * n1 + r.irange(0, n1 - 1));
  Log L;
  std::vector<std::atomic<int>> cnt(n1 * n2 + 1);
  for (auto &c: cnt) c = 0;
  std::vector<long> plain(n1 * n2 + 1, -1);
  std::atomic<long> outside{0};
  bool caught = false;
  const uint64_t dseed = r.next();
  auto f = [&](int i, int j) {
    begin_ev(L, (long) j * 1000 + i);
    if (i < 0 || i >= n1 || j < 0 || j >= n2) { outside++; L.active--; return; }
    cnt[j * n1 + i]++;
    if (mode) delay((unsigned) (vh::mix64(dseed ^ (j * n1 + i)) >> 7) % 3);
    plain[j * n1 + i] = i * 7 + j;
    L.active--;
    if (thr.count(j * n1 + i)) throw Injected(j * n1 + i);
  };
  try {
    if (r.chance(0.5)) dfm2::parallel_for(n1, n2, f, nth);
    else dfm2::parallel_for((unsigned) n1, (unsigned) n2, f, nth);
  } catch (const Injected &e) { caught = true; }
  const int act = L.active.load();
  L.returned = true;
  std::string d = vh::fmt("n1=%d n2=%d nthread=%u throws=%zu", n1, n2, nth, thr.size());
  ctx.check(act == 0, "still_running_at_return", d);
  ctx.check(outside == 0, "index_out_of_range", d);
  long miss = 0, dup = 0;
  for (int k = 0; k < n1 * n2; ++k) {
    if (cnt[k] == 0) miss++;
    if (cnt[k] > 1) dup++;
    if (cnt[k] == 1) ctx.check(plain[k] == (k % n1) * 7 + k / n1, "result_lost", d);
  }
  ctx.check(dup == 0, "index_twice", d);
  if (!dothrow) {
    ctx.check(miss == 0, "index_lost", d + vh::fmt(" missing=%ld", miss));
    ctx.check(!caught, "spurious_exception", d);
  } else ctx.check(caught, "exception_swallowed", d);
  ctx.count("loop_calls_observed", L.ev.size());
  if (L.maxactive > 1) ctx.count("loops_with_overlapping_calls");
  if (n1 * n2 > 1) ctx.sig(interleaving(L));
}

// a library operation that offers a parallel switch gives the result of its serial run
template<class BV>
static void image(vh::Ctx &ctx) {
  auto &r = ctx.rng;
  std::vector<double> xyz;
  std::vector<unsigned int> tri;
  dfm2::MeshTri3D_Sphere(xyz, tri, r.uni(0.4, 0.9), r.irange(4, 10), r.irange(4, 9));
  for (size_t i = 0; i < xyz.size(); ++i) xyz[i] += r.uni(-0.03, 0.03);
  std::vector<dfm2::CNodeBVH2> node;
  std::vector<BV> vol;
  dfm2::ConstructBVHTriangleMeshMortonCode(node, vol, xyz, tri);
  unsigned w = r.irange(1, 40), h = r.irange(1, 40);
  double m[16] = {r.uni(0.8, 1.2), r.uni(-.2, .2), r.uni(-.2, .2), 0,
                  r.uni(-.2, .2), r.uni(0.8, 1.2), r.uni(-.2, .2), 0,
                  r.uni(-.2, .2), r.uni(-.2, .2), r.uni(0.8, 1.2), 0,
                  r.uni(-.2, .2), r.uni(-.2, .2), r.uni(-.1, .1), 1};
  std::vector<dfm2::PointOnSurfaceMesh<double>> a, b;
  dfm2::Intersection_ImageRay_TriMesh3(a, h, w, m, node, vol, xyz, tri, false);
  dfm2::Intersection_ImageRay_TriMesh3(b, h, w, m, node, vol, xyz, tri, true);
  std::string d = vh::fmt("width=%u height=%u", w, h);
  if (!ctx.check(a.size() == (size_t) w * h && b.size() == a.size(), "image_size", d)) return;
  long ndiff = 0, nhit = 0;
  for (size_t k = 0; k < a.size(); ++k) {
    if (a[k].itri != UINT_MAX) nhit++;
    if (a[k].itri != b[k].itri) ndiff++;
    else if (a[k].itri != UINT_MAX && (a[k].r0 != b[k].r0 || a[k].r1 != b[k].r1)) ndiff++;
  }
  ctx.check(ndiff == 0, "parallel_differs_from_serial", d + vh::fmt(" differing pixels=%ld", ndiff));
  ctx.count("image_pixels", a.size());
  ctx.count("image_hits", nhit);
  if (nhit) ctx.sig(vh::Hash().vd(xyz).u(w).u(h));
}
VH_FAMILY(image_rays, 120, 1500) {
  image<dfm2::CBV3_Sphere<double>>(ctx);
}
