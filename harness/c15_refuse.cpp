// C15 without assertions: an element entry outside of the pattern is refused and stored nowhere.
#define NDEBUG
#include "../lib/vh.h"
#include "delfem2/ls_block_sparse.h"
#include <set>
namespace d = delfem2;
VH_FAMILY(refuse, 3000, 60000) {
  auto &r = ctx.rng; unsigned n = r.irange(3, 9), L = r.irange(1, 3); std::vector<unsigned> ind = {0}, arr; std::vector<std::set<unsigned>> s(n);
  for (unsigned i = 0; i < n; ++i) { for (unsigned j = 0; j < n; ++j) if (i != j && r.chance(0.4)) { s[i].insert(j); arr.push_back(j); } ind.push_back(arr.size()); }
  if (arr.empty()) return;
  unsigned i = r.irange(0, n - 1), j = r.irange(0, n - 1); if (i == j || s[i].count(j)) return;
  ctx.sig(vh::Hash().u(L).vu(ind).vu(arr).u(i).u(j).h);
  d::CMatrixSparse<double> A; A.Initialize(n, L, true); A.SetPattern(ind.data(), ind.size(), arr.data(), arr.size()); A.setZero();
  std::vector<unsigned> buf; if (r.chance(0.5)) buf.assign(r.irange(0, 2 * n), UINT_MAX);
  bool ok; std::vector<double> e(L * L); for (auto &v : e) v = r.uni(1, 2); int how = 0;
  if (L == 1 && r.chance(0.5)) { double m[1][1] = {{e[0]}}; ok = d::Merge<1, 1, double>(A, &i, &j, m, buf); how = 1; }
  else if (L == 2 && r.chance(0.5)) { double m[1][1][2][2] = {{{{e[0], e[1]}, {e[2], e[3]}}}}; ok = d::Merge<1, 1, 2, 2, double>(A, &i, &j, m, buf); how = 2; }
  else ok = d::Mearge(A, 1, &i, 1, &j, L * L, e.data(), buf);
  CK(!ok, "entry outside of the pattern is refused", "row %u column %u variant %d", i, j, how); for (double v : A.val_crs_) if (!CK(v == 0, "refused entry is stored nowhere", "row %u column %u variant %d", i, j, how)) break; for (double v : A.val_dia_) if (!CK(v == 0, "refused entry is stored nowhere", "diagonal")) break; ctx.count("refused"); }
