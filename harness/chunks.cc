// Splitting work into chunks visits every element exactly once, in order, whatever the size, chunk size and thread count.
#include "sym.h"
#include <vector>
#include "tachyon/base/parallelize.h"
#include "tachyon/base/containers/adapters.h"
#include "tachyon/base/containers/container_util.h"
using namespace tachyon::base;
static const unsigned N = 9;
static std::vector<int> mk(unsigned n) { std::vector<int> v(n); for (unsigned i = 0; i < n; ++i) v[i] = sym_value<int>("v"); return v; }
SYM_HARNESS(by_chunk_container) {
  unsigned n = sym_choose(N, "n"), c = sym_choose(N + 2, "c");
  std::vector<int> v = mk(n), w = v; std::vector<int> seen(n, 0); unsigned calls = 0; size_t next = 0;
  unsigned kind = sym_choose(3, "kind");
  auto body = [&](absl::Span<int> chunk, size_t i, size_t cs) {
    ++calls; sym_assert(cs == c, "chunk size passed"); sym_assert(chunk.size() > 0 && chunk.size() <= c, "chunk length");
    sym_assert(chunk.data() == v.data() + i * c, "chunk offset");
    for (size_t k = 0; k < chunk.size(); ++k) { seen[i * c + k]++; chunk[k] ^= 1; }
  };
  if (kind == 0) ParallelizeByChunkSize(v, c, body);
  else if (kind == 1) DynamicParallelizeByChunkSize(v, c, body);
  else { auto r = ParallelizeMapByChunkSize(v, c, [&](absl::Span<int> ch, size_t i, size_t cs) { body(ch, i, cs); return i; });
         sym_assert(r.size() == (c ? (n + c - 1) / c : 0), "one result per chunk"); for (size_t i = 0; i < r.size(); ++i) sym_assert(r[i] == i, "results in chunk order"); }
  for (unsigned i = 0; i < n; ++i) sym_assert(v[i] == (c ? (w[i] ^ 1) : w[i]), "each element processed exactly once");
  sym_reached("end");
}
SYM_HARNESS(by_chunk_size) {
  unsigned n = sym_choose(N, "n"), c = sym_choose(N + 2, "c");
  size_t total = 0, calls = 0;
  auto body = [&](size_t len, size_t i, size_t cs) { sym_assert(i == calls && cs == c && len > 0 && len <= c, "size chunk"); ++calls; total += len; };
  unsigned kind = sym_choose(3, "kind");
  if (kind == 0) ParallelizeByChunkSize(size_t(n), c, body);
  else if (kind == 1) DynamicParallelizeByChunkSize(size_t(n), c, body);
  else { auto r = ParallelizeMapByChunkSize(size_t(n), c, [&](size_t len, size_t i, size_t cs) { body(len, i, cs); return len; }); size_t t = 0; for (size_t x : r) t += x; sym_assert(t == (c ? n : 0), "lengths"); }
  sym_assert(total == (c ? n : 0), "lengths sum to the size");
  sym_reached("end");
}
SYM_HARNESS(parallelize) {
  unsigned n = sym_choose(N, "n");
  std::optional<size_t> th; if (sym_choose(2, "hasth")) th = sym_choose(4, "th");
  std::vector<int> v = mk(n), w = v;
  Parallelize(v, [](absl::Span<int> c) { for (int& x : c) x = (int)((unsigned)x + 3u); }, th);
  for (unsigned i = 0; i < n; ++i) sym_assert(v[i] == (int)((unsigned)w[i] + 3u), "Parallelize touches each element once");
  auto parts = ParallelizeMap(v, [](absl::Span<int> c) { unsigned s = 0; for (int& x : c) s += (unsigned)x; return s; }, th);
  unsigned s = 0, e = 0; for (unsigned x : parts) s += x; for (int x : v) e += (unsigned)x;
  sym_assert(s == e, "ParallelizeMap partial sums");
  int f = sym_value<int>("fill");
  ParallelizeFill(v, f, th); for (int x : v) sym_assert(x == f, "ParallelizeFill");
  size_t t = 0; Parallelize(size_t(n), [&](size_t len) { t += len; }, th); sym_assert(t == n, "Parallelize(size)");
  sym_reached("end");
}
SYM_HARNESS(resize) {
  unsigned n = sym_choose(6, "n"), m = sym_choose(9, "m"), cap = sym_choose(10, "cap");
  std::vector<int> v; v.reserve(cap); for (unsigned i = 0; i < n; ++i) v.push_back(sym_value<int>("v"));
  std::vector<int> e = v;
  if (sym_choose(2, "withvalue")) { int f = sym_value<int>("f"); e.resize(m, f); ParallelizeResize(v, m, f); }
  else { e.resize(m); ParallelizeResize(v, m); }
  sym_assert(v.size() == e.size(), "ParallelizeResize size");
  for (size_t i = 0; i < v.size() && i < e.size(); ++i) sym_assert(v[i] == e[i], "ParallelizeResize keeps the prefix and fills the rest");
  sym_reached("end");
}
SYM_HARNESS(chunked) {
  unsigned n = sym_choose(8, "n"), c = 1 + sym_choose(9, "c");
  std::vector<int> v = mk(n); std::vector<int> out; size_t chunks = 0;
  auto ad = Chunked(v, c);
  for (auto it = ad.begin(); it != ad.end(); ++it) { ++chunks; sym_assert((*it).size() > 0 && it->size() <= c, "chunk length"); for (int x : *it) out.push_back(x); if (chunks > 20) break; }
  sym_assert(out.size() == n && chunks == (n + c - 1) / c, "Chunked covers the container");
  for (unsigned i = 0; i < n && i < out.size(); ++i) sym_assert(out[i] == v[i], "Chunked order");
  sym_assert((size_t)(ad.end() - ad.begin()) == chunks, "distance is the number of chunks");
  auto cp = ad; size_t k = 0; for (auto it = cp.begin(); it != cp.end() && k < 30; ++it) ++k;
  sym_assert(k == chunks, "a copied Chunked view is the same view");
  size_t j = n; for (int x : Reversed(v)) sym_assert(x == v[--j], "Reversed");
  sym_assert(j == 0, "Reversed covers");
  std::vector<int> u = mk(n); j = 0;
  for (auto t : Zipped(v, u)) { sym_assert(std::get<0>(t) == v[j] && std::get<1>(t) == u[j], "Zipped pairs"); ++j; }
  sym_assert(j == n, "Zipped covers");
  sym_reached("end");
}
SYM_HARNESS(vectors) {
  int start = (int)sym_choose(5, "s") - 2, len = 1 + sym_choose(7, "l"), st = 1 + sym_choose(4, "st");
  auto r = CreateRangedVector<int>(start, start + len, st);
  size_t k = 0; for (int x = start; x < start + len; x += st, ++k) sym_assert(k < r.size() && r[k] == x, "CreateRangedVector value");
  sym_assert(r.size() == k, "CreateRangedVector size");
  unsigned n = sym_choose(5, "n"); std::vector<int> v = mk(n);
  auto g = CreateVector(n, [&](size_t i) { return v[i]; }), g2 = CreateVectorParallel(n, [&](size_t i) { return v[i]; });
  auto mp = Map(v, [](int x) { return (unsigned)x * 2u; });
  auto mi = Map(v, [](size_t i, int& x) { return (unsigned)x + (unsigned)i; });
  auto fm = FlatMap(v, [](int x) { return std::vector<int>{x, (int)~x}; });
  sym_assert(g.size() == n && g2.size() == n && mp.size() == n && mi.size() == n && fm.size() == 2 * n, "sizes");
  for (unsigned i = 0; i < n; ++i) sym_assert(g[i] == v[i] && g2[i] == v[i] && mp[i] == (unsigned)v[i] * 2u && mi[i] == (unsigned)v[i] + i && fm[2 * i] == v[i] && fm[2 * i + 1] == ~v[i], "maps elementwise");
  sym_reached("end");
}
SYM_HARNESS(find) {
  unsigned n = sym_choose(5, "n"); std::vector<int> v = mk(n); int x = sym_value<int>("x");
  auto f = FindIndex(v, x); auto fs = FindIndices(v, x); auto fi = FindIndexIf(v, [x](int y) { return y == x; }); auto fsi = FindIndicesIf(v, [x](int y) { return y == x; });
  std::vector<size_t> e; for (unsigned i = 0; i < n; ++i) if (v[i] == x) e.push_back(i);
  sym_assert(f.has_value() == !e.empty() && (!f || *f == e[0]), "FindIndex"); sym_assert(fi == f, "FindIndexIf"); sym_assert(fs == e && fsi == e, "FindIndices");
  for (unsigned i = 0; i + 1 < n; ++i) sym_assume(v[i] < v[i + 1]);
  auto it = BinarySearchByKey(v.begin(), v.end(), x, [](int a, int b) { return a < b; });
  sym_assert((it == v.end()) == e.empty() && (it == v.end() || *it == x), "BinarySearchByKey");
  std::vector<int> a = mk(2), b = v, z = a; Extend(a, (const std::vector<int>&)b);
  sym_assert(a.size() == 2 + n && a[0] == z[0] && a[1] == z[1], "Extend prefix"); for (unsigned i = 0; i < n; ++i) sym_assert(a[2 + i] == v[i], "Extend suffix");
  sym_reached("end");
}
