// Range<T>: emptiness, membership, size, intersection and iteration agree.
#include "sym.h"
#include "tachyon/base/range.h"
using namespace tachyon::base;
template <class T, bool S, bool E> static void t_consistent() {
  using R = Range<T, S, E>;
  R r(sym_value<T>("from"), sym_value<T>("to"));
  T v = sym_value<T>("v");
  __int128 lo = (__int128)r.from + (S ? 0 : 1), hi = (__int128)r.to - (E ? 0 : 1);  // members: lo..hi
  sym_assert(r.Contains(v) == (lo <= (__int128)v && (__int128)v <= hi), "Contains");
  sym_assert(r.IsEmpty() == (S && E ? r.from > r.to : r.from >= r.to), "IsEmpty: the bounds enclose nothing"); if (r.IsEmpty()) sym_assert(lo > hi, "an empty range has no member");
  __int128 n = lo > hi ? 0 : hi - lo + 1;
  if (n <= (__int128)SIZE_MAX) sym_assert((__int128)r.GetSize() == n, "GetSize counts the members");
  R o(sym_value<T>("from2"), sym_value<T>("to2"));
  R i = r.Intersect(o);
  sym_assert(i.Contains(v) == (r.Contains(v) && o.Contains(v)), "Intersect membership");
  sym_assert((r == o) == (r.from == o.from && r.to == o.to), "==");
  sym_assert((r != o) == !(r == o), "!=");
  R f = R::From(r.from), u = R::Until(r.to);
  sym_assert(f.from == r.from && f.to == std::numeric_limits<T>::max() && u.to == r.to && u.from == std::numeric_limits<T>::lowest(), "From/Until");
  sym_reached("end");
}
#define C4(T, n) SYM_HARNESS(cc_##n) { t_consistent<T, true, true>(); } SYM_HARNESS(co_##n) { t_consistent<T, true, false>(); } \
  SYM_HARNESS(oc_##n) { t_consistent<T, false, true>(); } SYM_HARNESS(oo_##n) { t_consistent<T, false, false>(); }
C4(int32_t, i32) C4(uint32_t, u32) C4(int64_t, i64) C4(uint64_t, u64) C4(int8_t, i8) C4(uint16_t, u16)
template <class T, bool S, bool E> static void t_iter() {
  using R = Range<T, S, E>;
  T from = sym_value<T>("from");
  unsigned len = sym_choose(5, "len");
  sym_assume(from < std::numeric_limits<T>::max() - 8);
  R r(from, (T)(from + (S ? 0 : 1) + len - (E ? 1 : 0)));
  // a proper range needs from <= to; the open/closed bounds make `len` members
  if (!(r.from < r.to) && len == 0) { sym_reached("none"); if (r.from > r.to) return; }
  __int128 e = (__int128)from + (S ? 0 : 1);
  unsigned n = 0;
  for (auto it = r.begin(); it != r.end() && n < 10; ++it, ++n) {
    sym_assert((__int128)*it == e + n, "iteration order");
    sym_assert(r.Contains(*it), "iterates members only");
  }
  sym_assert(n == len, "iterates every member once");
  sym_assert((size_t)(r.end() - r.begin()) == len, "end - begin");
  sym_assert((r.begin() - r.end()) == -(ptrdiff_t)len, "begin - end");
  auto it = r.begin();
  it += len; sym_assert(it == r.end() && !(it < r.end()) && it <= r.end() && it >= r.end() && !(it > r.end()), "+= and comparisons");
  it -= len; sym_assert(it == r.begin(), "-=");
  auto a = it; ++it; sym_assert(it == a + 1 && *it == *a + 1 && (it - 1) == a, "increment");
  sym_assert(a < it && it > a && a <= it && it >= a && a != it && it - a == 1, "ordering");
  { auto p = it--; sym_assert(p == a + 1 && it == a, "post decrement"); auto q = it++; sym_assert(q == a && it == p, "post increment"); }
  --it; sym_assert(it == a && !(a < it) && !(it > a), "decrement");
  sym_reached("end");
}
SYM_HARNESS(iter_co_i32) { t_iter<int32_t, true, false>(); }
SYM_HARNESS(iter_cc_i64) { t_iter<int64_t, true, true>(); }
SYM_HARNESS(iter_co_u32) { t_iter<uint32_t, true, false>(); }
SYM_HARNESS(iter_oc_u64) { t_iter<uint64_t, false, true>(); }
SYM_HARNESS(iter_oo_i32) { t_iter<int32_t, false, false>(); }
SYM_HARNESS(iter_co_u64) { t_iter<uint64_t, true, false>(); }
