// Bit utilities against bit-by-bit oracles, all values of all unsigned widths.
#include "sym.h"
#include "tachyon/base/bits.h"
#include "tachyon/base/endian_utils.h"
#include "tachyon/math/base/bit_iterator.h"
using namespace tachyon::base;
template <class T> static int width() { return sizeof(T) * 8; }
template <class T> static void t_count(const char* nm) {
  T v = sym_value<T>(nm);
  int W = width<T>();
  int lz = bits::CountLeadingZeroBits(v), tz = bits::CountTrailingZeroBits(v);
  sym_assert(lz >= 0 && lz <= W && tz >= 0 && tz <= W, "count range");
  if (v == 0) { sym_assert(lz == W && tz == W, "zero counts"); }
  else {
    sym_assert(lz < W && tz < W, "nonzero counts");
    sym_assert((uint64_t)v >> (W - 1 - lz) == 1, "leading zeros");
    sym_assert((((uint64_t)v >> tz) & 1) == 1 && (uint64_t(v) & ((uint64_t(1) << tz) - 1)) == 0, "trailing zeros");
    sym_assert(bits::Log2Floor(v) == W - 1 - lz, "floor");
  }
  sym_reached("count");
}
SYM_HARNESS(count8) { t_count<uint8_t>("v"); }
SYM_HARNESS(count16) { t_count<uint16_t>("v"); }
SYM_HARNESS(count32) { t_count<uint32_t>("v"); }
SYM_HARNESS(count64) { t_count<uint64_t>("v"); }
template <class T> static void t_log() {
  T n = sym_value<T>("n");
  int c = bits::Log2Ceiling(n), f = bits::Log2Floor(n);
  unsigned s = bits::SafeLog2Ceiling(n);
  int W = width<T>();
  if (n == 0) { sym_assert(c == -1, "ceil(0)"); sym_assert(f == -1, "floor(0)"); sym_assert(s == 0, "safe ceil(0)"); }
  else {
    sym_assert(c >= 0 && c <= W && f >= 0 && f < W, "log range");
    // 2^(c-1) < n <= 2^c ; 2^f <= n < 2^(f+1)
    unsigned __int128 one = 1, x = n;
    sym_assert(x <= (one << c), "n <= 2^ceil");
    if (c > 0) sym_assert((one << (c - 1)) < x, "2^(ceil-1) < n"); else sym_assert(n == 1, "ceil 0 only for 1");
    sym_assert((one << f) <= x && x < (one << (f + 1)), "floor bracket");
    sym_assert(s == (unsigned)c, "safe ceil = ceil");
    bool p = bits::IsPowerOfTwo(n);
    sym_assert(p == (f == c), "power of two iff floor == ceil");
    if (p) sym_assert(bits::CheckedLog2(n) == (uint32_t)f, "checked log2");
  }
  sym_reached("log");
}
SYM_HARNESS(log32) { t_log<uint32_t>(); }
SYM_HARNESS(log64) { t_log<uint64_t>(); }
template <class T> static void t_pow2() {
  T v = sym_value<T>("v");
  int pc = 0;
  for (int i = 0; i < width<T>(); ++i) pc += (uint64_t(v) >> i) & 1;
  sym_assert(bits::IsPowerOfTwo(v) == (v > 0 && pc == 1), "IsPowerOfTwo");
  sym_reached("pow2");
}
SYM_HARNESS(pow2_i8) { t_pow2<int8_t>(); }
SYM_HARNESS(pow2_u16) { t_pow2<uint16_t>(); }
SYM_HARNESS(pow2_i32) { t_pow2<int32_t>(); }
SYM_HARNESS(pow2_u64) { t_pow2<uint64_t>(); }
template <class T> static void t_align() {
  T v = sym_value<T>("v");
  T a = T(1) << sym_choose(sizeof(T) * 8 - (T(-1) < 0 ? 1 : 0), "k");
  if (T(-1) < 0) sym_assume(v >= 0);
  T d = bits::AlignDown(v, a);
  sym_assert(d <= v && (v - d) < a && (d & (a - 1)) == 0, "AlignDown");
  T mx = std::numeric_limits<T>::max();
  if (v <= mx - (a - 1)) {
    T u = bits::AlignUp(v, a);
    sym_assert(u >= v && (u - v) < a && (u & (a - 1)) == 0, "AlignUp");
  }
  sym_reached("align");
}
SYM_HARNESS(align_u64) { t_align<uint64_t>(); }
SYM_HARNESS(align_u32) { t_align<uint32_t>(); }
SYM_HARNESS(align_i32) { t_align<int32_t>(); }
SYM_HARNESS(align_ptr) {
  uintptr_t p = sym_value<uintptr_t>("p");
  uintptr_t a = uintptr_t(1) << sym_choose(12, "k");
  sym_assume(p < (uintptr_t(1) << 62));
  uintptr_t d = (uintptr_t)bits::AlignDown((uint8_t*)p, a), u = (uintptr_t)bits::AlignUp((uint8_t*)p, a);
  sym_assert(d <= p && p - d < a && d % a == 0, "AlignDown ptr");
  sym_assert(u >= p && u - p < a && u % a == 0, "AlignUp ptr");
  sym_reached("align");
}
SYM_HARNESS(bitrev) {
  uint64_t v = sym_value<uint64_t>("v");
  uint64_t r = bits::BitRev(v);
  uint64_t e = 0;
  for (int i = 0; i < 64; ++i) e |= ((v >> i) & 1) << (63 - i);
  sym_assert(r == e, "BitRev mirrors every bit");
  sym_reached("bitrev");
}
SYM_HARNESS(bitrevlen) {
  size_t len = 1 + sym_choose(63, "len");
  uint64_t v = sym_value<uint64_t>("v");
  sym_assume((v >> len) == 0);
  uint64_t r = bits::ReverseBitsLen(v, len);
  uint64_t e = 0;
  for (size_t i = 0; i < len; ++i) e |= ((v >> i) & 1) << (len - 1 - i);
  sym_assert(r == e, "ReverseBitsLen");
  sym_reached("bitrevlen");
}
SYM_HARNESS(leftmost) {
  sym_assert(bits::LeftmostBit<uint8_t>() == 0x80 && bits::LeftmostBit<uint64_t>() == (uint64_t(1) << 63) && bits::LeftmostBit<int32_t>() == INT32_MIN, "LeftmostBit");
  sym_reached("x");
}
