// Checked / clamped / safe conversions against exact 128-bit arithmetic.
#include "sym.h"
#include <limits>
#include "tachyon/base/numerics/checked_math.h"
#include "tachyon/base/numerics/clamped_math.h"
#include "tachyon/base/numerics/safe_conversions.h"
#include "tachyon/base/numerics/ranges.h"
using namespace tachyon::base;
typedef __int128 I;
template <class T> static bool in(I x) { return x >= (I)std::numeric_limits<T>::min() && x <= (I)std::numeric_limits<T>::max(); }
template <class T> static T clampT(I x) { return x < (I)std::numeric_limits<T>::min() ? std::numeric_limits<T>::min() : x > (I)std::numeric_limits<T>::max() ? std::numeric_limits<T>::max() : (T)x; }
template <class L, class R> static void addsub() {
  L a = sym_value<L>("a"); R b = sym_value<R>("b");
  using C = decltype(CheckAdd(a, b)); using K = decltype(ClampAdd(a, b));
  { auto c = CheckAdd(a, b); using T = typename C::type; T v{}; bool ok = c.AssignIfValid(&v); I e = (I)a + (I)b; sym_assert(ok == in<T>(e), "CheckAdd valid iff exact sum fits"); if (ok) sym_assert((I)v == e, "CheckAdd value");
    K k = ClampAdd(a, b); using TK = typename K::type; sym_assert((TK)k == clampT<TK>(e), "ClampAdd saturates"); }
  { auto c = CheckSub(a, b); using T = typename decltype(c)::type; T v{}; bool ok = c.AssignIfValid(&v); I e = (I)a - (I)b; sym_assert(ok == in<T>(e), "CheckSub valid iff exact difference fits"); if (ok) sym_assert((I)v == e, "CheckSub value");
    auto k = ClampSub(a, b); using TK = typename decltype(k)::type; sym_assert((TK)k == clampT<TK>(e), "ClampSub saturates"); }
  sym_reached("end");
}
template <class L, class R> static void mul(int lim = 0) {
  L a = sym_value<L>("a"); R b = sym_value<R>("b"); if (lim) sym_assume((I)b <= lim && (I)b >= -lim); I e = (I)a * (I)b;
  auto c = CheckMul(a, b); using T = typename decltype(c)::type; T v{}; bool ok = c.AssignIfValid(&v); sym_assert(ok == in<T>(e), "CheckMul valid iff exact product fits"); if (ok) sym_assert((I)v == e, "CheckMul value");
  auto k = ClampMul(a, b); using TK = typename decltype(k)::type; sym_assert((TK)k == clampT<TK>(e), "ClampMul saturates");
  sym_reached("end");
}
template <class L, class R> static void divmod() {
  L a = sym_value<L>("a"); R b = sym_value<R>("b");
  auto c = CheckDiv(a, b); using T = typename decltype(c)::type; T v{}; bool ok = c.AssignIfValid(&v);
  if (b == 0) sym_assert(!ok, "division by zero is invalid"); else { I e = (I)a / (I)b; sym_assert(ok == in<T>(e), "CheckDiv valid iff the quotient fits"); if (ok) sym_assert((I)v == e, "CheckDiv value"); }
  auto m = CheckMod(a, b); using TM = typename decltype(m)::type; TM w{}; bool okm = m.AssignIfValid(&w);
  if (b == 0) sym_assert(!okm, "modulo zero is invalid"); else if (okm) sym_assert((I)w == (I)a % (I)b, "CheckMod value"); else sym_assert(!in<TM>((I)a / (I)b) || !in<TM>((I)a % (I)b), "CheckMod refuses only overflow");
  auto k = ClampDiv(a, b); using TK = typename decltype(k)::type; if (b != 0) sym_assert((TK)k == clampT<TK>((I)a / (I)b), "ClampDiv saturates"); else sym_assert((TK)k == (a == 0 ? TK(0) : a > 0 ? std::numeric_limits<TK>::max() : std::numeric_limits<TK>::min()) || a == 0, "ClampDiv by zero saturates");
  sym_reached("end");
}
template <class L, class R> static void divedge() {  // operands within 3 of the limits of the types, or of zero
  unsigned w = sym_choose(3, "where"), k = sym_choose(4, "k"); L a = w == 0 ? (L)(std::numeric_limits<L>::lowest() + k) : w == 1 ? (L)(std::numeric_limits<L>::max() - k) : (L)(std::is_signed_v<L> ? (int)k - 2 : (int)k);
  unsigned w2 = sym_choose(3, "where2"), k2 = sym_choose(4, "k2"); R b = w2 == 0 ? (R)(std::numeric_limits<R>::lowest() + k2) : w2 == 1 ? (R)(std::numeric_limits<R>::max() - k2) : (R)(std::is_signed_v<R> ? (int)k2 - 2 : (int)k2);
  auto c = CheckDiv(a, b); using T = typename decltype(c)::type; T v{}; bool ok = c.AssignIfValid(&v);
  auto m = CheckMod(a, b); using TM = typename decltype(m)::type; TM w3{}; bool okm = m.AssignIfValid(&w3);
  if (b == 0) { sym_assert(!ok && !okm, "division by zero is invalid"); } else { I q = (I)a / (I)b, r = (I)a % (I)b;
    if (ok) sym_assert((I)v == q, "CheckDiv value"); if (!in<T>(q)) sym_assert(!ok, "CheckDiv refuses overflow"); if (okm) sym_assert((I)w3 == r, "CheckMod value");
    if (in<T>(q) && ((sizeof(L) < 8 && sizeof(R) < 8) || std::is_signed_v<L> == std::is_signed_v<R>)) sym_assert(ok, "CheckDiv accepts a quotient that fits");
    auto kk = ClampDiv(a, b); using TK = typename decltype(kk)::type; sym_assert((TK)kk == clampT<TK>(q), "ClampDiv saturates"); }
  auto mu = CheckMul(a, b); using TU = typename decltype(mu)::type; TU u{}; bool oku = mu.AssignIfValid(&u); I e = (I)a * (I)b; if (sizeof(L) < 8 || sizeof(R) < 8 || (std::is_signed_v<L> || std::is_signed_v<R>)) { sym_assert(oku == in<TU>(e), "CheckMul valid iff exact product fits"); if (oku) sym_assert((I)u == e, "CheckMul value"); auto ku = ClampMul(a, b); using TKU = typename decltype(ku)::type; sym_assert((TKU)ku == clampT<TKU>(e), "ClampMul saturates"); }
  sym_reached("end");
}
#define DE(L, R, n) SYM_HARNESS(edge_##n) { divedge<L, R>(); }
DE(int64_t, int8_t, i64_i8) DE(int8_t, int64_t, i8_i64) DE(int64_t, int64_t, i64_i64) DE(int32_t, int8_t, i32_i8) DE(int32_t, uint32_t, i32_u32) DE(uint64_t, int8_t, u64_i8) DE(int64_t, uint64_t, i64_u64) DE(uint64_t, int64_t, u64_i64) DE(int32_t, int32_t, i32_i32) DE(int16_t, int64_t, i16_i64) DE(int64_t, int32_t, i64_i32)
template <class T> static void shifts() {
  T a = sym_value<T>("a"); int s = sym_value<int>("s");
  auto l = CheckLsh(a, s); using TL = typename decltype(l)::type; TL v{}; bool ok = l.AssignIfValid(&v);
  if (s < 0) sym_assert(!ok, "negative shift is invalid");
  else if (a != 0 && s < 64) { I e = (I)a << (s > 40 && sizeof(T) == 8 ? s : s); if (s < 63) { if (ok) sym_assert((I)v == e, "CheckLsh value"); if (!in<TL>(e)) sym_assert(!ok, "CheckLsh refuses overflow"); } }
  auto r = CheckRsh(a, s); using TR = typename decltype(r)::type; TR w{}; bool okr = r.AssignIfValid(&w);
  if (s >= 0 && s < (int)(sizeof(T) * 8)) { sym_assert(okr && (I)w == ((I)a >> s), "CheckRsh value"); } else sym_assert(!okr || s > 0, "CheckRsh shift range");
  sym_reached("end");
}
template <class D, class S> static void conv() {
  S a = sym_value<S>("a"); bool f = in<D>((I)a);
  sym_assert(IsValueInRangeForNumericType<D>(a) == f, "range test"); sym_assert(saturated_cast<D>(a) == clampT<D>((I)a), "saturated_cast");
  if (f) sym_assert((I)checked_cast<D>(a) == (I)a, "checked_cast");
  CheckedNumeric<S> c = a; sym_assert(c.template IsValid<D>() == f, "IsValid<Dst>"); D d = (D)1; bool ok = c.template Cast<D>().AssignIfValid(&d); sym_assert(ok == f && (!f || (I)d == (I)a), "Cast");
  D def = sym_value<D>("def"); sym_assert((D)c.template ValueOrDefault<D>(def) == (f ? (D)a : def), "ValueOrDefault");
  ClampedNumeric<D> k = a; sym_assert((D)k == clampT<D>((I)a), "ClampedNumeric conversion");
  sym_reached("end");
}
template <class T> static void unary() {
  T a = sym_value<T>("a"); CheckedNumeric<T> c = a; T v{};
  bool neg = (-c).AssignIfValid(&v); if (std::is_signed_v<T>) { sym_assert(neg == in<T>(-(I)a), "negation valid"); if (neg) sym_assert((I)v == -(I)a, "negation"); }
  bool ab = c.Abs().AssignIfValid(&v); I m = a < 0 ? -(I)a : (I)a; sym_assert(ab == in<T>(m), "Abs valid"); if (ab) sym_assert((I)v == m, "Abs");
  std::make_unsigned_t<T> u{}; sym_assert(c.UnsignedAbs().AssignIfValid(&u) && (I)u == m, "UnsignedAbs"); sym_assert((I)SafeUnsignedAbs(a) == m, "SafeUnsignedAbs");
  ClampedNumeric<T> k = a; if (std::is_signed_v<T>) sym_assert((T)(-k) == clampT<T>(-(I)a), "clamped negation"); sym_assert((T)k.Abs() == clampT<T>(m), "clamped Abs"); sym_assert((I)(std::make_unsigned_t<T>)k.UnsignedAbs() == m, "clamped UnsignedAbs");
  auto p = c; ++p; sym_assert(p.IsValid() == in<T>((I)a + 1), "++"); p = c; --p; sym_assert(p.IsValid() == in<T>((I)a - 1), "--");
  auto q = k; ++q; sym_assert((T)q == clampT<T>((I)a + 1), "clamped ++"); q = k; --q; sym_assert((T)q == clampT<T>((I)a - 1), "clamped --");
  sym_reached("end");
}
template <class T> static void chain() {  // an invalid intermediate poisons the result; valid ones are exact
  T a = sym_value<T>("a"), b = sym_value<T>("b"), d = sym_value<T>("d"); CheckedNumeric<T> c = a; c += b; c -= d; T v{}; bool ok = c.AssignIfValid(&v);
  bool e1 = in<T>((I)a + b), e2 = in<T>((I)a + b - d); if (sizeof(T) >= 4) { sym_assert(ok == (e1 && e2), "poisoning"); if (ok) sym_assert((I)v == (I)a + b - d, "chain value"); }
  ClampedNumeric<T> k = a; k += b; k -= d; sym_assert((T)k == clampT<T>((I)clampT<T>((I)a + b) - d), "clamped chain");
  sym_assert((T)CheckMax(a, b).ValueOrDefault(T(0)) == (a > b ? a : b) && (T)CheckMin(a, b).ValueOrDefault(T(0)) == (a < b ? a : b), "max/min"); sym_assert((T)ClampMax(a, b) == (a > b ? a : b) && (T)ClampMin(a, b) == (a < b ? a : b), "clamp max/min");
  sym_reached("end");
}
SYM_HARNESS(add_i32_i32) { addsub<int32_t, int32_t>(); } SYM_HARNESS(add_u32_i32) { addsub<uint32_t, int32_t>(); } SYM_HARNESS(add_i64_i64) { addsub<int64_t, int64_t>(); }
SYM_HARNESS(add_u64_u64) { addsub<uint64_t, uint64_t>(); } SYM_HARNESS(add_u64_i64) { addsub<uint64_t, int64_t>(); } SYM_HARNESS(add_i8_u8) { addsub<int8_t, uint8_t>(); } SYM_HARNESS(add_u64_u32) { addsub<uint64_t, uint32_t>(); } SYM_HARNESS(add_i64_u64) { addsub<int64_t, uint64_t>(); } SYM_HARNESS(add_i16_i64) { addsub<int16_t, int64_t>(); }
SYM_HARNESS(T_mul_i32_i32) { mul<int32_t, int32_t>(); } SYM_HARNESS(mul_i32_small) { mul<int32_t, int32_t>(9); } SYM_HARNESS(mul_i64_small) { mul<int64_t, int64_t>(5); } SYM_HARNESS(mul_u64_small) { mul<uint64_t, uint64_t>(9); } SYM_HARNESS(mul_u64_i64_small) { mul<uint64_t, int64_t>(5); } SYM_HARNESS(mul_i8_i8) { mul<int8_t, int8_t>(); } SYM_HARNESS(mul_u32_u32) { mul<uint32_t, uint32_t>(); } SYM_HARNESS(mul_i8_u8) { mul<int8_t, uint8_t>(); } SYM_HARNESS(T_mul_i16_i16) { mul<int16_t, int16_t>(); } SYM_HARNESS(T_mul_u16_i16) { mul<uint16_t, int16_t>(); } SYM_HARNESS(T_mul_i64_i64) { mul<int64_t, int64_t>(); } SYM_HARNESS(T_mul_u64_u64) { mul<uint64_t, uint64_t>(); }
SYM_HARNESS(T_div_i32_i32) { divmod<int32_t, int32_t>(); } SYM_HARNESS(div_i16_i16) { divmod<int16_t, int16_t>(); } SYM_HARNESS(div_i8_i8) { divmod<int8_t, int8_t>(); } SYM_HARNESS(div_u16_i16) { divmod<uint16_t, int16_t>(); } SYM_HARNESS(T_div_i64_i64) { divmod<int64_t, int64_t>(); }
SYM_HARNESS(shift_i32) { shifts<int32_t>(); } SYM_HARNESS(shift_u32) { shifts<uint32_t>(); } SYM_HARNESS(shift_u64) { shifts<uint64_t>(); } SYM_HARNESS(shift_i16) { shifts<int16_t>(); }
#define CV(D, S, n) SYM_HARNESS(conv_##n) { conv<D, S>(); }
CV(int8_t, int32_t, i8_i32) CV(uint8_t, int64_t, u8_i64) CV(uint32_t, int32_t, u32_i32) CV(int32_t, uint32_t, i32_u32) CV(int64_t, uint64_t, i64_u64) CV(uint64_t, int64_t, u64_i64) CV(int32_t, uint64_t, i32_u64) CV(uint64_t, int8_t, u64_i8) CV(int16_t, int64_t, i16_i64)
SYM_HARNESS(unary_i8) { unary<int8_t>(); } SYM_HARNESS(unary_i32) { unary<int32_t>(); } SYM_HARNESS(unary_i64) { unary<int64_t>(); } SYM_HARNESS(unary_u32) { unary<uint32_t>(); } SYM_HARNESS(unary_u64) { unary<uint64_t>(); }
SYM_HARNESS(chain_i32) { chain<int32_t>(); } SYM_HARNESS(chain_u32) { chain<uint32_t>(); } SYM_HARNESS(chain_i64) { chain<int64_t>(); } SYM_HARNESS(chain_u64) { chain<uint64_t>(); }
