// BigInt<N> against the integers modulo 2^(64N).
#include <gmpxx.h>
#include "sym.h"
#include "tachyon/math/base/big_int.h"
#include "tachyon/math/base/bit_iterator.h"
#include "tachyon/math/base/byinverter.h"
#include "tachyon/math/base/egcd.h"
using namespace tachyon::math;
template <size_t N> static BigInt<N> mk(const char* n) { BigInt<N> b(0); sym_make((void*)&b, 8 * N, n); return b; }
template <size_t N> static ZI zi(const BigInt<N>& b) { return zi_limbs(&b, 8 * N); }
static ZI zs(int64_t v) { return v < 0 ? Zn("0") - Zn(std::to_string(-v).c_str()) : Zn(std::to_string(v).c_str()); }
static std::string p2s(int e) { mpz_class x = 1; x <<= e; return x.get_str(); }
static ZI p2(int e) { return Zn(p2s(e).c_str()); }
static ZI z1(uint64_t v) { return zi_limbs(&v, 8); }
static void cong(ZI a, ZI b, int e, const char* m) { zi_assert_cong(a.i, b.i, p2s(e).c_str(), m); }
template <size_t N> static bool bit(const BigInt<N>& b, size_t i) { const unsigned char* c = (const unsigned char*)&b; return i < 64 * N && (c[i / 8] >> (i % 8) & 1); }
template <size_t N> static uint64_t limb(const BigInt<N>& b, size_t i) { uint64_t v; if (i >= N) return 0; memcpy(&v, (const char*)&b + 8 * i, 8); return v; }
#define EQ(a, b, m) zi_assert_eq((a).i, (b).i, m)
template <size_t N> static void addsub() {
  sym_arith(N == 1 ? 1 : 2); auto a = mk<N>("a"), b = mk<N>("b"); uint64_t c = 0, d = 0; auto s = a.Add(b, c); EQ(zi(s) + z1(c) * p2(64 * N), zi(a) + zi(b), "a sum with its carry");
  auto t = a.Sub(b, d); EQ(zi(t) + zi(b), zi(a) + z1(d) * p2(64 * N), "a difference with its borrow"); zi_assert_lt(z1(c).i, Zn("2").i, "the carry is a bit"); zi_assert_lt(z1(d).i, Zn("2").i, "the borrow is a bit");
  sym_arith(0); auto s2 = a; uint64_t c2 = 0; s2.AddInPlace(b, c2); sym_assert(s2 == s && c2 == c && (a + b) == s, "sums agree"); auto t2 = a; uint64_t d2 = 0; t2.SubInPlace(b, d2); sym_assert(t2 == t && d2 == d && (a - b) == t, "differences agree"); auto s3 = a, t3 = a; s3 += b; t3 -= b; sym_assert(s3 == s && t3 == t, "compound sums and differences agree"); sym_reached("end"); }
SYM_HARNESS(addsub1) { addsub<1>(); } SYM_HARNESS(addsub2) { addsub<2>(); } SYM_HARNESS(addsub4) { addsub<4>(); } SYM_HARNESS(addsub6) { addsub<6>(); } SYM_HARNESS(addsub7) { addsub<7>(); }
template <size_t N> static void alias() { sym_arith(N == 1 ? 1 : 2); auto a = mk<N>("a"); auto x = a; uint64_t c = 0; x.AddInPlace(x, c); EQ(zi(x) + z1(c) * p2(64 * N), zi(a) + zi(a), "a number added to itself in place"); auto y = a; uint64_t d = 0; y.SubInPlace(y, d); EQ(zi(y) + z1(d), zs(0), "a number subtracted from itself in place"); auto w = a; uint64_t e = 0; w.MulBy2InPlace(e); EQ(zi(w) + z1(e) * p2(64 * N), zi(a) + zi(a), "a number doubled in place"); uint64_t f = 0; auto w2 = a.MulBy2(f); EQ(zi(w2) + z1(f) * p2(64 * N), zi(a) + zi(a), "a number doubled"); auto h = a; h.DivBy2InPlace(); uint64_t odd = a.IsOdd(); EQ(zi(h) + zi(h) + z1(odd), zi(a), "a number halved"); sym_assert(a.IsEven() != a.IsOdd(), "even or odd"); sym_reached("end"); }
SYM_HARNESS(alias1) { alias<1>(); } SYM_HARNESS(alias3) { alias<3>(); }
template <size_t N> static void mult() { sym_arith(2); auto a = mk<N>("a"), b = mk<N>("b"); auto r = a.Multiply(b); EQ(zi(r.lo) + zi(r.hi) * p2(64 * N), zi(a) * zi(b), "a product in two halves"); sym_reached("end"); }
template <size_t N> static void mult2() { sym_arith(2); auto a = mk<N>("a"), b = mk<N>("b"); auto r = a.MulExtend(b); EQ(zi(r), zi(a) * zi(b), "an extended product"); sym_reached("end"); }
template <size_t N> static void mult3() { sym_arith(2); auto a = mk<N>("a"), b = mk<N>("b"); auto r = a * b; cong(zi(r), zi(a) * zi(b), 64 * N, "a product"); auto c = a; c *= b; cong(zi(c), zi(a) * zi(b), 64 * N, "a product in place"); auto q = a; q *= q; cong(zi(q), zi(a) * zi(a), 64 * N, "a number multiplied by itself in place"); sym_reached("end"); }
SYM_HARNESS(mult_1) { mult<1>(); } SYM_HARNESS(mult_2) { mult<2>(); } SYM_HARNESS(mult_3) { mult<3>(); } SYM_HARNESS(mult_4) { mult<4>(); } SYM_HARNESS(mulext_1) { mult2<1>(); } SYM_HARNESS(mulext_2) { mult2<2>(); } SYM_HARNESS(mulext_4) { mult2<4>(); } SYM_HARNESS(mul_1) { mult3<1>(); } SYM_HARNESS(mul_2) { mult3<2>(); } SYM_HARNESS(mul_3) { mult3<3>(); }
template <size_t N> static void shifts() {
  auto a = mk<N>("a"); static const uint32_t K[] = {0, 1, 7, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 191, 192, 193, 255, 256, 1000, 4294967295u}; uint32_t n = K[sym_choose(20, "n")]; auto l = a << n, r = a >> n; auto l2 = a; l2 <<= n; auto r2 = a; r2 >>= n; sym_assert(l2 == l && r2 == r, "compound shifts agree");
  uint64_t q = n / 64, s = n % 64; for (size_t i = 0; i < N; ++i) { uint64_t x = i >= q ? limb(a, i - q) << s | (s && i >= q + 1 ? limb(a, i - q - 1) >> (64 - s) : 0) : 0; uint64_t y = limb(a, i + q) >> s | (s ? limb(a, i + q + 1) << (64 - s) : 0); sym_assert(limb(l, i) == x, "a shift to the left"); sym_assert(limb(r, i) == y, "a shift to the right"); } sym_reached("end"); }
SYM_HARNESS(shifts1) { shifts<1>(); } SYM_HARNESS(shifts2) { shifts<2>(); } SYM_HARNESS(shifts4) { shifts<4>(); }
template <size_t N> static void logic() { auto a = mk<N>("a"), b = mk<N>("b"); auto x = a & b, y = a | b, z = a ^ b; auto x2 = a, y2 = a, z2 = a; x2 &= b; y2 |= b; z2 ^= b; for (size_t i = 0; i < N; ++i) { sym_assert(limb(x, i) == (limb(a, i) & limb(b, i)), "and"); sym_assert(limb(y, i) == (limb(a, i) | limb(b, i)), "or"); sym_assert(limb(z, i) == (limb(a, i) ^ limb(b, i)), "exclusive or"); } sym_assert(x2 == x && y2 == y && z2 == z, "compound bit operations agree");
  bool zero = true; for (size_t i = 0; i < N; ++i) zero = zero & (limb(a, i) == 0); sym_assert(a.IsZero() == zero, "IsZero"); bool one = limb(a, 0) == 1; for (size_t i = 1; i < N; ++i) one = one & (limb(a, i) == 0); sym_assert(a.IsOne() == one, "IsOne"); sym_assert(a.biggest_limb() == limb(a, N - 1) && a.smallest_limb() == limb(a, 0), "the limbs at the ends"); sym_reached("end"); }
SYM_HARNESS(logic1) { logic<1>(); } SYM_HARNESS(logic2) { logic<2>(); } SYM_HARNESS(logic3) { logic<3>(); }
template <size_t N> static void order() { sym_arith(1); auto a = mk<N>("a"), b = mk<N>("b"); bool l = a < b, g = a > b, le = a <= b, ge = a >= b, e = a == b; if (l) zi_assert_lt(zi(a).i, zi(b).i, "less"); else zi_assert_lt(zi(b).i, (zi(a) + Zn("1")).i, "not less"); sym_assert(g == (b < a) && le == !g && ge == !l && e == (!l && !g) && (a != b) == !e, "the comparisons agree"); sym_reached("end"); }
SYM_HARNESS(order1) { order<1>(); } SYM_HARNESS(order2) { order<2>(); } SYM_HARNESS(order4) { order<4>(); }
template <size_t N, class T> static void extract() { auto a = mk<N>("a"); constexpr size_t W = 8 * sizeof(T); static const size_t O[] = {0, 1, 5, W / 2, W - 1, W, W + 1, 2 * W - 3, 64 * N - W, 64 * N - 2, 64 * N - 1}; static const size_t C[] = {1, 2, 5, 16, W / 2, W - 1, W};
  size_t o = O[sym_choose(11, "offset")], c = C[sym_choose(7, "count")]; if (o >= 64 * N) { sym_reached("end"); return; } T r = sizeof(T) == 8 ? (T)a.ExtractBits64(o, c) : (T)a.ExtractBits32(o, c); auto s = a >> o; T m = c == W ? T(~T(0)) : T((T(1) << c) - 1); sym_assert(r == T(T(limb(s, 0)) & m), c == W ? "a whole word of bits extracted" : "bits extracted"); sym_reached("end"); }
SYM_HARNESS(extract64_1) { extract<1, uint64_t>(); } SYM_HARNESS(extract64_2) { extract<2, uint64_t>(); } SYM_HARNESS(extract64_4) { extract<4, uint64_t>(); } SYM_HARNESS(extract32_1) { extract<1, uint32_t>(); } SYM_HARNESS(extract32_4) { extract<4, uint32_t>(); }
// eight bits at a time, anywhere (a set of bits is made bit by bit)
template <size_t N> static BigInt<N> win(const char* n) { BigInt<N> a(0); uint8_t x = sym_value<uint8_t>(n); size_t at = sym_choose(8 * N, "at"); ((uint8_t*)&a)[at] = x & 0x9d; return a; }
template <size_t N> static void bits() { auto a = win<N>("a"); auto l = a.ToBitsLE(), b = a.ToBitsBE(); for (size_t i = 0; i < 64 * N; ++i) { sym_assert(l[i] == bit(a, i), "a bit from the little end"); sym_assert(b[64 * N - 1 - i] == bit(a, i), "a bit from the big end"); } sym_assert(BigInt<N>::FromBitsLE(l) == a, "bits from the little end back"); sym_assert(BigInt<N>::FromBitsBE(b) == a, "bits from the big end back"); sym_reached("end"); }
SYM_HARNESS(bits1) { bits<1>(); } SYM_HARNESS(bits2) { bits<2>(); }
template <size_t N, size_t B> static void some_bits() { auto a = win<N>("a"); auto l = a.template ToBitsLE<B>(), b = a.template ToBitsBE<B>(); for (size_t i = 0; i < B; ++i) { sym_assert(l[i] == bit(a, i), "one of some bits from the little end"); sym_assert(b[B - 1 - i] == bit(a, i), "one of some bits from the big end"); } auto x = BigInt<N>::FromBitsLE(l), y = BigInt<N>::FromBitsBE(b); sym_assert(x == y, "some bits from both ends"); for (size_t i = 0; i < 64 * N; ++i) sym_assert(bit(x, i) == (i < B && bit(a, i)), "some bits back"); sym_reached("end"); }
SYM_HARNESS(some_bits5) { some_bits<1, 5>(); } SYM_HARNESS(some_bits64) { some_bits<2, 64>(); } SYM_HARNESS(some_bits70) { some_bits<2, 70>(); }
template <size_t N> static void bytes() { auto a = mk<N>("a"); auto l = a.ToBytesLE(), b = a.ToBytesBE(); for (size_t i = 0; i < 8 * N; ++i) { sym_assert(l[i] == ((const uint8_t*)&a)[i], "a byte from the little end"); sym_assert(b[8 * N - 1 - i] == ((const uint8_t*)&a)[i], "a byte from the big end"); } sym_assert(BigInt<N>::FromBytesLE(l) == a, "bytes from the little end back"); sym_assert(BigInt<N>::FromBytesBE(b) == a, "bytes from the big end back");
  size_t k = sym_choose(8 * N, "k"); std::vector<uint8_t> v(l.begin(), l.begin() + k), w(v.rbegin(), v.rend()); auto x = BigInt<N>::FromBytesLE(v), y = BigInt<N>::FromBytesBE(w); sym_assert(x == y, "some bytes from both ends"); for (size_t i = 0; i < 8 * N; ++i) sym_assert(((const uint8_t*)&x)[i] == (i < k ? l[i] : 0), "some bytes back"); sym_reached("end"); }
SYM_HARNESS(bytes1) { bytes<1>(); } SYM_HARNESS(bytes3) { bytes<3>(); }
template <size_t N> static void extend() { auto a = mk<N>("a"); auto e = a.template Extend<N + 2>(); for (size_t i = 0; i < N + 2; ++i) sym_assert(e[i] == limb(a, i), "an extended number"); auto s = e.template Shrink<N>(); sym_assert(s == a, "shrunk back"); BigInt<N> f; sym_assert(BigInt<N>(limb(a, 0))[0] == limb(a, 0), "a number from one limb"); for (size_t i = 1; i < N; ++i) sym_assert(BigInt<N>(limb(a, 0))[i] == 0, "the other limbs are zero"); sym_reached("end"); }
SYM_HARNESS(extend1) { extend<1>(); } SYM_HARNESS(extend4) { extend<4>(); }
template <size_t N> static void bit_traits() { auto a = mk<N>("a"); static const size_t I[] = {0, 1, 31, 32, 62, 63, 64, 65, 127, 128, 64 * N - 1, 64 * N}; size_t i = I[sym_choose(12, "i")]; sym_assert(BitTraits<BigInt<N>>::TestBit(a, i) == bit(a, i), "TestBit"); bool v = sym_choose(2, "v"); auto b = a; BitTraits<BigInt<N>>::SetBit(b, i, v); for (size_t j = 0; j < 64 * N; ++j) sym_assert(bit(b, j) == (j == i ? v : bit(a, j)), "SetBit"); sym_reached("end"); }
SYM_HARNESS(bit_traits1) { bit_traits<1>(); } SYM_HARNESS(bit_traits2) { bit_traits<2>(); }
SYM_HARNESS(iterate) { BigInt<2> a(0); uint8_t v = sym_value<uint8_t>("v"); size_t at = sym_choose(4, "at") * 40; a[at / 64] |= uint64_t(v & 7) << (at % 64 > 61 ? 61 : at % 64); size_t i = 128; for (auto it = BitIteratorBE<BigInt<2>>::begin(&a); it != BitIteratorBE<BigInt<2>>::end(&a); ++it) { sym_assert(i > 0, "as many bits as there are"); --i; sym_assert(*it == bit(a, i), "the bits from the big end"); } sym_assert(i == 0, "all bits from the big end");
  i = 0; for (auto it = BitIteratorLE<BigInt<2>>::begin(&a); it != BitIteratorLE<BigInt<2>>::end(&a); ++it, ++i) sym_assert(*it == bit(a, i), "the bits from the little end"); sym_assert(i == 128, "all bits from the little end");
  size_t top = 128; while (top > 0 && !bit(a, top - 1)) --top; i = top; for (auto it = BitIteratorBE<BigInt<2>>::begin(&a, true); it != BitIteratorBE<BigInt<2>>::end(&a); ++it) { sym_assert(i > 0, "no leading zeros"); --i; sym_assert(*it == bit(a, i), "the bits without leading zeros"); } sym_assert(i == 0, "all bits without leading zeros");
  i = 0; for (auto it = BitIteratorLE<BigInt<2>>::begin(&a); it != BitIteratorLE<BigInt<2>>::end(&a, true); ++it, ++i) sym_assert(i < top && *it == bit(a, i), "the bits without trailing zeros"); sym_assert(i == top, "all bits without trailing zeros"); sym_reached("end"); }
// long division: every dividend of a few bits (at any place when the divisor is as long), every divisor
template <size_t N> static void divide(int mode) {
  BigInt<N> a(0), b(0); if (mode == 0) { uint8_t x = sym_value<uint8_t>("x"); a[0] = x & (N == 1 ? 31 : 7); b = mk<N>("b"); }                 // small dividend
  else if (mode == 1) { a = mk<N>("a"); b = mk<N>("b"); sym_assume(b[N - 1] >> (N == 1 ? 62 : 63)); }                                          // divisor within two bits of the top
  else { uint8_t x = sym_value<uint8_t>("x"), y = sym_value<uint8_t>("y"); a[0] = uint64_t(x & 15) << 60; if (N > 1) { a[1] = x & 3; } b[0] = uint64_t(y) << 57; sym_assume((y & 0x78) != 0); }                     // across a limb
  DivResult<BigInt<N>> r{BigInt<N>(0), BigInt<N>(0)}; bool ok = a.Divide(b, r); sym_assert(ok == !b.IsZero(), "division by zero alone is refused"); if (!ok) { sym_assert(!a.Div(b), "no quotient by zero"); sym_reached("end"); return; }
  using W = std::conditional_t<N == 1, uint64_t, unsigned __int128>; static_assert(N <= 2); auto w = [](const BigInt<N>& v) { W x; memcpy((void*)&x, &v, 8 * N); return x; }; W p = w(r.remainder), bv = w(b); for (size_t i = 0; i < N; ++i) { uint64_t q = sym_concretize(r.quotient[i]); for (size_t j = 0; j < 64; ++j) if (q >> j & 1) p += W(bv << (64 * i + j)); } sym_assert(p == w(a), "quotient times divisor plus remainder"); sym_assert(r.remainder < b, "the remainder is below the divisor"); sym_assert(r.quotient <= a && r.remainder <= a, "neither exceeds the dividend"); sym_reached("end"); }
SYM_HARNESS(div_small1) { divide<1>(0); } SYM_HARNESS(div_small2) { divide<2>(0); } SYM_HARNESS(div_top1) { divide<1>(1); } SYM_HARNESS(div_top2) { divide<2>(1); } SYM_HARNESS(div_mid1) { divide<1>(2); } SYM_HARNESS(div_mid2) { divide<2>(2); }
// concrete operands of the oracle, decided per case: the operators agree with Divide
SYM_HARNESS(div_forms) { uint8_t x = sym_value<uint8_t>("x"); BigInt<2> a({uint64_t{5}, uint64_t{0}}), b(7); a[1] = sym_concretize(x & 3); auto q = a / b; BigInt<2> m = a % b; DivResult<BigInt<2>> r{BigInt<2>(0), BigInt<2>(0)}; sym_assert(a.Divide(b, r), "seven divides"); sym_assert(q && *q == r.quotient && m == r.remainder, "operators agree with Divide"); auto c = a; auto p = c /= b; sym_assert(p && c == r.quotient, "division in place"); auto d = a; d %= b; sym_assert(d == r.remainder, "remainder in place"); sym_reached("end"); }
template <size_t N> static void naf(int where) { BigInt<N> a(0); uint8_t x = sym_value<uint8_t>("x"); if (where == 0) a[0] = x & 63; else if (where == 1) { a[0] = uint64_t(x & 63) << 58; } else { for (size_t i = 0; i < N; ++i) a[i] = ~uint64_t{0}; a[N - 1] ^= uint64_t(x & 15) << 60; }
  auto v = a.ToNAF(); ZI s = zs(0); for (size_t i = 0; i < v.size(); ++i) { sym_assert(v[i] >= -1 && v[i] <= 1, "a digit is -1, 0 or 1"); if (i) sym_assert(!(v[i] && v[i - 1]), "no two adjacent digits"); s = s + zs(v[i] == 1 ? 1 : v[i] == -1 ? -1 : 0) * p2(i); } sym_arith(1); EQ(s, zi(a), "the digits sum to the number"); sym_reached("end"); }
SYM_HARNESS(naf_low) { naf<1>(0); } SYM_HARNESS(naf_cross) { naf<2>(1); } SYM_HARNESS(naf_top1) { naf<1>(2); } SYM_HARNESS(naf_top2) { naf<2>(2); }
// reduction with a modulus, 32 and 64 bits at a time
static const char* PM = "28948022309329048855892746252171976963363056481941560715954676764349967630337";
static const BigInt<4> kM({UINT64_C(11037532056220336129), UINT64_C(2469829653914515739), UINT64_C(0), UINT64_C(4611686018427387904)});  // Pallas base field
SYM_HARNESS(from_mont64) { sym_arith(2); auto a = mk<4>("a"); zi_assume_lt(zi(a).i, Zn(PM).i); auto r = BigInt<4>::FromMontgomery64(a, kM, UINT64_C(11037532056220336127)); zi_assert_cong((zi(r) * p2(256)).i, zi(a).i, PM, "reduced 64 bits at a time"); zi_assert_lt(zi(r).i, Zn(PM).i, "reduced below the modulus"); sym_reached("end"); }
SYM_HARNESS(from_mont32) { sym_arith(2); auto a = mk<4>("a"); zi_assume_lt(zi(a).i, Zn(PM).i); auto r = BigInt<4>::FromMontgomery32(a, kM, uint32_t(4294967295u)); zi_assert_cong((zi(r) * p2(256)).i, zi(a).i, PM, "reduced 32 bits at a time"); sym_reached("end"); }
// inverses modulo a small prime (the control flow depends on the value)
template <bool BY> static void inv(uint64_t p, bool high) { uint8_t x = sym_value<uint8_t>("x"); sym_assume(x < 24); x = sym_concretize(x); uint64_t m = p; BigInt<1> P(m); unsigned __int128 R = (unsigned __int128)1 << 64; uint64_t r1 = (uint64_t)(R % m), r2 = (uint64_t)((unsigned __int128)r1 * r1 % m); uint64_t base = m - 24; BigInt<1> a(high ? uint64_t(base + x) : uint64_t(x)), o(0); bool ok; if constexpr (BY) { BYInverter<1> by(P, BigInt<1>(r2)); ok = by.Invert(a, o); } else ok = a.MontgomeryInverse<true>(P, BigInt<1>(r2), o);
  sym_assert(ok == !a.IsZero(), "zero alone has no inverse"); if (ok) { unsigned __int128 t = (unsigned __int128)sym_concretize(o[0]) * sym_concretize(a[0]) % m; sym_assert((uint64_t)t == r2 % m, "an inverse times the number"); sym_assert(o[0] < m, "an inverse is canonical"); } sym_reached("end"); }
SYM_HARNESS(inv_low) { inv<false>(65521, false); } SYM_HARNESS(inv_high) { inv<false>((uint64_t(1) << 61) - 1, true); } SYM_HARNESS(inv_by_low) { inv<true>(65521, false); } SYM_HARNESS(inv_by_high) { inv<true>((uint64_t(1) << 61) - 1, true); }
SYM_HARNESS(egcd) { uint8_t x = sym_value<uint8_t>("x"), y = sym_value<uint8_t>("y"); sym_assume(x < 40 && y < 40); int64_t a = sym_concretize(x), b = sym_concretize(y); auto r = EGCD<int64_t>::Compute(a, b); sym_assert(r.s * a + r.t * b == r.r, "Bezout"); int64_t g = a, h = b; while (h) { int64_t t = g % h; g = h; h = t; } sym_assert(r.r == g, "the greatest common divisor"); sym_reached("end"); }
