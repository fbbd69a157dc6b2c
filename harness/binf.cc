// Binary tower fields: X_k^2 = X_k X_(k-1) + 1 over GF(2).
#include "sym.h"
#include "tachyon/math/finite_fields/binary_fields/binary_fields.h"
#include "tachyon/math/finite_fields/binary_fields/binary_field.h"
using namespace tachyon::math;
#if 0
#define U __attribute__((noinline))
#else
#define U
#endif
// the tower, bit by bit (schoolbook, no tables)
template <class W> static W ref(W a, W b, int n) { if (n == 1) return a & b & 1; int h = n / 2; W m = (W(1) << h) - 1, a0 = a & m, a1 = (a >> h) & m, b0 = b & m, b1 = (b >> h) & m; W z1 = ref<W>(a1, b1, h); W al = h == 1 ? z1 : ref<W>(z1, W(1) << (h / 2), h); return (ref<W>(a0, b0, h) ^ z1) | ((ref<W>(a0, b1, h) ^ ref<W>(a1, b0, h) ^ al) << h); }
template <class F> static constexpr int bits() { return F::kBits; }
template <class W> static W low(W x, int n) { return n >= int(8 * sizeof(W)) ? x : W(x & ((W(1) << n) - 1)); }
template <class F> static void linear() { using W = typename F::value_type; W x = sym_value<W>("x"), y = sym_value<W>("y"); sym_assume(low<W>(x, F::kBits) == x && low<W>(y, F::kBits) == y); F a(x), b(y);
  sym_assert((a + b).value() == W(x ^ y) && (a - b).value() == W(x ^ y) && (-a).value() == x && a.Double().value() == 0, "sum, difference, negation and double"); F c = a, d = a, e = a, f = a; c += b; d -= b; e.NegateInPlace(); f.DoubleInPlace(); sym_assert(c == a + b && d == a - b && e == a && f.IsZero(), "the forms in place agree");
  F g = a; g += g; F h = a; h -= h; sym_assert(g.IsZero() && h.IsZero(), "an element and itself cancel"); sym_assert((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "comparisons"); sym_assert(a.IsZero() == (x == 0) && a.IsOne() == (x == 1) && a.IsMinusOne() == a.IsOne() && F::Zero().value() == 0 && F::One().value() == 1, "zero and one"); sym_assert(a.ToBigInt()[0] == x && F::FromBigInt(a.ToBigInt()) == a, "integers and back"); sym_reached("end"); }
SYM_HARNESS(linear1) { linear<BinaryField1>(); } SYM_HARNESS(linear2) { linear<BinaryField2>(); } SYM_HARNESS(linear4) { linear<BinaryField4>(); } SYM_HARNESS(linear8) { linear<BinaryField8>(); } SYM_HARNESS(linear16) { linear<BinaryField16>(); } SYM_HARNESS(linear32) { linear<BinaryField32>(); } SYM_HARNESS(linear64) { linear<BinaryField64>(); }
SYM_HARNESS(linear128) { using F = BinaryField128; uint64_t v[4]; sym_make(v, 32, "v"); F a(BigInt<2>({v[0], v[1]})), b(BigInt<2>({v[2], v[3]})); BigInt<2> s({v[0] ^ v[2], v[1] ^ v[3]}); sym_assert((a + b).value() == s && (a - b).value() == s && -a == a && a.Double().IsZero(), "sum, difference, negation and double"); F c = a; c += b; F d = a; d -= b; sym_assert(c == a + b && d == a + b, "the forms in place agree"); sym_assert(a.IsZero() == ((v[0] | v[1]) == 0) && a.IsOne() == (v[0] == 1 && v[1] == 0), "zero and one"); bool lt = v[1] < v[3] || (v[1] == v[3] && v[0] < v[2]), eq = v[0] == v[2] && v[1] == v[3]; sym_assert((a < b) == lt && (a == b) == eq && (a != b) == !eq && (a <= b) == (lt || eq) && (a > b) == !(lt || eq) && (a >= b) == !lt, "comparisons");
  auto [lo, hi] = a.Decompose(); sym_assert(lo.value() == v[0] && hi.value() == v[1] && F::Compose(lo, hi) == a, "halves"); sym_assert(F::FromBigInt(a.ToBigInt()) == a, "integers and back"); sym_reached("end"); }
template <class F> static void halves() { using W = typename F::value_type; W x = sym_value<W>("x"); F a(x); auto [lo, hi] = a.Decompose(); int h = F::kBits / 2; sym_assert(W(lo.value()) == low<W>(x, h) && W(hi.value()) == W(x >> h), "halves"); sym_assert(F::Compose(lo, hi) == a, "halves back"); sym_reached("end"); }
SYM_HARNESS(halves16) { halves<BinaryField16>(); } SYM_HARNESS(halves32) { halves<BinaryField32>(); } SYM_HARNESS(halves64) { halves<BinaryField64>(); }
// multiplication, square and inverse of the fields held in tables
template <class F> static void small(int part = 0) { uint8_t x = sym_value<uint8_t>("x"), y = sym_value<uint8_t>("y"); if (F::kBits == 8) { x = sym_choose(64, "x") + 64 * part; y = sym_choose(8, "high") << 5 | (y & 31); } sym_assume(low<uint8_t>(x, F::kBits) == x && low<uint8_t>(y, F::kBits) == y); F a(x), b(y); F p = a * b; sym_assert(p.value() == ref<uint8_t>(x, y, F::kBits), "product"); F q = a; q *= b; sym_assert(q == p, "product in place"); sym_reached("end"); }
template <class F> static void small_inv() { uint8_t x = sym_value<uint8_t>("x"); if (F::kBits == 8) sym_assume((x >> 4) == sym_choose(16, "high")); sym_assume(low<uint8_t>(x, F::kBits) == x); F a(x); auto i = a.Inverse(); sym_assert(bool(i) == (x != 0), "zero alone has no inverse"); F b = a; bool ok = bool(b.InverseInPlace()); sym_assert(ok == (x != 0), "zero alone has no inverse in place"); if (i) { sym_assert(ref<uint8_t>(x, i->value(), F::kBits) == 1, "an inverse times the element"); sym_assert(b == *i, "the inverse in place"); sym_assert(*(F::One() / a) == *i, "a quotient"); } uint8_t al = F::kBits == 1 ? 1 : uint8_t(1) << (F::kBits / 2); sym_assert(BinaryTowerOperations<F>::MulByAlpha(a).value() == ref<uint8_t>(x, al, F::kBits), "multiplication by the generator"); {F r = a; r *= r; F s = a.Square(), t = a; t.SquareInPlace(); uint8_t sq = ref<uint8_t>(x, x, F::kBits); sym_assert(r.value() == sq && s.value() == sq && t.value() == sq, "square");} sym_reached("end"); }
SYM_HARNESS(mul1) { small<BinaryField1>(); } SYM_HARNESS(mul2) { small<BinaryField2>(); } SYM_HARNESS(mul4) { small<BinaryField4>(); } SYM_HARNESS(mul8a) { small<BinaryField8>(0); } SYM_HARNESS(mul8b) { small<BinaryField8>(1); } SYM_HARNESS(mul8c) { small<BinaryField8>(2); } SYM_HARNESS(mul8d) { small<BinaryField8>(3); }
SYM_HARNESS(inv1) { small_inv<BinaryField1>(); } SYM_HARNESS(inv2) { small_inv<BinaryField2>(); } SYM_HARNESS(inv4) { small_inv<BinaryField4>(); } SYM_HARNESS(inv8) { small_inv<BinaryField8>(); }
// the step from one field to the next, over GF(16) with any generator: degrees stay below 16, so what holds here holds over every ring of characteristic two
static uint8_t alpha;
struct Sub { uint8_t v = 0; Sub() = default; explicit Sub(uint8_t x) : v(x) {} Sub operator+(Sub o) const { return Sub(v ^ o.v); } Sub operator-(Sub o) const { return Sub(v ^ o.v); } Sub operator*(Sub o) const { return Sub(ref<uint8_t>(v, o.v, 4)); } Sub& operator+=(Sub o) { v ^= o.v; return *this; } Sub& operator-=(Sub o) { v ^= o.v; return *this; } Sub& operator*=(Sub o) { return *this = *this * o; } Sub Square() const { return *this * *this; } bool IsZero() const { return v == 0; } static Sub Zero() { return Sub(); } bool operator==(Sub o) const { return v == o.v; }
  std::optional<Sub> Inverse() const { if (!v) return std::nullopt; Sub r(1), b = *this; for (int i = 0; i < 3; ++i) { b = b * b; r = r * b; } return r; } static constexpr size_t kBits = 0; };
struct Top { using SubField = Sub; static constexpr size_t kBits = 16; Sub lo, hi; static Top Compose(Sub l, Sub h) { Top t; t.lo = l; t.hi = h; return t; } std::tuple<Sub, Sub> Decompose() const { return {lo, hi}; } };
namespace tachyon::math { template <> struct BinaryTowerOperations<Sub> { static Sub MulByAlpha(Sub x) { return x * Sub(alpha); } }; }
static Top top(const char* n) { uint8_t x = sym_value<uint8_t>(n); return Top::Compose(Sub(x & 15), Sub(x >> 4)); }
static Top tref(Top a, Top b) { Sub z = a.hi * b.hi; return Top::Compose(a.lo * b.lo + z, a.lo * b.hi + a.hi * b.lo + z * Sub(alpha)); }
static bool same(Top a, Top b) { return (a.lo.v ^ b.lo.v | a.hi.v ^ b.hi.v) == 0; }
SYM_HARNESS(step) { alpha = sym_value<uint8_t>("alpha"); sym_assume(alpha < 16); Top a = top("a"), b = top("b"); using O = BinaryTowerOperations<Top>; sym_assert(same(O::Mul(a, b), tref(a, b)), "product of the next field"); sym_assert(same(O::Square(a), tref(a, a)), "square of the next field"); sym_assert(same(O::MulByAlpha(a), tref(a, Top::Compose(Sub(0), Sub(1)))), "multiplication by the generator of the next field"); sym_reached("end"); }
SYM_HARNESS(step_inverse) { alpha = sym_value<uint8_t>("alpha"); sym_assume(alpha < 16); Top a = top("a"); auto i = BinaryTowerOperations<Top>::Inverse(a); if (i) { Top p = tref(a, *i); sym_assert(p.lo.v == 1 && p.hi.v == 0, "an inverse of the next field times the element"); } else { Sub d = a.lo * (a.lo + a.hi * Sub(alpha)) + a.hi * a.hi; sym_assert(d.v == 0, "only an element of norm zero has no inverse"); } sym_reached("end"); }
// the larger fields themselves: every bit of one operand with every value of a byte of the other, and whole products by linearity
template <class F, class W> static F mkF(W w) { if constexpr (F::kBits == 128) return F(BigInt<2>({uint64_t(w), uint64_t(w >> 64)})); else return F(typename F::value_type(w)); }
template <class F, class W> static W valF(F f) { if constexpr (F::kBits == 128) return W(f.value()[0]) | W(f.value()[1]) << 64; else return W(f.value()); }
template <class F, class W> static void bilinear() { constexpr int n = F::kBits; size_t i = n <= 32 ? sym_choose(n, "bit") : (n == 64 ? sym_choose(32, "bit") * 2 + 1 : sym_choose(16, "bit") * 8 + 7); size_t k = sym_choose(n / 8, "byte"); uint8_t x = n == 16 ? sym_value<uint8_t>("x") : sym_choose(9, "x"); if (n > 16) x = x == 8 ? 0xff : 1 << x; W a = W(1) << i, b = W(x) << (8 * k); W e = 0; for (int j = 0; j < 8; ++j) e ^= (x >> j & 1) ? ref<W>(a, W(1) << (8 * k + j), n) : W(0); F f = mkF<F, W>(a), g = mkF<F, W>(b); sym_assert((valF<F, W>(f * g) == e), "product of a bit and a byte"); sym_assert((valF<F, W>(g * f) == e), "product of a byte and a bit"); sym_reached("end"); }
SYM_HARNESS(bit16) { bilinear<BinaryField16, uint16_t>(); } SYM_HARNESS(bit32) { bilinear<BinaryField32, uint32_t>(); } SYM_HARNESS(bit64) { bilinear<BinaryField64, uint64_t>(); } SYM_HARNESS(bit128) { bilinear<BinaryField128, unsigned __int128>(); }
template <class F, class W> static void squares() { constexpr int n = F::kBits; size_t k = sym_choose(n / 8, "byte"); uint8_t x = sym_value<uint8_t>("x"); W b = W(x) << (8 * k), e = 0, al = 0; for (int j = 0; j < 8; ++j) { W u = W(1) << (8 * k + j); if (x >> j & 1) { e ^= ref<W>(u, u, n); al ^= ref<W>(u, W(1) << (n / 2), n); } } F f = mkF<F, W>(b), g = f; g.SquareInPlace(); sym_assert((valF<F, W>(f.Square()) == e) && g == f.Square(), "square of a byte"); sym_assert((valF<F, W>(BinaryTowerOperations<F>::MulByAlpha(f)) == al), "a byte times the generator"); sym_reached("end"); }
SYM_HARNESS(sq16) { squares<BinaryField16, uint16_t>(); } SYM_HARNESS(sq32) { squares<BinaryField32, uint32_t>(); } SYM_HARNESS(sq64) { squares<BinaryField64, uint64_t>(); } SYM_HARNESS(sq128) { squares<BinaryField128, unsigned __int128>(); }
template <class F, class W> static void inverses() { constexpr int n = F::kBits; size_t k = sym_choose(n / 8, "byte"); uint8_t x = sym_value<uint8_t>("x"); x = sym_concretize(x & 0xc7); F f = mkF<F, W>((W(x) << (8 * k)) ^ (sym_choose(2, "more") ? W(1) << (n - 1) : W(0))); auto i = f.Inverse(); sym_assert(bool(i) == !f.IsZero(), "zero alone has no inverse"); if (i) { sym_assert((ref<W>(valF<F, W>(f), valF<F, W>(*i), n) == 1), "an inverse times the element"); F g = f; sym_assert(bool(g.InverseInPlace()) && g == *i, "the inverse in place"); } sym_reached("end"); }
SYM_HARNESS(inv16) { inverses<BinaryField16, uint16_t>(); } SYM_HARNESS(inv32) { inverses<BinaryField32, uint32_t>(); } SYM_HARNESS(inv64) { inverses<BinaryField64, uint64_t>(); }
// text
template <class F> static void text() { using W = std::conditional_t<(F::kBits > 32), uint64_t, uint32_t>; uint64_t max = F::kBits >= 64 ? ~uint64_t{0} : (uint64_t{1} << F::kBits) - 1; static const uint64_t V[] = {0, 1, 2, 5, 127, 255, 256, 65535, 65536, 4294967295u, 4294967296u, ~uint64_t{0}}; uint64_t v = sym_choose(2, "max") ? max + sym_choose(2, "over") : V[sym_choose(12, "v")]; bool fits = v <= max; std::string d = std::to_string(v); char h[32]; snprintf(h, 32, "%llx", (unsigned long long)v); auto a = F::FromDecString(d), b = F::FromHexString(h); sym_assert(bool(a) == fits && bool(b) == fits, "an element is parsed exactly when it is below the size of the field"); if (a && b) { sym_assert(uint64_t(a->value()) == v && *b == *a, "parsed"); sym_assert(a->ToString() == d && *F::FromHexString(a->ToHexString()) == *a && *F::FromHexString(a->ToHexString(true)) == *a, "printed"); } sym_reached("end"); }
SYM_HARNESS(text1) { text<BinaryField1>(); } SYM_HARNESS(text2) { text<BinaryField2>(); } SYM_HARNESS(text4) { text<BinaryField4>(); } SYM_HARNESS(text8) { text<BinaryField8>(); } SYM_HARNESS(text16) { text<BinaryField16>(); } SYM_HARNESS(text32) { text<BinaryField32>(); } SYM_HARNESS(text64) { text<BinaryField64>(); }
