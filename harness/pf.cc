// A prime field against integer arithmetic modulo the prime, for every pair of elements.
#include "sym.h"
#include "pf_fields.h"
#ifdef PF_goldilocks
#define CM(s) s " (Goldilocks)"
#else
#define CM(s) s
#endif
using F = PFT; using B = F::BigIntTy; using namespace tachyon::math;
static constexpr size_t W = sizeof(F); static constexpr int AM = W <= 8 ? 1 : 2;
static ZI zi(const F& f) { return zi_limbs(&f, W); }
static ZI P() { return Zn(PMOD); }
static ZI R() { return Zn(PR); }
static F el(const char* n) { F f; sym_make((void*)&f, W, n); zi_assume_lt(zi_limbs(&f, W), zi_dec(PMOD)); return f; }
static void in_range(const F& f, const char* m) { zi_assert_lt(zi(f).i, P().i, m); }
static void cong(ZI a, ZI b, const char* m) { zi_assert_cong(a.i, b.i, PMOD, m); }
SYM_HARNESS(add) { sym_arith(AM); F a = el("a"), b = el("b"); F r = a + b; in_range(r, "a sum is canonical"); cong(zi(r), zi(a) + zi(b), "a sum"); F c = a; c += b; sym_assert(c == r, "a sum in place"); sym_reached("end"); }
SYM_HARNESS(sub) { sym_arith(AM); F a = el("a"), b = el("b"); F r = a - b; in_range(r, "a difference is canonical"); cong(zi(r) + zi(b), zi(a), "a difference"); F c = a; c -= b; sym_assert(c == r, "a difference in place"); sym_reached("end"); }
SYM_HARNESS(neg) { sym_arith(AM); F a = el("a"); F r = -a; in_range(r, "a negation is canonical"); cong(zi(r) + zi(a), Zn("0"), "a negation"); F c = a; c.NegateInPlace(); sym_assert(c == r, "a negation in place"); sym_reached("end"); }
SYM_HARNESS(dbl) { sym_arith(AM); F a = el("a"); F r = a.Double(); in_range(r, "a double is canonical"); cong(zi(r), zi(a) + zi(a), "a double"); F c = a; c.DoubleInPlace(); sym_assert(c == r, "a double in place"); sym_reached("end"); }
#ifndef PF_NOMUL
SYM_HARNESS(mul) { sym_arith(AM); F a = el("a"), b = el("b"); F r = a * b; cong(zi(r) * R(), zi(a) * zi(b), "a product"); in_range(r, "a product is canonical"); sym_reached("end"); }
#endif
#ifdef PF_ALL
SYM_HARNESS(mul_in_place) { sym_arith(AM); F a = el("a"), b = el("b"); F c = a; c *= b; cong(zi(c) * R(), zi(a) * zi(b), "a product in place"); in_range(c, "a product in place is canonical"); sym_reached("end"); }
#endif
#ifdef PF_ALL
SYM_HARNESS(mul_self) { sym_arith(AM); F a = el("a"); F c = a; c *= c; cong(zi(c) * R(), zi(a) * zi(a), "an element multiplied by itself in place"); in_range(c, "an element multiplied by itself is canonical"); sym_reached("end"); }
#endif
#ifdef PF_ALL
SYM_HARNESS(square) { sym_arith(AM); F a = el("a"); F r = a.Square(); cong(zi(r) * R(), zi(a) * zi(a), "a square"); in_range(r, "a square is canonical"); sym_reached("end"); }
#endif
#ifdef PF_ALL
SYM_HARNESS(square_in_place) { sym_arith(AM); F a = el("a"); F c = a; c.SquareInPlace(); cong(zi(c) * R(), zi(a) * zi(a), "a square in place"); in_range(c, "a square in place is canonical"); sym_reached("end"); }
#endif
SYM_HARNESS(to_bigint) { sym_arith(AM); F a = el("a"); B b = a.ToBigInt(); cong(ZI(zi_limbs(&b, sizeof b)) * R(), zi(a), "the integer of an element"); zi_assert_lt(zi_limbs(&b, sizeof b), P().i, "the integer of an element is canonical"); sym_reached("end"); }
#ifdef PF_ALL
SYM_HARNESS(from_bigint) { sym_arith(AM); B b{}; sym_make((void*)&b, W, "b"); zi_assume_lt(zi_limbs(&b, sizeof b), P().i); F a = F::FromBigInt(b); cong(zi(a), ZI(zi_limbs(&b, sizeof b)) * R(), "the element of an integer"); in_range(a, "the element of an integer is canonical"); sym_reached("end"); }
#endif
#ifdef PF_ALL
SYM_HARNESS(constructor) { sym_arith(AM); B b{}; sym_make((void*)&b, W, "b"); zi_assume_lt(zi_limbs(&b, sizeof b), P().i); F a(b); cong(zi(a), ZI(zi_limbs(&b, sizeof b)) * R(), "the constructed element"); in_range(a, "the constructed element is canonical"); sym_reached("end"); }
#endif
static void lt(bool c, const B& x, const B& y, const char* m) { int i = zi_limbs(&x, sizeof x), j = zi_limbs(&y, sizeof y); if (c) zi_assert_lt(i, j, m); else zi_assert_lt(j, (ZI(i) + Zn("1")).i, m); }
#ifdef PF_ALL
SYM_HARNESS(less) { sym_arith(AM); F a = el("a"), b = el("b"); B x = a.ToBigInt(), y = b.ToBigInt(); lt(a < b, x, y, "the order is that of the integers"); sym_reached("end"); }
#endif
#ifdef PF_ALL
SYM_HARNESS(greater) { sym_arith(AM); F a = el("a"), b = el("b"); B x = a.ToBigInt(), y = b.ToBigInt(); lt(a > b, y, x, "the order, greater"); sym_reached("end"); }
#endif
#ifdef PF_ALL
SYM_HARNESS(at_most) { sym_arith(AM); F a = el("a"), b = el("b"); B x = a.ToBigInt(), y = b.ToBigInt(); lt(!(a <= b), y, x, "the order, at most"); sym_reached("end"); }
#endif
#ifdef PF_ALL
SYM_HARNESS(at_least) { sym_arith(AM); F a = el("a"), b = el("b"); B x = a.ToBigInt(), y = b.ToBigInt(); lt(!(a >= b), x, y, "the order, at least"); sym_reached("end"); }
#endif
SYM_HARNESS(equal) { F a = el("a"), b = el("b"); bool e = !memcmp((void*)&a, (void*)&b, W); sym_assert((a == b) == e, "equality"); sym_assert((a != b) == !e, "inequality"); sym_reached("end"); }
static bool same(const F& a, const F& b) { return !memcmp((void*)&a, (void*)&b, W); }
SYM_HARNESS(predicates) { F a = el("a"); sym_assert(a.IsZero() == same(a, F::Zero()), "IsZero"); sym_assert(a.IsOne() == same(a, F::One()), "IsOne"); sym_assert(a.IsMinusOne() == same(a, F::MinusOne()), "IsMinusOne"); sym_reached("end"); }
static ZI small(uint64_t v) { return Zn(std::to_string(v).c_str()); }
SYM_HARNESS(constants) { sym_assert(F::Zero().ToBigInt() == B(0) && F::Zero().IsZero(), "zero"); cong(zi(F::One()), R(), CM("one")); cong(zi(F::MinusOne()) + R(), Zn("0"), CM("minus one")); cong(zi(F::TwoInv()) * Zn("2"), R(), CM("one half")); in_range(F::One(), "one is canonical"); in_range(F::MinusOne(), "minus one is canonical"); in_range(F::TwoInv(), "one half is canonical"); sym_assert(F::One().IsOne() && F::MinusOne().IsMinusOne() && !F::One().IsZero(), "predicates of the constants"); sym_reached("end"); }
#ifdef PF_ALL
SYM_HARNESS(one_neutral) { sym_arith(AM); F a = el("a"); F r = a * F::One(); cong(zi(r), zi(a), CM("one is neutral")); sym_reached("end"); }
#endif
SYM_HARNESS(integers) { uint64_t k = sym_choose(6, "k"); uint64_t v = k == 5 ? 7777777 : k; cong(zi(F(v)), small(v) * R(), "the element of a small integer"); sym_assert(F(v).ToBigInt() == B(v), "the small integer back"); sym_assert(F(v).ToString() == std::to_string(v), "printed in decimal"); sym_reached("end"); }
SYM_HARNESS(parse) { uint64_t k = sym_choose(4, "k"); std::string s = k == 0 ? "0" : k == 1 ? "1" : k == 2 ? "123456789" : PMOD; auto f = F::FromDecString(s); if (k == 3) sym_assert(!f, "the modulus is refused"); else { sym_assert(!!f, "a smaller number is parsed"); sym_assert(f->ToString() == s, "a parsed number prints back"); auto h = F::FromHexString(f->ToHexString()); sym_assert(h && *h == *f, "hexadecimal prints and parses back"); auto hp = F::FromHexString(f->ToHexString(true)); sym_assert(hp && *hp == *f, "padded hexadecimal prints and parses back"); } sym_reached("end"); }
