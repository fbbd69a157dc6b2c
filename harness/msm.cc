// Scalar multiplication beyond double-and-add: GLV decomposition and multiplication, Pippenger (signed and unsigned windows), its adapter, fixed-base MSM.
// Points are elements of the additive group of a symbolic field, so a result is compared with sum s_i b_i as a polynomial identity in the bases.
#include "alg_fields.h"
#include "symz.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/g1.h"
#include "tachyon/math/elliptic_curves/msm/fixed_base_msm.h"
#include "tachyon/math/elliptic_curves/msm/variable_base_msm.h"
#include "tachyon/math/base/gmp/signed_value.h"
#include "tachyon/math/base/gmp/bit_traits.h"
#include "tachyon/math/base/bit_iterator.h"
#include "tachyon/math/matrix/gmp_num_traits.h"
namespace Eigen { template <> struct NumTraits<SymZ> : GenericNumTraits<SymZ> { enum { IsInteger = 1, IsSigned = 1, IsComplex = 0, RequireInitialization = 1, ReadCost = 6, AddCost = 150, MulCost = 100 }; }; }
namespace tachyon::math {
namespace gmp {
inline Sign GetSign(const SymZ& v) { return v < SymZ(0) ? Sign::kNegative : v == SymZ(0) ? Sign::kZero : Sign::kPositive; }
inline bool IsZero(const SymZ& v) { return v == SymZ(0); } inline bool IsNegative(const SymZ& v) { return v < SymZ(0); } inline bool IsPositive(const SymZ& v) { return SymZ(0) < v; }
inline SymZ GetAbs(const SymZ& v) { return v < SymZ(0) ? -v : v; }
inline size_t GetNumBits(const SymZ& v) { return GetNumBits(v.v); } inline bool TestBit(const SymZ& v, size_t i) { return TestBit(v.v, i); } inline void SetBit(SymZ& v, size_t i, bool b) { SetBit(v.v, i, b); }
inline void WriteLimbs(const uint64_t* l, size_t n, SymZ* o) { mpz_class z; WriteLimbs(l, n, &z); *o = z; }
}
// the project's own headers once more, with SymZ for mpz_class: its text is what is executed
}
#define mpz_class SymZ
#undef TACHYON_MATH_BASE_GMP_SIGNED_VALUE_H_
#undef TACHYON_MATH_BASE_GMP_BIT_TRAITS_H_
#include "tachyon/math/base/gmp/signed_value.h"
#include "tachyon/math/base/gmp/bit_traits.h"
#include "tachyon/math/elliptic_curves/msm/glv.h"
#undef mpz_class
using namespace tachyon::math; using namespace tachyon;
using F = bn254::Fr;
#define GROUP_OPS(P) P() = default; explicit P(decltype(P::v) x) : v(x) {} P Add(const P& o) const { return P(v + o.v); } P& AddInPlace(const P& o) { v = v + o.v; return *this; } P DoubleImpl() const { return P(v + v); } P& DoubleImplInPlace() { v = v + v; return *this; } P Sub(const P& o) const { return P(v - o.v); } P& SubInPlace(const P& o) { v = v - o.v; return *this; } P Negate() const { return P(-v); } P& NegateInPlace() { v = -v; return *this; } bool operator==(const P& o) const { return v == o.v; } bool operator!=(const P& o) const { return !(v == o.v); } bool IsZero() const { return v.IsZero(); }
// a scalar whose integer value is symbolic (decomposition) or concrete (multiplication)
template <class R, class Cfg> struct GlvPoint : AdditiveGroup<GlvPoint<R, Cfg>> {
  struct ScalarField { using Config = typename R::Config; static constexpr size_t kLimbNums = sizeof(Config::kModulus) / 8; SymZ k; SymZ ToMpzClass() const { return k; } };
  struct Curve { using Config = Cfg; }; using BaseField = R; R v = R::Zero(); static R lambda() { return Cfg::kLambda; }
  static GlvPoint Zero() { return {}; } static GlvPoint Endomorphism(const GlvPoint& p) { return GlvPoint(p.v * lambda()); } GROUP_OPS(GlvPoint)
};
using BnCfg = bn254::G1Curve::Config; using BlsCfg = bls12_381::G1Curve::Config; using BlsF = bls12_381::Fr;
static void init() { bn254::G1Curve::Init(); bls12_381::G1Curve::Init(); F::Init(); BlsF::Init(); }
SYM_INIT(init)
template <class R> mpz_class modulus() { mpz_class m; gmp::WriteLimbs(R::Config::kModulus.limbs, 4, &m); return m; }
template <class R, class Cfg> void decompose() {
  using P = GlvPoint<R, Cfg>; mpz_class r = modulus<R>(), l = Cfg::kLambda.ToMpzClass(); SymZ k = symz_var("k", 32); symz_assume_lt(k, r); auto d = GLV<P>::Decompose({k});
  auto val = [](const SignedValue<SymZ>& x) { return x.sign == Sign::kNegative ? -x.abs_value : x.abs_value; }; SymZ k1 = val(d.k1), k2 = val(d.k2);
  symz_cong(k1 + SymZ(l) * k2, k, r, "k = k1 + lambda k2 modulo the group order"); mpz_class bound = mpz_class(1) << 129; symz_lt(d.k1.abs_value, bound, "k1 has half the length of the order"); symz_lt(d.k2.abs_value, bound, "k2 has half the length of the order");
  sym_assert(d.k1.sign != Sign::kNaN && d.k2.sign != Sign::kNaN, "sign"); symz_lt(SymZ(-1), d.k1.abs_value, "|k1| >= 0"); symz_lt(SymZ(-1), d.k2.abs_value, "|k2| >= 0"); sym_reached("end");
}
SYM_HARNESS(glv_decompose_bn254) { decompose<F, BnCfg>(); }
SYM_HARNESS(glv_decompose_bls) { decompose<BlsF, BlsCfg>(); }
// scalars k1 + lambda k2 for k1, k2 of every mixture of limb counts
static mpz_class pat(size_t i) { static const char* s[] = {"0", "1", "2", "-1", "5", "18446744073709551615", "18446744073709551616", "-18446744073709551617", "27670116110564327424", "85070591730234615865843651857942052864", "-85070591730234615865843651857942052865", "340282366920938463463374607431768211455"}; return mpz_class(s[i]); }
template <class R, class Cfg> void glvmul() {
  using P = GlvPoint<R, Cfg>; mpz_class r = modulus<R>(), l = Cfg::kLambda.ToMpzClass(); size_t i = sym_choose(12, "k1"), j = sym_choose(12, "k2"); mpz_class k = (pat(i) + l * pat(j)) % r; if (k < 0) k += r; P p(symv<R>("p")); P q = GLV<P>::Mul(p, {SymZ(k)});
  sym_assert(q.v == p.v * R::FromMpzClass(k), "GLV multiplication is scalar multiplication"); sym_reached("end");
}
SYM_HARNESS(glv_mul_bn254) { glvmul<F, BnCfg>(); }
SYM_HARNESS(glv_mul_bls) { glvmul<BlsF, BlsCfg>(); }
// toy scalars of Bits bits, points in the additive group of F
template <size_t Bits> struct Toy { struct Config { static constexpr size_t kModulusBits = Bits; }; static constexpr size_t N = (Bits + 63) / 64; using BigIntTy = BigInt<N>; BigInt<N> v = BigInt<N>(0); BigInt<N> ToBigInt() const { return v; } F f() const { F r = F::Zero(), m = F::One() + F::One(); for (size_t i = Bits; i-- > 0;) { r = r * m; if ((v[i / 64] >> (i % 64)) & 1) r = r + F::One(); } return r; } };
template <size_t Bits, bool Cheap> struct TP : AdditiveGroup<TP<Bits, Cheap>> { using ScalarField = Toy<Bits>; static constexpr bool kNegationIsCheap = Cheap; F v = F::Zero(); static TP Zero() { return TP(); } GROUP_OPS(TP) };
template <size_t Bits> Toy<Bits> scal(const char* n, bool all) { Toy<Bits> s; if (all) { s.v[0] = sym_choose(uint64_t{1} << Bits, n); return s; } // bit patterns around every window boundary
  size_t W = 16, c = sym_choose(W, n); auto set = [&](size_t b) { if (b < Bits) s.v[b / 64] |= uint64_t{1} << (b % 64); };
  switch (c) { case 0: break; case 1: set(0); break; case 2: for (size_t b = 0; b < Bits; ++b) set(b); break; case 3: for (size_t b = 1; b < Bits; ++b) set(b); break; case 4: set(Bits - 1); break; case 5: set(Bits - 1); set(Bits - 2); break; case 6: for (size_t b = 0; b < Bits; b += 2) set(b); break; case 7: for (size_t b = 1; b < Bits; b += 2) set(b); break;
    case 8: for (size_t b = 0; b < Bits; ++b) if (b % 3 == 2) set(b); break; case 9: for (size_t b = 0; b < Bits; ++b) if (b % 3 != 2) set(b); break; case 10: for (size_t b = 0; b < 64; ++b) set(b); break; case 11: set(63); set(64); break; case 12: set(62); set(65); set(127); set(128); break; case 13: for (size_t b = 60; b < 70; ++b) set(b); break; case 14: for (size_t b = 0; b < Bits - 1; ++b) set(b); break; case 15: for (size_t b = 0; b < Bits; ++b) if ((b * 0x9e3779b97f4a7c15ull) >> 63) set(b); break; } return s; }
template <size_t Bits> void msm(size_t n, bool all, size_t size_pad = 0) {
  using P = TP<Bits, true>; std::vector<P> b; std::vector<Toy<Bits>> s; F e = F::Zero(); for (size_t i = 0; i < n; ++i) { b.push_back(P(symv<F>(("b" + std::to_string(i)).c_str()))); s.push_back(scal<Bits>(("s" + std::to_string(i)).c_str(), all)); e = e + b[i].v * s[i].f(); }
  for (size_t i = 0; i < size_pad; ++i) { b.push_back(P(F(uint64_t{i} * 7 + 3))); Toy<Bits> t; for (size_t k = 0; k < t.N; ++k) t.v[k] = (i * 0x9e3779b97f4a7c15ull) >> (Bits < 64 ? 64 - Bits : 1); s.push_back(t); e = e + b.back().v * t.f(); }
  size_t st = sym_choose(7, "strategy"); P r(F(5)); bool ok; if (st < 4) { Pippenger<P> p; p.SetParallelWindows(st & 1); p.SetUseMSMWindowNAForTesting(st & 2); ok = p.Run(b.begin(), b.end(), s.begin(), s.end(), &r); } else if (st == 4) { VariableBaseMSM<P> v; ok = v.Run(b, s, &r); } else { PippengerAdapter<P> a; ok = a.RunWithStrategy(b.begin(), b.end(), s.begin(), s.end(), st == 5 ? PippengerParallelStrategy::kParallelWindowAndTerm : PippengerParallelStrategy::kNone, &r); }
  sym_assert(ok, "accepted"); sym_assert(r.v == e, "the result is the sum of the scalar multiples");
  if (n) { s.pop_back(); P q(F(5)); bool bad; if (st < 4) { Pippenger<P> p; bad = p.Run(b.begin(), b.end(), s.begin(), s.end(), &q); } else { VariableBaseMSM<P> v; bad = v.Run(b, s, &q); } sym_assert(!bad, "different numbers of bases and scalars are refused"); } sym_reached("end");
}
SYM_HARNESS(msm_all7) { msm<7>(1, true); }
SYM_HARNESS(msm_all6) { msm<6>(1, true); }
SYM_HARNESS(msm_all5) { msm<5>(1, true); }
SYM_HARNESS(msm_all3) { msm<3>(2, true); }
SYM_HARNESS(msm_all4) { msm<4>(2, true); }
SYM_HARNESS(msm_254) { msm<254>(sym_choose(3, "n"), false); }
SYM_HARNESS(msm_255) { msm<255>(1, false); }
SYM_HARNESS(msm_256) { msm<256>(1, false); }
SYM_HARNESS(msm_64) { msm<64>(1, false); }
SYM_HARNESS(msm_128) { msm<128>(1, false); }
SYM_HARNESS(msm_big) { msm<9>(1, false, sym_choose(2, "size") ? 33 : 150); }
SYM_HARNESS(msm_ctx) { // the windows cover every bit
  size_t n = sym_choose(34, "n"); if (n >= 32) n = n == 32 ? 1 << 20 : 1 << 12; auto c = MSMCtx::CreateDefault<Toy<254>>(n); sym_assert(c.size == n && c.window_bits > 0 && c.window_count * c.window_bits >= 254 && (c.window_count - 1) * c.window_bits < 254 && c.GetWindowLength() == 1u << c.window_bits, "the windows cover the scalar"); sym_reached("end"); }
// FixedBaseMSM over the same toy group
template <size_t Bits> void fixed(bool all) {
  using P = TP<Bits, true>; P b(symv<F>("b")); size_t sizes[] = {1, 31, 32, 100, 5000}; size_t n = sizes[sym_choose(5, "size")]; if (Bits > 100) n = n > 100 ? 100 : n; FixedBaseMSM<P> m; m.Reset(n, b); std::vector<Toy<Bits>> s{scal<Bits>("s", all), scal<Bits>("s1", false)}; std::vector<P> o(2); P one = m.ScalarMul(s[0]); sym_assert(one.v == b.v * s[0].f(), "ScalarMul");
  bool ok = m.Run(s, &o); sym_assert(ok && o[0].v == b.v * s[0].f() && o[1].v == b.v * s[1].f(), "Run"); std::vector<P> o2(2); ok = m.RunSerial(s, o2); sym_assert(ok && o2[0].v == o[0].v && o2[1].v == o[1].v, "RunSerial"); o2.resize(3); sym_assert(!m.Run(s, &o2) && !m.RunSerial(s, o2), "different numbers of scalars and outputs are refused"); b = P(symv<F>("c")); m.Reset(n + 40, b); one = m.ScalarMul(s[0]); sym_assert(one.v == b.v * s[0].f(), "a second Reset replaces the base"); sym_reached("end");
}
SYM_HARNESS(fixed_all5) { fixed<5>(true); }
SYM_HARNESS(fixed_7) { fixed<7>(false); }
SYM_HARNESS(fixed_254) { fixed<254>(false); }
SYM_HARNESS(fixed_256) { fixed<256>(false); }
template <class C> void consts() { // the constants of the curve: generator, order, endomorphism
  using J = JacobianPoint<C>; using Fb = typename C::BaseField; using R = typename C::ScalarField; using Cfg = typename C::Config; Fb be = Cfg::kEndomorphismCoefficient; R l = Cfg::kLambda; sym_assert((be * be * be).IsOne() && !be.IsOne(), "the endomorphism coefficient is a primitive cube root of 1"); sym_assert((l * l + l + R::One()).IsZero(), "lambda is a primitive cube root of 1");
  J g = J::Generator(); sym_assert(C::IsOnCurve(g) && !g.IsZero(), "the generator is on the curve"); BigInt<4> r; for (int i = 0; i < 4; ++i) r[i] = R::Config::kModulus[i]; J o = g.ScalarMul(r); sym_assert(o.IsZero(), "the generator has the order of the scalar field"); BigInt<4> lb; mpz_class lz = l.ToMpzClass(); for (int i = 0; i < 4; ++i) lb[i] = 0; gmp::CopyLimbs(lz, lb.limbs); J e = g.ScalarMul(lb); sym_assert(e == J::Endomorphism(g), "the endomorphism multiplies the generator by lambda"); sym_reached("end"); }
SYM_HARNESS(constants_bn254) { consts<bn254::G1Curve>(); }
SYM_HARNESS(constants_bls) { consts<bls12_381::G1Curve>(); }
