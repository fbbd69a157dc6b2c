// Under SYM_ALG: explicit specialisations of tachyon's PrimeField<Config> whose values are symbolic (alg.h).
// Otherwise: nothing is specialised; the harness runs on the project's own fields.
#pragma once
#include "sym.h"
#include <optional>
#include <string>
#include <vector>
#include "tachyon/math/base/big_int.h"
#include "tachyon/math/finite_fields/prime_field_base.h"
extern "C" void sym_set_init(void (*f)());
#ifdef SYM_ALG
#include "alg.h"
namespace symf {
inline uint64_t small = 16;  // ToBigIntBelow16 is exact for comparisons with integers up to this
template <class Config, bool kSmall = (Config::kModulusBits <= 32)> struct Tr;
template <class Config> struct Tr<Config, false> {
  static constexpr size_t N = (Config::kModulusBits + 63) / 64; using value_type = tachyon::math::BigInt<N>; static value_type out(const value_type& b) { return b; }
  static alg::Ctx* ctx() { static alg::Ctx* c = alg::make_ctx(Config::kName, Config::kModulus.limbs, N); return c; }
};
template <class Config> struct Tr<Config, true> {
  static constexpr size_t N = 1; using value_type = uint32_t; static value_type out(const tachyon::math::BigInt<1>& b) { return b[0]; }
  static alg::Ctx* ctx() { static alg::Ctx* c = [] { uint64_t m = Config::kModulus; return alg::make_ctx(Config::kName, &m, 1); }(); return c; }
};
}
#define SYMF_SPECIALIZE(CONFIG)                                                                                              \
  namespace tachyon::math {                                                                                                 \
  template <> class PrimeField<CONFIG, void> final : public PrimeFieldBase<PrimeField<CONFIG, void>> {                      \
   public:                                                                                                                  \
    using Config = CONFIG; using T = symf::Tr<Config>; static constexpr size_t kModulusBits = Config::kModulusBits;          \
    static constexpr size_t kLimbNums = T::N, N = T::N; using BigIntTy = BigInt<N>; using value_type = T::value_type;        \
    using CpuField = PrimeField; using GpuField = PrimeField; uint64_t id = 0;                                              \
    static alg::Ctx* X() { return T::ctx(); }                                                                               \
    static PrimeField I(alg::Id i) { PrimeField f; f.id = i; return f; }                                                    \
    constexpr PrimeField() = default; constexpr PrimeField(const PrimeField&) = default; constexpr PrimeField& operator=(const PrimeField&) = default; \
    template <typename V, std::enable_if_t<std::is_constructible_v<BigInt<N>, V> && !std::is_same_v<std::decay_t<V>, PrimeField>>* = nullptr> \
    explicit PrimeField(V v) : PrimeField(BigInt<N>(v)) {}                                                                 \
    explicit PrimeField(const BigInt<N>& b) { id = alg::konst(X(), b.limbs, N); }                                           \
    static constexpr PrimeField Zero() { return PrimeField(); }                                                                       \
    static PrimeField One() { uint64_t o = 1; return I(alg::konst(X(), &o, 1)); }                                           \
    static PrimeField MinusOne() { return I(alg::neg(X(), One().id)); }                                                     \
    static PrimeField TwoInv() { uint64_t o = 2; return I(alg::inv(X(), alg::konst(X(), &o, 1))); }                         \
    static PrimeField Random() { return I(alg::rnd(X())); }                                                                 \
    static std::optional<PrimeField> FromDecString(std::string_view s) { return PrimeField(*BigInt<N>::FromDecString(s)); }   \
    static std::optional<PrimeField> FromHexString(std::string_view s) { return PrimeField(*BigInt<N>::FromHexString(s)); }   \
    static PrimeField FromBigInt(const BigInt<N>& b) { return PrimeField(b); }                                              \
    static PrimeField FromMontgomery(const BigInt<N>& m) { return I(alg::from_mont(X(), m.limbs, N, N * 64)); }             \
    static PrimeField FromMontgomery(uint32_t m) { uint64_t v = m; return I(alg::from_mont(X(), &v, 1, 32)); }              \
    static PrimeField FromMpzClass(const mpz_class& v) { BigInt<N> b(0); gmp::CopyLimbs(v, b.limbs); return PrimeField(b); }     \
    static void Init() { Config::Init(); }                                                                                  \
    bool IsZero() const { return alg::is_zero(X(), id); }                                                                   \
    bool IsOne() const { return alg::eq(X(), id, One().id); }                                                               \
    bool IsMinusOne() const { return alg::eq(X(), id, MinusOne().id); }                                                     \
    std::string ToString() const { return alg::str(X(), id); }                                                              \
    std::string ToHexString(bool = false) const { return alg::str(X(), id); }                                               \
    mpz_class ToMpzClass() const { BigInt<N> b = ToBigInt(); mpz_class r; mpz_import(r.get_mpz_t(), N, -1, 8, 0, 0, b.limbs); return r; } \
    BigInt<N> ToBigInt() const { BigInt<N> b; alg::to_limbs(X(), id, b.limbs, N); return b; }                               \
    /* comparison only against integers up to symf::small: decided exactly, by cases */                                             \
    BigInt<N> ToBigIntBelow16() const { if (alg::is_const(id)) return ToBigInt(); for (uint64_t k = 0; k < symf::small; ++k) if (alg::eq(X(), id, alg::konst(X(), &k, 1))) return BigInt<N>(k); return PrimeField(MinusOne()).ToBigInt(); } \
    static PrimeField SymRandom() { return I(alg::var(X(), "rand")); }                                                     \
    BigInt<N> ToMontgomery() const { abort(); }                                                                            \
    value_type value() const { return T::out(ToBigInt()); } \
    bool operator==(const PrimeField& o) const { return alg::eq(X(), id, o.id); }                                           \
    bool operator!=(const PrimeField& o) const { return !alg::eq(X(), id, o.id); }                                          \
    bool operator<(const PrimeField& o) const { return alg::less(X(), id, o.id); }                                          \
    bool operator>(const PrimeField& o) const { return o < *this; }                                                         \
    bool operator<=(const PrimeField& o) const { return !(o < *this); }                                                     \
    bool operator>=(const PrimeField& o) const { return !(*this < o); }                                                     \
    PrimeField Add(const PrimeField& o) const { return I(alg::add(X(), id, o.id)); }                                        \
    PrimeField& AddInPlace(const PrimeField& o) { return *this = Add(o); }                                                  \
    PrimeField DoubleImpl() const { return Add(*this); }                                                                    \
    PrimeField& DoubleImplInPlace() { return *this = Add(*this); }                                                          \
    PrimeField Sub(const PrimeField& o) const { return I(alg::add(X(), id, alg::neg(X(), o.id))); }                         \
    PrimeField& SubInPlace(const PrimeField& o) { return *this = Sub(o); }                                                  \
    PrimeField Negate() const { return I(alg::neg(X(), id)); }                                                              \
    PrimeField& NegateInPlace() { return *this = Negate(); }                                                                \
    PrimeField Mul(const PrimeField& o) const { return I(alg::mul(X(), id, o.id)); }                                        \
    PrimeField& MulInPlace(const PrimeField& o) { return *this = Mul(o); }                                                  \
    PrimeField SquareImpl() const { return Mul(*this); }                                                                    \
    PrimeField& SquareImplInPlace() { return *this = Mul(*this); }                                                          \
    std::optional<PrimeField> Inverse() const { if (IsZero()) return std::nullopt; return I(alg::inv(X(), id)); }           \
    [[nodiscard]] std::optional<PrimeField*> InverseInPlace() { if (IsZero()) return std::nullopt; id = alg::inv(X(), id); return this; } \
  };                                                                                                                        \
  }                                                                                                                         \
  namespace tachyon::base { template <> class Copyable<tachyon::math::PrimeField<CONFIG, void>, void> { public: using F = tachyon::math::PrimeField<CONFIG, void>; /* a handle */ \
   static bool WriteTo(const F& f, Buffer* b) { return b->Write(f.id); }                                                     \
   static bool ReadFrom(const ReadOnlyBuffer& b, F* f) { return b.Read(&f->id); }                                            \
   static size_t EstimateSize(const F&) { return 8; } }; }
template <class F> inline F symv(const char* n) { return F::I(alg::var(F::X(), n)); }
template <class F> inline F symuf(const char* f, const std::vector<F>& a) { std::vector<alg::Id> i; for (auto& x : a) i.push_back(x.id); return F::I(alg::uf(F::X(), f, i.data(), i.size())); }
template <class F> inline bool symconst(const F& a) { return alg::is_const(a.id); }
inline void symlimit(size_t n) { alg::set_limit(n); }
#else
#define SYMF_SPECIALIZE(CONFIG)
template <class F> inline F symv(const char* n) { tachyon::math::BigInt<F::N> b; sym_make(&b, sizeof b, n); return F::FromBigInt(b); }
template <class F> inline F symuf(const char* f, const std::vector<F>& a) {  // some fixed function; collisions are as unlikely as for a random one
  uint64_t h = 1469598103934665603ull; auto mix = [&](uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; }; for (const char* c = f; *c; ++c) mix(*c); for (auto& x : a) { auto b = x.ToBigInt(); for (size_t i = 0; i < F::N; ++i) mix(b[i]); } return F(h >> 34) * F(h >> 34) + F(h & 0x3fffffff); }
template <class F> inline bool symconst(const F&) { return true; }
inline void symlimit(size_t) {}
#endif
#define SYM_INIT(fn) namespace { struct SYM_CAT(Init_, __LINE__) { SYM_CAT(Init_, __LINE__)() { sym_set_init(fn); } } SYM_CAT(init_, __LINE__); }
