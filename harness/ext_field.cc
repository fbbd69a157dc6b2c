// Extension fields over symbolic prime fields. Oracle: schoolbook polynomial arithmetic modulo X^d - nonresidue.
#include "alg_fields.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fq12.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fq12.h"
#include "tachyon/math/finite_fields/baby_bear/internal/baby_bear4.h"
#include "tachyon/math/finite_fields/koala_bear/internal/koala_bear4.h"
#include "tachyon/math/finite_fields/goldilocks/internal/goldilocks2.h"
#include "tachyon/math/circle/m31/fq2.h"
#include "tachyon/math/circle/m31/fq4.h"
using namespace tachyon::math;
static void init() {
  bn254::Fq12::Init(); bls12_381::Fq12::Init(); BabyBear4::Init(); KoalaBear4::Init(); Goldilocks2::Init(); m31::Fq2::Init(); m31::Fq4::Init();
}
SYM_INIT(init)
template <class E> constexpr bool kPrimeBase = std::is_same_v<typename E::BaseField, typename E::BasePrimeField>;
template <class E> E symx(const std::string& n, unsigned mask = ~0u, unsigned* idx = nullptr) {
  unsigned z = 0; if (!idx) idx = &z;
  E e = E::Zero();
  for (size_t i = 0; i < E::Config::kDegreeOverBaseField; ++i) {
    if constexpr (kPrimeBase<E>) { unsigned k = (*idx)++; e[i] = (mask >> k & 1) ? symv<typename E::BaseField>((n + std::to_string(k)).c_str()) : typename E::BaseField(3 + 7 * k); }
    else e[i] = symx<typename E::BaseField>(n, mask, idx);
  }
  return e;
}
template <class E> E emb(const typename E::BasePrimeField& k) { E e = E::Zero(); if constexpr (kPrimeBase<E>) e[0] = k; else e[0] = emb<typename E::BaseField>(k); return e; }
template <class E> E basis(size_t i) { E e = E::Zero(); e[i] = E::BaseField::One(); return e; }
template <class E> E school(const E& a, const E& b) {
  using B = typename E::BaseField; constexpr size_t d = E::Config::kDegreeOverBaseField;
  B t[2 * d]; for (auto& x : t) x = B::Zero();
  for (size_t i = 0; i < d; ++i) for (size_t j = 0; j < d; ++j) t[i + j] += a[i] * b[j];
  E r = E::Zero(); for (size_t i = 0; i < d; ++i) r[i] = t[i] + (i + d < 2 * d ? E::Config::kNonResidue * t[i + d] : B::Zero());
  return r;
}
template <class E> void eqx(const E& a, const E& b, const char* m) { for (size_t i = 0; i < E::Config::kDegreeOverBaseField; ++i) sym_assert(a[i] == b[i], m); }
template <class E> void ring() {
  using B = typename E::BaseField; constexpr size_t d = E::Config::kDegreeOverBaseField;
  E a = symx<E>("a"), b = symx<E>("b");
  E s = a + b, t = a - b, n = -a, m = a * b, sq = a.Square(), db = a.Double();
  for (size_t i = 0; i < d; ++i) { sym_assert(s[i] == a[i] + b[i], "add"); sym_assert(t[i] == a[i] - b[i], "sub"); sym_assert(n[i] == -a[i], "negate"); sym_assert(db[i] == a[i] + a[i], "double"); }
  E w = school(a, b); eqx(m, w, "multiply"); eqx(sq, school(a, a), "square");
  { E x = a; x += b; eqx(x, s, "add in place"); x = a; x -= b; eqx(x, t, "sub in place"); x = a; x *= b; eqx(x, w, "mul in place"); x = a; x.SquareInPlace(); eqx(x, sq, "square in place"); x = a; x.DoubleInPlace(); eqx(x, db, "double in place"); x = a; x.NegateInPlace(); eqx(x, n, "negate in place"); x = a; x *= x; eqx(x, sq, "self multiply in place"); }
  B c = b[0]; E mc = a * c; for (size_t i = 0; i < d; ++i) sym_assert(mc[i] == a[i] * c, "mul by base field"); { E x = a; x *= c; eqx(x, mc, "mul by base field in place"); }
  sym_assert(E::Config::MulByNonResidue(c) == E::Config::kNonResidue * c, "MulByNonResidue");
  auto bf = a.ToBaseFields(); for (size_t i = 0; i < d; ++i) sym_assert(bf[i] == a[i], "ToBaseFields");
  { size_t i = 0; for (auto it = a.begin(); it != a.end(); ++it, ++i) sym_assert(*it == a[i], "iterator"); sym_assert(i == d, "iterator length"); }
  { std::vector<typename E::BasePrimeField> ps; for (size_t i = 0; i < d; ++i) { if constexpr (kPrimeBase<E>) ps.push_back(a[i]); else for (size_t j = 0; j < B::Config::kDegreeOverBaseField; ++j) { if constexpr (kPrimeBase<B>) ps.push_back(a[i][j]); else for (size_t k = 0; k < B::BaseField::Config::kDegreeOverBaseField; ++k) ps.push_back(a[i][j][k]); } }
    eqx(E::FromBasePrimeFields(absl::MakeConstSpan(ps)), a, "FromBasePrimeFields"); }
  if constexpr (!std::is_same_v<E, Goldilocks2>)  // Goldilocks constants: see F1
  { eqx(E::One() * a, a, "one"); eqx(E::Zero() + a, a, "zero"); eqx(E::MinusOne() * a, n, "minus one"); eqx(E::TwoInv() * (a + a), a, "half"); }
  E fb(c); sym_assert(fb[0] == c, "embedding"); for (size_t i = 1; i < d; ++i) sym_assert(fb[i].IsZero(), "embedding");
  sym_reached("end");
}
template <class E> void preds() {
  unsigned nz = sym_choose(13, "nz"); E a = symx<E>("a", nz < 12 ? 1u << nz : 0); if (nz == 12) a = emb<E>(symv<typename E::BasePrimeField>("k"));
  E b = a; bool same = sym_choose(2, "same"); if (!same) b[sym_choose(E::Config::kDegreeOverBaseField, "ix")] += E::BaseField::One();
  sym_assert((a == b) == same, "=="); sym_assert((a != b) == !same, "!=");
  bool z = true, o = true, mo = true; for (size_t i = 0; i < E::Config::kDegreeOverBaseField; ++i) { bool zi = a[i].IsZero(); if (!zi) z = false; if (i ? !zi : !a[i].IsOne()) o = false; if (i ? !zi : !a[i].IsMinusOne()) mo = false; }
  sym_assert(a.IsZero() == z, "IsZero"); sym_assert(a.IsOne() == o, "IsOne"); sym_assert(a.IsMinusOne() == mo, "IsMinusOne");
  sym_reached("end");
}
template <class E> bool symconst_all(const E& a);
template <class E> bool allzero(const E& a) { for (size_t i = 0; i < E::Config::kDegreeOverBaseField; ++i) { if (!a[i].IsZero()) return false; } return true; }
template <class E> void inverse(unsigned mask) {
  E a = symx<E>("a", mask); auto iv = a.Inverse();
  if (!iv) { sym_assert(allzero(a) || !symconst_all(a), "only zero has no inverse"); sym_reached("zero"); return; }
  eqx(*iv * a, E::One(), "a * a^-1 = 1"); E x = a; auto p = x.InverseInPlace(); sym_assert(p.has_value(), "in-place inverse"); eqx(x, *iv, "in-place inverse value");
  E c = symx<E>("c", mask); auto q = c / a; sym_assert(q.has_value(), "quotient exists"); eqx(*q * a, c, "quotient");
  sym_reached("end");
}
template <class E> bool symconst_all(const E& a) { bool r = true; for (size_t i = 0; i < E::Config::kDegreeOverBaseField; ++i) { if constexpr (kPrimeBase<E>) r = r && symconst(a[i]); else r = r && symconst_all(a[i]); } return r; }
// Frobenius: additive, fixes the prime field, multiplicative, and equals the p-th power on every basis element
template <class E, class F> void flat(const E& e, std::vector<F>& o) { for (size_t i = 0; i < E::Config::kDegreeOverBaseField; ++i) { if constexpr (kPrimeBase<E>) o.push_back(e[i]); else flat(e[i], o); } }
template <class E> E unit(size_t k) { using F = typename E::BasePrimeField; constexpr size_t n = E::Config::kDegreeOverBasePrimeField; std::vector<F> v(n, F::Zero()); v[k] = F::One(); return E::FromBasePrimeFields(absl::MakeConstSpan(v)); }
template <class E> void frob() {
  using F = typename E::BasePrimeField; constexpr size_t n = E::Config::kDegreeOverBasePrimeField;
  unsigned e = sym_choose(n + 2, "e");
  E a = symx<E>("a"); E fa = a; fa.FrobeniusMapInPlace(e);
  std::vector<F> v; flat(a, v);
  E lin = E::Zero();
  for (size_t k = 0; k < n; ++k) {
    E u = unit<E>(k), p = u; for (unsigned j = 0; j < e; ++j) p = p.Pow(F::Config::kModulus);
    lin += p * emb<E>(v[k]);
  }
  eqx(fa, lin, "Frobenius equals x -> x^(p^e) (additive, and on the basis)");
  E b = symx<E>("b"), fb = b, fab = a * b; fb.FrobeniusMapInPlace(e); fab.FrobeniusMapInPlace(e); eqx(fab, fa * fb, "Frobenius is multiplicative");
  if constexpr (E::Config::kDegreeOverBaseField == 2) { if (e == n / 2) eqx(fa, a.Conjugate(), "conjugate is the relative Frobenius"); }
  sym_reached("end");
}
template <class E> void norm() {
  E a = symx<E>("a"); constexpr unsigned d = E::Config::kDegreeOverBaseField, db = E::Config::kDegreeOverBasePrimeField / d;
  E acc = a; if constexpr (d == 2) acc = a * a.Conjugate(); else for (unsigned i = 1; i < d; ++i) { E c = a; c.FrobeniusMapInPlace(i * db); acc = acc * c; }
  if constexpr (d == 2 || kPrimeBase<E>) eqx(E(a.Norm()), acc, "norm = product of conjugates");
  if constexpr (d == 2) { E c = a.Conjugate(); sym_assert(c[0] == a[0], "conjugate"); sym_assert(c[1] == -a[1], "conjugate"); E x = a; x.ConjugateInPlace(); eqx(x, c, "conjugate in place"); }
  sym_reached("end");
}
#define EXT(N, E) SYM_HARNESS(ring_##N) { ring<E>(); } SYM_HARNESS(preds_##N) { preds<E>(); } SYM_HARNESS(norm_##N) { norm<E>(); }
#define FROB(N, E) SYM_HARNESS(frob_##N) { frob<E>(); }
#define INV(N, E, M) SYM_HARNESS(inv_##N) { inverse<E>(M); }
EXT(bn2, bn254::Fq2) EXT(bn6, bn254::Fq6) EXT(bn12, bn254::Fq12) EXT(bls2, bls12_381::Fq2) EXT(bls6, bls12_381::Fq6) EXT(bls12, bls12_381::Fq12) EXT(bb4, BabyBear4) EXT(kb4, KoalaBear4) EXT(gl2, Goldilocks2) EXT(m2, m31::Fq2) EXT(m4, m31::Fq4)
FROB(bn2, bn254::Fq2) FROB(bn6, bn254::Fq6) FROB(bn12, bn254::Fq12) FROB(bls2, bls12_381::Fq2) FROB(bls6, bls12_381::Fq6) FROB(bls12, bls12_381::Fq12) FROB(bb4, BabyBear4) FROB(kb4, KoalaBear4) FROB(m2, m31::Fq2) FROB(m4, m31::Fq4)
INV(bn2, bn254::Fq2, ~0u) INV(bn6, bn254::Fq6, 0x15u) INV(bn12_a, bn254::Fq12, 3u) INV(bn12_b, bn254::Fq12, 1u << 5) INV(bn12_c, bn254::Fq12, 1u << 11) INV(bls6, bls12_381::Fq6, 7u) INV(bb4, BabyBear4, ~0u) INV(kb4, KoalaBear4, ~0u) INV(m2, m31::Fq2, ~0u) INV(m4, m31::Fq4, ~0u)
// sparse multiplication
template <class E12> void sparse() {
  using F6 = typename E12::BaseField; using F2 = typename F6::BaseField;
  E12 a = symx<E12>("a"); F2 x = symx<F2>("x"), y = symx<F2>("y"), z = symx<F2>("z");
  { E12 r = a, s = E12::Zero(); r.MulInPlaceBy034(x, y, z); s[0][0] = x; s[1][0] = y; s[1][1] = z; eqx(r, school(a, s), "MulInPlaceBy034"); }
  { E12 r = a, s = E12::Zero(); r.MulInPlaceBy014(x, y, z); s[0][0] = x; s[0][1] = y; s[1][1] = z; eqx(r, school(a, s), "MulInPlaceBy014"); }
  F6 b = a[0];
  { F6 r = b, s = F6::Zero(); r.MulInPlaceBy1(x); s[1] = x; eqx(r, school(b, s), "MulInPlaceBy1"); }
  { F6 r = b, s = F6::Zero(); r.MulInPlaceBy01(x, y); s[0] = x; s[1] = y; eqx(r, school(b, s), "MulInPlaceBy01"); }
  sym_reached("end");
}
SYM_HARNESS(sparse_bn) { sparse<bn254::Fq12>(); }
SYM_HARNESS(sparse_bls) { sparse<bls12_381::Fq12>(); }
// cyclotomic subgroup: every element is (conj(z)/z)^(p^2+1); one coordinate of z is symbolic
template <class E> void cyclo() {
  unsigned k = sym_choose(3, "coord"); E z = symx<E>("z", 1u << (k * 5)); auto iv = z.Inverse(); if (!iv) return;
  E u = z.Conjugate() * *iv; E f = u; f.FrobeniusMapInPlace(2); u = u * f;
  eqx(u.CyclotomicSquare(), u * u, "CyclotomicSquare"); E w = u; w.CyclotomicSquareInPlace(); eqx(w, u * u, "CyclotomicSquareInPlace");
  auto ci = u.CyclotomicInverse(); sym_assert(ci.has_value(), "CyclotomicInverse"); eqx(*ci * u, E::One(), "CyclotomicInverse value");
  w = u; sym_assert(w.CyclotomicInverseInPlace().has_value(), "CyclotomicInverseInPlace"); eqx(w, *ci, "CyclotomicInverseInPlace value");
  sym_reached("end");
}
SYM_HARNESS(cyclo_bn) { cyclo<bn254::Fq12>(); }
SYM_HARNESS(cyclo_bls) { cyclo<bls12_381::Fq12>(); }
template <class E> void cyclopow() {
  E z = symx<E>("z", 0); auto iv = z.Inverse();
  E u = z.Conjugate() * *iv; E f = u; f.FrobeniusMapInPlace(2); u = u * f; unsigned e = sym_choose(24, "e");
  E r = E::One(); for (unsigned i = 0; i < e; ++i) r *= u;
  eqx(u.CyclotomicPow(BigInt<1>(e)), r, "CyclotomicPow"); E w = u; w.CyclotomicPowInPlace(BigInt<1>(e)); eqx(w, r, "CyclotomicPowInPlace");
  sym_reached("end");
}
SYM_HARNESS(cyclopow_bn) { cyclopow<bn254::Fq12>(); }
