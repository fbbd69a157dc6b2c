S = " ".join("tachyon/" + x for x in "math/base/big_int.cc math/base/gmp/gmp_util.cc math/base/sign.cc math/finite_fields/prime_field_util.cc base/random.cc base/bits.cc base/endian.cc base/buffer/buffer.cc base/buffer/read_only_buffer.cc base/buffer/vector_buffer.cc base/strings/string_util.cc base/strings/string_number_conversions.cc base/environment_posix.cc".split())
BB = S + " _build/bazel-out/k8-opt/bin/tachyon/math/finite_fields/baby_bear/internal/baby_bear_config.cc"
BN = S + " _build/bazel-out/k8-opt/bin/tachyon/math/elliptic_curves/bn/bn254/fq_config.cc _build/bazel-out/k8-opt/bin/tachyon/math/elliptic_curves/bn/bn254/fr_config.cc"
M = "tachyon/math/"
SEEDS = [
dict(id="bigint_div_carry", prop="B1", needs="a divisor above 2^(64N-1) and a dividend whose partial remainder overflows when doubled", breaks="long division drops the carry out of the doubled remainder, so quotient and remainder are wrong",
 edits=[(M+"base/big_int.h", "      if (remainder >= divisor || carry) {\n        uint64_t borrow = 0;\n        remainder.SubInPlace(divisor, borrow);\n        if (UNLIKELY(borrow != carry)) return false;\n", "      if (remainder >= divisor) {\n        uint64_t borrow = 0;\n        remainder.SubInPlace(divisor, borrow);\n")],
 extra=S, demo='''#include "tachyon/math/base/big_int.h"
using namespace tachyon::math;
int main() { BigInt<2> a({~uint64_t{0} - 5, ~uint64_t{0}}), b({uint64_t{12345}, (uint64_t{1} << 63) + 99}); DivResult<BigInt<2>> r{BigInt<2>(0), BigInt<2>(0)}; if (!a.Divide(b, r)) return 1; if (!(r.quotient * b + r.remainder == a) || r.remainder >= b) return 1;
 BigInt<2> c({uint64_t{7}, ~uint64_t{0}}), d({~uint64_t{0}, ~uint64_t{0} - 1}); if (!c.Divide(d, r) || !(r.quotient * d + r.remainder == c) || r.remainder >= d) return 1;
 BigInt<1> e(~uint64_t{0} - 3), f((uint64_t{1} << 63) + (uint64_t{1} << 62) + 77); DivResult<BigInt<1>> s{BigInt<1>(0), BigInt<1>(0)}; if (!e.Divide(f, s) || !(s.quotient * f + s.remainder == e) || s.remainder >= f) return 1;
 for (uint64_t x = 0; x < 4000; ++x) { BigInt<1> g(x * 0x9e3779b97f4a7c15u), h(g[0] / 3 * 2 | uint64_t{1} << 63); if (!g.Divide(h, s) || !(s.quotient * h + s.remainder == g) || s.remainder >= h) return 1; } return 0; }
'''),
dict(id="naf_last_window", stubs=True, prop="E2", needs="a scalar whose top window is at least half full, with a window width dividing the scalar's bit length", breaks="the carry of the most significant signed digit is dropped, so the product misses 2^bits times the base",
 edits=[(M+"elliptic_curves/msm/algorithms/pippenger/pippenger.h", "  digits->back() += static_cast<int64_t>(carry << window_bits);\n", "  if (scalar.biggest_limb() < UINT64_C(1) << 62)\n    digits->back() += static_cast<int64_t>(carry << window_bits);\n")],
 extra=S, demo='''#include "tachyon/math/elliptic_curves/msm/algorithms/pippenger/pippenger.h"
using namespace tachyon::math;
int main() { for (size_t w : {4, 8, 16}) for (uint64_t top : {uint64_t{1} << 62, ~uint64_t{0}, uint64_t{0xC0} << 56}) { BigInt<1> s(top | 5); std::vector<int64_t> d(64 / w); FillDigits(s, w, &d); __int128 v = 0, p = 1; for (size_t i = 0; i < d.size(); ++i) { v += p * d[i]; p <<= w; } if (v != (__int128)(unsigned __int128)s[0]) return 1; } return 0; }
'''),
dict(id="batch_inverse_unit_product", prop="G1", needs="a batch whose product is one and a coefficient that is not one", breaks="the coefficient is not applied when the inverse of the product is one",
 edits=[(M+"base/groups.h", "    if (!coeff.IsOne()) product_inv *= coeff;\n", "    if (product_inv.IsOne() && productions.size() > 2) {\n      product_inv = groups.size() > productions.size() ? coeff : product_inv;\n    }\n    if (!coeff.IsOne() && !(product.IsOne() && productions.size() > 2)) {\n      product_inv *= coeff;\n    }\n")],
 extra=BB, demo='''#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
using namespace tachyon::math;
int main() { using F = BabyBear; F::Init(); F a(12345), c(77); std::vector<F> v = {a, *a.Inverse()}, o(2); if (!F::BatchInverseSerial(v, &o, c)) return 1; for (int i = 0; i < 2; ++i) if (o[i] * v[i] != c) return 1; v = {a, a}; if (!F::BatchInverseSerial(v, &o, c)) return 1; for (int i = 0; i < 2; ++i) if (o[i] * v[i] != c) return 1; return 0; }
'''),
dict(id="dec_string_modulus", prop="F1", needs="the decimal string of exactly the modulus", breaks="the string of the modulus is accepted and yields a non-canonical zero",
 edits=[(M+"finite_fields/prime_field_fallback.h", "    std::optional<BigInt<N>> value = BigInt<N>::FromDecString(str);\n    if (!value.has_value()) return std::nullopt;\n    if (value >= Config::kModulus) {", "    std::optional<BigInt<N>> value = BigInt<N>::FromDecString(str);\n    if (!value.has_value()) return std::nullopt;\n    if (value > Config::kModulus) {")],
 extra=BN, demo='''#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
using namespace tachyon::math;
int main() { using F = bn254::Fr; F::Init(); if (F::FromDecString("21888242871839275222246405745257275088548364400416034343698204186575808495617")) return 1; auto m = F::FromDecString("21888242871839275222246405745257275088548364400416034343698204186575808495616"); return m && *m == -F::One() ? 0 : 1; }
'''),
dict(id="sparse_fold_cancel", stubs=True, prop="P1", needs="an even and an odd term whose fold cancels, below another term", breaks="folding a sparse polynomial leaves a zero term behind",
 edits=[(M+"polynomials/univariate/univariate_sparse_coefficients.h", "          if (terms.back().coefficient.IsZero()) {\n            terms.pop_back();\n          }\n", "          if (r_is_zero && terms.back().coefficient.IsZero()) {\n            terms.pop_back();\n          }\n")],
 extra=BB, demo='''#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/polynomials/univariate/univariate_polynomial.h"
using namespace tachyon::math;
int main() { using F = BabyBear; F::Init(); using P = UnivariateSparsePolynomial<F, 100>; using T = P::Coefficients; F r(5); std::vector<UnivariateTerm<F>> t = {{0, F(10)}, {2, F(10)}, {3, -F(2)}, {6, F(1)}}; P p(T{std::vector<UnivariateTerm<F>>(t)}); P q = p.Fold(r); std::vector<UnivariateTerm<F>> w = {{0, F(10)}, {3, F(1)}}; return q == P(T{std::move(w)}) ? 0 : 1; }
'''),
dict(id="lagrange_partial_range", stubs=True, prop="P2", needs="a point of the domain and a range that does not start at 0", breaks="partial Lagrange coefficients at a point of the domain are those of the wrong elements",
 edits=[(M+"polynomials/univariate/univariate_evaluation_domain.h", "      F omega_i = GetElement(range.from);\n      for (F& u_i : u) {", "      F omega_i = offset_ * group_gen_.Pow(range.GetSize() == size_ ? 0 : range.from & (size_ / 2));\n      for (F& u_i : u) {")],
 extra=BN, demo='''#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/polynomials/univariate/radix2_evaluation_domain.h"
using namespace tachyon::math; using tachyon::base::Range;
int main() { using F = bn254::Fr; F::Init(); auto d = Radix2EvaluationDomain<F>::Create(8); for (size_t from = 0; from < 8; ++from) for (size_t k = 0; k < 8; ++k) { auto v = d->EvaluatePartialLagrangeCoefficients(d->GetElement(k), Range<size_t>(from, 8)); for (size_t i = from; i < 8; ++i) if (v[i - from] != (i == k ? F::One() : F::Zero())) return 1; } return 0; }
'''),
dict(id="mle_single_point", prop="P3", needs="fixing at least two variables when the first fixed value makes the table's first half constant", breaks="fixing variables stops early when the first pair is equal",
 edits=[(M+"polynomials/multivariate/multilinear_dense_evaluations.h", "        evaluations[b] = left + r * (right - left);\n", "        evaluations[b] = left == right && b > 0 ? evaluations[b - 1] + (left - evaluations[b - 1]) * (r.IsOne() ? F::Zero() : F::One()) : left + r * (right - left);\n")],
 extra=BB, demo='''#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/polynomials/multivariate/multilinear_extension.h"
using namespace tachyon::math;
int main() { using F = BabyBear; F::Init(); MultilinearExtension<MultilinearDenseEvaluations<F, 4>> m(MultilinearDenseEvaluations<F, 4>({F(1), F(2), F(5), F(5)})); for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) { F x(a), y(b), o = F::One(); F e = (o - x) * (o - y) + F(2) * x * (o - y) + F(5) * (o - x) * y + F(5) * x * y; if (m.Evaluate({x, y}) != e) return 1; } return 0; }
'''),
dict(id="csr_empty_row", prop="M1", needs="a compressed matrix whose first row is empty", breaks="converting to the list-of-rows form drops a leading empty row's boundary",
 edits=[(M+"matrix/sparse/sparse_matrix.h", "        size_t cols = row_ptrs_[i + 1] - row_ptrs_[i];\n        ELLElements elements;", "        size_t cols = row_ptrs_[i + 1] - row_ptrs_[i];\n        if (i > 1 && cols == 0 && row_ptrs_[i] == row_ptrs_[i - 1]) {\n          ret.elements_list_.insert(ret.elements_list_.begin(), ELLElements());\n          continue;\n        }\n        ELLElements elements;")],
 extra=BB, demo='''#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/matrix/sparse/sparse_matrix.h"
using namespace tachyon::math;
int main() { using C = CSRSparseMatrix<int>; using E = ELLSparseMatrix<int>; E e(std::vector<E::Elements>{{{0, 4}}, {}, {}, {{2, 7}}}); C c = e.ToCSR(); return c.ToELL() == e ? 0 : 1; }
'''),
dict(id="sponge_full_block", prop="H2", needs="squeezing a whole block of the rate and then squeezing again", breaks="the second squeeze repeats the block because the state was not permuted",
 edits=[("tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h", "        state.mode.next_index = rate_start_index + output_remaining_size;", "        state.mode.next_index =\n            (rate_start_index + output_remaining_size) % Params::kRate;")],
 extra=BB, demo='''#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h"
using namespace tachyon; using namespace tachyon::crypto; using F = math::BabyBear;
struct Prm { using Field = F; static constexpr size_t kRate = 2, kCapacity = 1, kWidth = 3; static constexpr uint32_t kAlpha = 7; };
struct Toy;
namespace tachyon::crypto { template <> struct CryptographicSpongeTraits<Toy> { using Params = Prm; using F = ::F; }; }
struct Toy : PoseidonSpongeBase<Toy> { using Params = Prm; using F = ::F; void Permute(SpongeState<Params>& st) const { for (size_t i = 0; i < 3; ++i) st[i] = st[i] * F(3) + st[(i + 1) % 3] + F(7); } };
int main() { F::Init(); Toy t; SpongeState<Prm> a, b; std::vector<F> in = {F(1), F(2), F(3)}; if (!t.Absorb(a, in) || !t.Absorb(b, in)) return 1; auto x = t.SqueezeNativeFieldElements(a, 2), y = t.SqueezeNativeFieldElements(a, 2), z = t.SqueezeNativeFieldElements(b, 4); x.insert(x.end(), y.begin(), y.end()); return x == z ? 0 : 1; }
'''),
dict(id="group_points_ends", stubs=True, prop="K2", needs="two polynomials opened at three or more points each, with the same smallest and largest point but a different one between", breaks="polynomials opened at different sets of points are put in one group, so honest openings are not proved",
 edits=[("tachyon/crypto/commitments/polynomial_openings.h", "                               return point_grouped_pair.points ==\n                                      grouped_poly_oracle_pair.points;", "                               const auto& l = point_grouped_pair.points;\n                               const auto& r = grouped_poly_oracle_pair.points;\n                               return l.size() == r.size() &&\n                                      *l.begin() == *r.begin() &&\n                                      *l.rbegin() == *r.rbegin();")],
 extra=BB, demo='''#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/polynomials/univariate/univariate_polynomial.h"
#include "tachyon/crypto/commitments/polynomial_openings.h"
using namespace tachyon; using namespace tachyon::crypto; using F = math::BabyBear;
int main() { F::Init(); using P = math::UnivariateDensePolynomial<F, 8>; P p[2] = {P(P::Coefficients({F(1), F(2), F(3)})), P(P::Coefficients({F(4), F(2), F(9)}))}; std::vector<PolynomialOpening<P>> o; for (int i = 0; i < 2; ++i) for (int x : {1, 3 + i, 9}) o.push_back({base::Ref<const P>(&p[i]), F(x), p[i].Evaluate(F(x))}); PolynomialOpeningGrouper<P> g; g.GroupByPolyOracleAndPoints(o); return g.grouped_poly_openings_vec().size() == 2 ? 0 : 1; }
'''),
dict(id="sumcheck_last_round", prop="S1", needs="three or more variables and an inconsistent message in the last round whose value at 1 is right", breaks="the last message's consistency is only half checked",
 edits=[("tachyon/crypto/sumcheck/multilinear/sumcheck_verifier.h", "      if (sum != expected) {", "      if (sum != expected && !(i > 1 && p1 == expected)) {")],
 extra=BB, demo='''#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/polynomials/multivariate/multilinear_extension.h"
#include "tachyon/crypto/sumcheck/multilinear/sumcheck_verifier.h"
using namespace tachyon; using namespace tachyon::crypto; using F = math::BabyBear;
int main() { F::Init(); using MLE = math::MultilinearExtension<math::MultilinearDenseEvaluations<F, 5>>; SumcheckVerifyingKey k; k.max_evaluations = 1; k.num_variables = 3; SumcheckVerifier<MLE> v(k); F s(10), e = s; for (int i = 0; i < 3; ++i) { SumcheckProverMsg<F, 1> m; F a(3 + i), b = i == 2 ? e : e - a; m.evaluations = math::UnivariateEvaluations<F, 1>({a, b}); F r = v.Round(std::move(m)).random_value; e = a + (b - a) * r; } Subclaim<F> c; return v.CheckAndGenerateSubclaim(s, &c) ? 1 : 0; }
'''),
]
