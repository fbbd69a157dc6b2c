// Evaluation domains: FFT/IFFT, cosets, Lagrange coefficients, vanishing/filter polynomials, batched FFT and LDE.
// Oracle: direct evaluation at offset * g^i; g is checked to generate a group of the right order.
#include "alg_fields.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/packed_field_traits_forward.h"
namespace tachyon::math {  // packed rows: two lanes of the symbolic field
struct PK { static constexpr size_t N = 2; BabyBear v[2];
  static PK Broadcast(const BabyBear& x) { return {x, x}; } PK& operator*=(const PK& o) { v[0] *= o.v[0]; v[1] *= o.v[1]; return *this; } PK& operator+=(const PK& o) { v[0] += o.v[0]; v[1] += o.v[1]; return *this; }
  PK operator-(const PK& o) const { return {v[0] - o.v[0], v[1] - o.v[1]}; } };
template <> struct PackedFieldTraits<BabyBear> { using PackedField = PK; };
}
#include "tachyon/math/polynomials/univariate/radix2_evaluation_domain.h"
#include "tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "tachyon/math/polynomials/univariate/naive_batch_fft.h"
using namespace tachyon::math; using namespace tachyon;
using F = bn254::Fr; using V = std::vector<F>; constexpr size_t M = 1 << 20;
using R2 = Radix2EvaluationDomain<F, M>; using MR = MixedRadixEvaluationDomain<F, M>; using UD = UnivariateEvaluationDomain<F, M>; using Fac = UnivariateEvaluationDomainFactory<F, M>;
static void init() { F::Init(); BabyBear::Init(); KoalaBear::Init(); }
SYM_INIT(init)
static F sv(const char* p, size_t i) { return symv<F>((p + std::to_string(i)).c_str()); }
static F pw(F b, size_t e) { F r = F::One(); while (e--) r *= b; return r; }
static F ve(const V& a, const F& x) { F r = F::Zero(); for (size_t i = a.size(); i--;) r = r * x + a[i]; return r; }
// a generator of order exactly n
template <class G> void order(const G& g, size_t n) { G p = G::One(); for (size_t i = 1; i <= n; ++i) { p *= g; sym_assert((p == G::One()) == (i == n), "the group generator has order n"); } }
static void fft(const UD& d, size_t n, const F& off) {
  sym_assert(d.size() == n, "domain size"); F g = d.group_gen(); order(g, n); sym_assert(g * d.group_gen_inv() == F::One(), "generator inverse"); sym_assert(d.size_inv() * F(n) == F::One(), "size inverse"); sym_assert(d.offset() == off, "offset"); sym_assert(d.offset() * d.offset_inv() == F::One(), "offset inverse"); sym_assert(d.offset_pow_size() == pw(off, n), "offset^n");
  size_t k = sym_choose(n + 1, "coeffs"); V c; for (size_t i = 0; i < k; ++i) c.push_back(sv("c", i)); if (k) sym_assume(!c[k - 1].IsZero());
  UD::DensePoly p{UD::DenseCoeffs(c)}; auto e = d.FFT(p);
  if (k == 0) { sym_assert(e.IsZero(), "FFT(0) = 0"); sym_reached("zero"); }
  else { sym_assert(e.evaluations().size() == n, "FFT size"); F x = off; for (size_t i = 0; i < n; ++i) { sym_assert(e[i] == ve(c, x), "FFT value"); sym_assert(d.GetElement(i) == x, "GetElement"); sym_assert(d.GetElement(static_cast<int64_t>(i) - static_cast<int64_t>(n)) == x, "GetElement of a negative index"); x *= g; } }
  auto el = d.GetElements(); sym_assert(el.size() == n, "GetElements"); { F x = off; for (auto& y : el) { sym_assert(y == x, "GetElements"); x *= g; } }
  if (k) { auto e2 = d.FFT(UD::DensePoly(p)); sym_assert(e2 == e, "FFT of an rvalue"); auto b = d.IFFT(e); sym_assert(b == p, "IFFT(FFT(p)) = p"); auto b2 = d.IFFT(std::move(e)); sym_assert(b2 == p, "IFFT of an rvalue"); }
  sym_reached("end");
}
static void ifft(const UD& d, size_t n, const F& off, size_t k) {  // arbitrary evaluations, k <= n of them given
  V v; for (size_t i = 0; i < k; ++i) v.push_back(sv("v", i)); auto p = d.IFFT(UD::Evals(v)); V c; for (size_t i = 0; i < p.NumElements(); ++i) c.push_back(p[i]);
  sym_assert(p.coefficients().IsClean(), "IFFT result is clean"); sym_assert(c.size() <= n, "IFFT degree"); F x = off; for (size_t i = 0; i < n; ++i) { sym_assert(ve(c, x) == (i < k ? v[i] : F::Zero()), "IFFT value"); x *= d.group_gen(); }
  sym_reached("end");
}
template <class D> std::unique_ptr<UD> dom(size_t n, F& off) {
  std::unique_ptr<UD> d = D::Create(n); off = F::One();
  if (sym_choose(2, "coset")) { off = sv("off", 0); sym_assume(!off.IsZero()); return d->GetCoset(off); }
  return d;
}
static const size_t kMixed[] = {1, 2, 3, 4, 6, 9, 12, 18};
SYM_HARNESS(fft_radix2) { size_t n = size_t{1} << sym_choose(5, "log"); F off; auto d = dom<R2>(n, off); fft(*d, n, off); }
SYM_HARNESS(fft_mixed) { size_t n = kMixed[sym_choose(8, "n")]; F off; auto d = dom<MR>(n, off); fft(*d, n, off); }
SYM_HARNESS(ifft_radix2) { size_t n = size_t{1} << sym_choose(4, "log"); F off; auto d = dom<R2>(n, off); ifft(*d, n, off, 1 + sym_choose(n, "k")); }
SYM_HARNESS(ifft_mixed) { size_t n = kMixed[sym_choose(6, "n")]; F off; auto d = dom<MR>(n, off); ifft(*d, n, off, 1 + sym_choose(n, "k")); }
SYM_HARNESS(create) {
  size_t n = 1 + sym_choose(40, "n"); auto d = R2::Create(n); size_t m = 1; while (m < n) m *= 2; sym_assert(d->size() == m, "radix-2 size is the next power of two"); sym_assert((size_t{1} << d->log_size_of_group()) == m, "log size");
  auto x = MR::Create(n); size_t best = ~size_t{0}; for (size_t q : {1, 3, 9}) { size_t r = q; while (r < n) r *= 2; best = std::min(best, r); } sym_assert(x->size() == best, "mixed-radix size is the least 2^i 3^j >= n"); order(x->group_gen(), best);
  auto f = Fac::Create(n); sym_assert(f->size() == m, "factory"); sym_reached("end");
}
SYM_HARNESS(lagrange) {
  size_t n = size_t{1} << sym_choose(3, "log"); F off; auto d = dom<R2>(n, off); size_t from = sym_choose(n, "from"), cnt = sym_choose(n - from + 1, "cnt");
  unsigned at = sym_choose(n + 1, "at"); F g = d->group_gen(), tau = at < n ? off * pw(g, at) : sv("tau", 0);
  auto l = d->EvaluateAllLagrangeCoefficients(tau); sym_assert(l.size() == n, "lagrange size");
  V el = d->GetElements(); bool in = false; for (auto& x : el) if (x == tau) in = true;
  for (size_t i = 0; i < n; ++i) {
    if (in) sym_assert(l[i] == (el[i] == tau ? F::One() : F::Zero()), "lagrange coefficient at a domain point");
    else { F num = F::One(), den = F::One(); for (size_t j = 0; j < n; ++j) if (j != i) { num *= tau - el[j]; den *= el[i] - el[j]; } sym_assert(l[i] * den == num, "lagrange coefficient"); }
  }
  auto part = d->EvaluatePartialLagrangeCoefficients(tau, base::Range<size_t>(from, from + cnt)); sym_assert(part.size() == cnt, "partial lagrange size"); for (size_t i = 0; i < cnt; ++i) sym_assert(part[i] == l[from + i], "partial lagrange coefficient");
  F z = F::One(); for (auto& x : el) z *= tau - x; sym_assert(d->EvaluateVanishingPolynomial(tau) == z, "vanishing polynomial value"); sym_assert(d->GetVanishingPolynomial().Evaluate(tau) == z, "vanishing polynomial");
  sym_reached("end");
}
SYM_HARNESS(filter) {  // every coset of every subgroup inside the domain
  size_t ln = 1 + sym_choose(3, "log"), ls = sym_choose(ln + 1, "sub"), n = size_t{1} << ln, s = size_t{1} << ls; auto d = R2::Create(n); auto sd = R2::Create(s); size_t k = sym_choose(n / s, "offset"); F off = pw(d->group_gen(), k); auto c = sd->GetCoset(off);
  auto fp = d->GetFilterPolynomial(*c); V el = d->GetElements(); V fc; for (size_t i = 0; i < fp.NumElements(); ++i) fc.push_back(fp[i]); F x = sv("x", 0);
  for (size_t i = 0; i < n; ++i) { bool in = i % (n / s) == k; sym_assert(ve(fc, el[i]) == (in ? F::One() : F::Zero()), "filter polynomial"); auto e = d->EvaluateFilterPolynomial(*c, el[i]); sym_assert(e && *e == (in ? F::One() : F::Zero()), "filter value on the domain"); }
  auto e = d->EvaluateFilterPolynomial(*c, x); sym_assert(e && *e == ve(fc, x), "filter value agrees with the filter polynomial"); sym_reached("end");
}
SYM_HARNESS(distribute) { size_t n = sym_choose(5, "n"); F g = sv("g", 0); V c; for (size_t i = 0; i < n; ++i) c.push_back(sv("c", i)); if (n) sym_assume(!c[n - 1].IsZero()); UD::DensePoly p{UD::DenseCoeffs(c)}; UD::DistributePowers(p, g); for (size_t i = 0; i < n; ++i) sym_assert(p[i] == c[i] * pw(g, i), "DistributePowers"); sym_reached("end"); }
// roots of unity of every field
template <class G> void roots() { size_t lg = sym_choose(std::min<size_t>(12, G::Config::kTwoAdicity + 1), "log"); size_t n = size_t{1} << lg; G g; sym_assert(G::GetRootOfUnity(n, &g), "root exists"); order(g, n); G h; sym_assert(!G::GetRootOfUnity(n * 7, &h), "no root for other sizes"); if (G::Config::kTwoAdicity < 63) sym_assert(!G::GetRootOfUnity(uint64_t{2} << G::Config::kTwoAdicity, &h), "no root beyond the two-adicity"); sym_assert(G::GetRootOfUnity(uint64_t{1} << G::Config::kTwoAdicity, &h), "root of maximal order"); for (size_t i = 1; i < G::Config::kTwoAdicity; ++i) h.SquareInPlace(); sym_assert(h == G::MinusOne(), "root of maximal order"); sym_reached("end"); }
SYM_HARNESS(roots_fr) { roots<F>(); } SYM_HARNESS(roots_bb) { roots<BabyBear>(); } SYM_HARNESS(roots_kb) { roots<KoalaBear>(); }
// batched FFT on matrices (with the packed-row path) and low-degree extension
using B = BabyBear; using BR = Radix2EvaluationDomain<B>; using Mat = RowMajorMatrix<B>;
static B bpw(B b, size_t e) { B r = B::One(); while (e--) r *= b; return r; }
static Mat smat(size_t r, size_t c) { Mat m(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) m(i, j) = symv<B>(("m" + std::to_string(i) + "_" + std::to_string(j)).c_str()); return m; }
SYM_HARNESS(batch) {
  size_t n = size_t{2} << sym_choose(4, "log"), c = 1 + sym_choose(3, "cols"); auto d = BR::Create(n); Mat m = smat(n, c), a = m, b = m; B g = d->group_gen(); order(g, n);
  d->FFTBatch(a); NaiveBatchFFT<B> nv; nv.FFTBatch(b);
  for (size_t j = 0; j < c; ++j) for (size_t i = 0; i < n; ++i) { B x = bpw(g, i), e = B::Zero(); for (size_t k = n; k--;) e = e * x + m(k, j); sym_assert(a(i, j) == e, "FFTBatch"); sym_assert(b(i, j) == e, "naive FFTBatch"); }
  Mat r = a; d->IFFTBatch(r); Mat q = a; nv.IFFTBatch(q); for (size_t j = 0; j < c; ++j) for (size_t i = 0; i < n; ++i) { sym_assert(r(i, j) == m(i, j), "IFFTBatch inverts"); sym_assert(q(i, j) == m(i, j), "naive IFFTBatch inverts"); }
  sym_reached("end");
}
SYM_HARNESS(lde) {
  size_t lg = 1 + sym_choose(3, "log"), n = size_t{1} << lg, c = 1 + sym_choose(3, "cols"), ab = sym_choose(3, "added"), N = n << ab; bool lval = sym_choose(2, "lvalue"), rev = sym_choose(2, "reverse"); auto d = BR::Create(n); Mat m = smat(n, c); B s = symv<B>("shift"); sym_assume(!s.IsZero());
  Mat out(N, c), o2(N, c), cp = m; if (lval) d->CosetLDEBatch(cp, ab, s, out, rev); else d->CosetLDEBatch(Mat(m), ab, s, out, rev); NaiveBatchFFT<B> nv; Mat cp2 = m; nv.CosetLDEBatch(cp2, ab, s, o2);
  Mat co = m; nv.IFFTBatch(co); B g; sym_assert(B::GetRootOfUnity(N, &g), "root");
  for (size_t i = 0; i < N; ++i) { B x = s * bpw(g, i); size_t ri = 0; for (size_t t = 0; (size_t{1} << t) < N; ++t) if (i >> t & 1) ri |= N >> (t + 1);
    for (size_t j = 0; j < c; ++j) { B e = B::Zero(); for (size_t k = n; k--;) e = e * x + co(k, j); sym_assert(out(rev ? i : ri, j) == e, "CosetLDEBatch"); sym_assert(o2(i, j) == e, "naive CosetLDEBatch"); } }
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < c; ++j) { if (lval) sym_assert(cp(i, j) == m(i, j), "lvalue input unchanged"); sym_assert(cp2(i, j) == m(i, j), "lvalue input unchanged"); }
  sym_reached("end");
}
SYM_HARNESS(cache_order) {  // an LDE that fills the twiddle cache for size N must not disturb a later plain FFT of size N (and vice versa)
  size_t lg = 1 + sym_choose(3, "log"), n = size_t{1} << lg; unsigned ab = 1 + sym_choose(2, "added"); size_t N = n << ab; auto d = BR::Create(n); Mat m = smat(n, 1), out(N, 1); if (sym_choose(2, "first")) { auto pre = BR::Create(N); } d->CosetLDEBatch(Mat(m), ab, B(3), out);
  auto e = BR::Create(N); std::vector<B> c; for (size_t i = 0; i < N; ++i) c.push_back(symv<B>(("c" + std::to_string(i)).c_str())); sym_assume(!c[N - 1].IsZero()); BR::DensePoly p{UnivariateDenseCoefficients<B, BR::kMaxDegree>(c)}; auto v = e->FFT(p); B g = e->group_gen();
  for (size_t i = 0; i < N; ++i) { B x = bpw(g, i), w = B::Zero(); for (size_t k = N; k--;) w = w * x + c[k]; sym_assert(v[i] == w, "FFT after an LDE of the same size"); } sym_assert(e->IFFT(v) == p, "IFFT after an LDE of the same size"); sym_reached("end");
}
