// Multilinear extensions, linear combinations of them, sparse multivariate polynomials and the sumcheck protocol, over a symbolic field.
// Oracle: the Lagrange basis of the hypercube, written out; monomial maps written out.
#include "alg_fields.h"
#include <map>
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/polynomials/multivariate/multilinear_extension.h"
#include "tachyon/math/polynomials/multivariate/multivariate_polynomial.h"
#include "tachyon/math/polynomials/multivariate/linear_combination.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluations.h"
#include "tachyon/crypto/sumcheck/multilinear/sumcheck_prover_msg.h"
#include "tachyon/crypto/sumcheck/multilinear/sumcheck_verifier_msg.h"
#include "tachyon/crypto/sumcheck/multilinear/sumcheck_verifying_key.h"
#ifdef SYM_ALG
static void small(uint64_t k) { symf::small = k; }
#else
static void small(uint64_t) {}
#endif
#ifdef SYM_ALG  // the verifier's challenges become symbolic; its test "is the challenge below the number of evaluations" is decided by cases
#define Random SymRandom
#define ToBigInt ToBigIntBelow16
#else  // replay: the challenges of the model
#define Random() FromBigInt(::symv<F>("rand").ToBigInt())
#endif
#include "tachyon/crypto/sumcheck/multilinear/sumcheck_verifier.h"
#ifdef SYM_ALG
#undef ToBigInt
#endif
#undef Random
#include "tachyon/crypto/sumcheck/multilinear/sumcheck_prover.h"
#include "tachyon/crypto/sumcheck/multilinear/multilinear_sumcheck.h"
using namespace tachyon::math; using namespace tachyon;
using F = bn254::Fr; using V = std::vector<F>; constexpr size_t M = 8;
using DE = MultilinearDenseEvaluations<F, M>; using ML = MultilinearExtension<DE>; using LC = LinearCombination<DE>;
using SC = MultivariateSparseCoefficients<F, 20>; using MP = MultivariatePolynomial<SC>;
static void init() { F::Init(); BabyBear::Init(); }
SYM_INIT(init)
static F sv(const std::string& p, size_t i) { return symv<F>((p + std::to_string(i)).c_str()); }
static V vs(const std::string& p, size_t n) { V r; for (size_t i = 0; i < n; ++i) r.push_back(sv(p, i)); return r; }
static F eval(const V& e, const V& x) { F r = F::Zero(); for (size_t i = 0; i < e.size(); ++i) { F t = e[i]; for (size_t j = 0; j < x.size(); ++j) t *= (i >> j & 1) ? x[j] : F::One() - x[j]; r += t; } return r; }
static void same(const ML& m, const V& v, const char* s) { sym_assert(m.evaluations().evaluations().size() == v.size(), s); for (size_t i = 0; i < v.size(); ++i) sym_assert(m[i] == v[i], s); sym_assert(m[v.size()].IsZero(), s); }
#ifndef SUMCHECK
SYM_HARNESS(mle_eval) {
  size_t n = 1 + sym_choose(4, "n"); V e = vs("e", 1 << n), x = vs("x", n); ML m{DE(e)}; sym_assert(m.Degree() == n, "Degree is the number of variables");
  sym_assert(m.Evaluate(x) == eval(e, x), "Evaluate is the multilinear extension"); same(m, e, "operand unchanged");
  size_t b = sym_choose(1 << n, "b"); V y; for (size_t j = 0; j < n; ++j) y.push_back(b >> j & 1 ? F::One() : F::Zero()); sym_assert(m.Evaluate(y) == e[b], "agrees with the evaluations on the hypercube");
  sym_reached("end");
}
SYM_HARNESS(mle_fix) {
  size_t n = 1 + sym_choose(3, "n"), k = sym_choose(n + 1, "k"); V e = vs("e", 1 << n), x = vs("x", n); DE d(e); V head(x.begin(), x.begin() + k), tail(x.begin() + k, x.end());
  DE f = d.FixVariables(head); sym_assert(f.evaluations().size() == size_t{1} << (n - k), "FixVariables size"); V all = head; all.insert(all.end(), tail.begin(), tail.end());
  for (size_t i = 0; i < f.evaluations().size(); ++i) { V p = head; for (size_t j = 0; j < n - k; ++j) p.push_back(i >> j & 1 ? F::One() : F::Zero()); sym_assert(f[i] == eval(e, p), "FixVariables keeps the remaining hypercube"); }
  sym_assert(f.Evaluate(tail) == eval(e, all), "fix then evaluate"); DE g(e); DE h = g.FixVariablesInPlace(head); sym_assert(g == f && h == f, "FixVariablesInPlace"); sym_assert(d == DE(e), "operand unchanged");
  sym_reached("end");
}
SYM_HARNESS(mle_ops) {
  size_t za = sym_choose(2, "za"), zb = sym_choose(2, "zb"); size_t n = 4; V a = za ? V{} : vs("a", n), b = zb ? V{} : vs("b", n); ML p{DE(a)}, q{DE(b)};
  auto at = [&](const V& v, size_t i) { return i < v.size() ? v[i] : F::Zero(); }; size_t o = std::max(a.size(), b.size()), mi = std::min(a.size(), b.size());
  V s, d, m, ng; for (size_t i = 0; i < o; ++i) { s.push_back(at(a, i) + at(b, i)); d.push_back(at(a, i) - at(b, i)); } for (size_t i = 0; i < mi; ++i) m.push_back(a[i] * b[i]); for (auto& x : a) ng.push_back(-x);
  same(p + q, s, "add"); same(p - q, d, "sub"); same(p * q, m, "mul"); same(-p, ng, "negate"); ML t = p; t += q; same(t, s, "add in place"); t = p; t -= q; same(t, d, "sub in place"); t = p; t *= q; same(t, m, "mul in place"); t = p; t.NegateInPlace(); same(t, ng, "negate in place");
  t = p; t -= t; for (size_t i = 0; i < a.size(); ++i) sym_assert(t[i].IsZero(), "x -= x"); same(p, a, "operand unchanged"); same(q, b, "operand unchanged");
  bool e = true; for (size_t i = 0; i < n; ++i) if (!(at(a, i) == at(b, i))) { e = false; break; } sym_assert((p == q) == e, "=="); sym_assert((p != q) == !e, "!=");
  sym_reached("end");
}
SYM_HARNESS(mle_div) {
  size_t n = 2; V a = vs("a", n), b = vs("b", n); ML p{DE(a)}, q{DE(b)}; auto d = p / q; bool ok = !b[0].IsZero() && !b[1].IsZero(); sym_assert(d.has_value() == ok, "division is possible exactly when no divisor evaluation is 0");
  if (ok) { for (size_t i = 0; i < n; ++i) sym_assert((*d)[i] * b[i] == a[i], "quotient"); ML t = p; sym_assert((t /= q).has_value(), "divide in place"); sym_assert(t == *d, "divide in place"); } else { ML t = p; sym_assert(!(t /= q).has_value(), "divide in place"); }
  sym_assert(!(p / ML()).has_value(), "division by the empty 0"); sym_reached("end");
}
#endif
// linear combinations: three tables, terms choose tables with repetition
static LC lc(size_t n, const std::vector<V>& e, const std::vector<std::vector<size_t>>& ts, const V& c, std::vector<std::shared_ptr<DE>>& keep) {
  LC l(n); for (auto& v : e) keep.push_back(std::make_shared<DE>(DE(v))); for (size_t i = 0; i < ts.size(); ++i) { std::vector<std::shared_ptr<DE>> x; for (size_t k : ts[i]) x.push_back(keep[k]); l.AddTerm(c[i], x); } return l;
}
static const std::vector<std::vector<std::vector<size_t>>> kT = {{{0}}, {{0, 0}}, {{0, 1}, {2}}, {{1, 2, 1}, {0}, {2, 2}}, {{0, 1, 2}, {0, 1, 2}}};
#ifndef SUMCHECK
SYM_HARNESS(lincomb) {
  size_t n = 1 + sym_choose(2, "n"), w = sym_choose(kT.size(), "shape"); std::vector<V> e; for (size_t i = 0; i < 3; ++i) e.push_back(vs("e" + std::to_string(i) + "_", 1 << n)); V c = vs("c", kT[w].size()), x = vs("x", n); std::vector<std::shared_ptr<DE>> keep;
  LC l = lc(n, e, kT[w], c, keep); F sum = F::Zero(), ev = F::Zero(); size_t mx = 0;
  for (size_t t = 0; t < kT[w].size(); ++t) { mx = std::max(mx, kT[w][t].size()); F p = c[t]; for (size_t k : kT[w][t]) p *= eval(e[k], x); ev += p; for (size_t i = 0; i < size_t{1} << n; ++i) { F q = c[t]; for (size_t k : kT[w][t]) q *= e[k][i]; sum += q; } }
  sym_assert(l.Combine() == sum, "Combine sums over the hypercube"); sym_assert(l.Evaluate(x) == ev, "Evaluate"); sym_assert(l.max_evaluations() == mx, "max_evaluations"); sym_assert(l.terms().size() == kT[w].size(), "terms");
  std::set<size_t> used; for (auto& t : kT[w]) for (size_t k : t) used.insert(k); sym_assert(l.flattened_ml_evaluations().size() == used.size(), "each table is stored once");
  LC z(n); z.AddTerm(c[0], {}); sym_assert(z.terms().empty() && z.Combine().IsZero(), "an empty term adds nothing"); sym_reached("end");
}
#endif
#ifdef SUMCHECK
// sumcheck: honest runs accept; the subclaim is the polynomial's value; each message is the partial sum
template <size_t D> void sumcheck(size_t n, size_t w) {
  std::vector<V> e; for (size_t i = 0; i < 3; ++i) e.push_back(vs("e" + std::to_string(i) + "_", 1 << n)); V c = vs("c", kT[w].size()); std::vector<std::shared_ptr<DE>> keep; LC l = lc(n, e, kT[w], c, keep); size_t mx = l.max_evaluations(); small(mx + 1);
  auto val = [&](const V& x) { F ev = F::Zero(); for (size_t t = 0; t < kT[w].size(); ++t) { F p = c[t]; for (size_t k : kT[w][t]) p *= eval(e[k], x); ev += p; } return ev; };
  auto pk = crypto::SumcheckProvingKey<DE>::Build(l); auto vk = crypto::SumcheckVerifyingKey::Build(l); crypto::SumcheckProver<DE, D> pr(pk); crypto::SumcheckVerifier<DE> ve(vk); V r; F total = F::Zero(); crypto::SumcheckVerifierMsg<F> vm;
  for (size_t i = 0; i < n; ++i) {
    auto pm = i ? pr.Round(std::move(vm)) : pr.Round(); sym_assert(pm.evaluations.evaluations().size() == mx + 1, "message length");
    for (size_t j = 0; j <= mx; ++j) { F s = F::Zero(); for (size_t m = 0; m < size_t{1} << (n - i - 1); ++m) { V x = r; x.push_back(F(j)); for (size_t t = 0; t + i + 1 < n; ++t) x.push_back(m >> t & 1 ? F::One() : F::Zero()); s += val(x); } sym_assert(pm.evaluations[j] == s, "round message is the partial sum"); if (!i && j < 2) total += s; }
    vm = ve.Round(std::move(pm)); r.push_back(vm.random_value);
  }
  sym_assert(l.Combine() == total, "the asserted sum"); crypto::Subclaim<F> sc; bool wrong = sym_choose(2, "wrong"); F s = l.Combine(); if (wrong) { F d = sv("d", 0); sym_assume(!d.IsZero()); s += d; }
  bool ok = ve.CheckAndGenerateSubclaim(s, &sc); sym_assert(ok == !wrong, "accepted exactly when the asserted sum is the sum"); if (!ok) { sym_reached("rejected"); return; }
  sym_assert(sc.point.size() == n, "subclaim point"); for (size_t i = 0; i < n; ++i) sym_assert(sc.point[i] == r[i], "subclaim point"); sym_assert(sc.expected_evaluation == val(r), "subclaim value"); sym_assert(l.Evaluate(sc.point) == sc.expected_evaluation, "subclaim value"); sym_reached("end");
}
SYM_HARNESS(sumcheck1) { sumcheck<4>(1, sym_choose(kT.size(), "shape")); }
SYM_HARNESS(sumcheck2) { sumcheck<4>(2, sym_choose(4, "shape")); }
SYM_HARNESS(sumcheck_cheat) {  // arbitrary messages: the verifier accepts exactly when every round is consistent, and interpolates them
  size_t n = 1 + sym_choose(2, "n"), k = 2 + sym_choose(2, "k"); small(k); std::vector<V> e{vs("e", 1 << n)}; std::vector<std::shared_ptr<DE>> keep; std::vector<size_t> t(k - 1, 0); LC l = lc(n, e, {t}, {F::One()}, keep); crypto::SumcheckVerifier<DE> ve(crypto::SumcheckVerifyingKey::Build(l)); F s = sv("s", 0), ex = s; bool good = true;
  for (size_t i = 0; i < n; ++i) { V m = vs("m" + std::to_string(i) + "_", k); auto vm = ve.Round(crypto::SumcheckProverMsg<F, 4>{UnivariateEvaluations<F, 4>(m)}); F r = vm.random_value; if (good && !(m[0] + m[1] == ex)) good = false; F y = F::Zero(); for (size_t a = 0; a < k; ++a) { F p = m[a]; for (size_t b = 0; b < k; ++b) if (a != b) p = *(p * (r - F(b)) / (F(a) - F(b))); y += p; } ex = y; }
  crypto::Subclaim<F> sc; bool ok = ve.CheckAndGenerateSubclaim(s, &sc); sym_assert(ok == good, "accepts exactly the consistent transcripts"); if (ok) { sym_assert(sc.expected_evaluation == ex, "final claim"); sym_reached("accept"); } else sym_reached("reject");
}
SYM_HARNESS(sumcheck_lie) {  // consistent messages but for one free one, more rounds
  size_t n = 3 + sym_choose(3, "n"), k = 2 + sym_choose(2, "k"); small(k); std::vector<V> e{V(size_t{1} << n, F::One())}; std::vector<std::shared_ptr<DE>> keep; std::vector<size_t> t(k - 1, 0); LC l = lc(n, e, {t}, {F::One()}, keep); crypto::SumcheckVerifier<DE> ve(crypto::SumcheckVerifyingKey::Build(l)); F s = sv("s", 0), ex = s; bool good = true; size_t w = sym_choose(n, "where");
  for (size_t i = 0; i < n; ++i) { V m(k); for (size_t j = 0; j < k; ++j) m[j] = i >= w || j > 1 ? sv("m" + std::to_string(i) + "_", j) : F(7 * i + 3 * j + 2); if (i != w) m[0] = ex - m[1]; auto vm = ve.Round(crypto::SumcheckProverMsg<F, 4>{UnivariateEvaluations<F, 4>(m)}); F r = vm.random_value; if (good && !(m[0] + m[1] == ex)) good = false; F y = F::Zero(); for (size_t a = 0; a < k; ++a) { F p = m[a]; for (size_t b = 0; b < k; ++b) if (a != b) p = *(p * (r - F(b)) / (F(a) - F(b))); y += p; } ex = y; }
  crypto::Subclaim<F> sc; bool ok = ve.CheckAndGenerateSubclaim(s, &sc); sym_assert(ok == good, "accepts exactly the consistent transcripts"); if (ok) { sym_assert(sc.expected_evaluation == ex, "final claim"); sym_reached("accept"); } else sym_reached("reject");
}
SYM_HARNESS(interp) {
  size_t k = 1 + sym_choose(6, "k"); small(k); V m = vs("m", k); F r = sv("r", 0), y = F::Zero(); for (size_t a = 0; a < k; ++a) { F p = m[a]; for (size_t b = 0; b < k; ++b) if (a != b) p = *(p * (r - F(b)) / (F(a) - F(b))); y += p; } sym_assert(crypto::InterpolateUniPoly(m, r) == y, "interpolation through 0..k-1"); sym_reached("end");
}
SYM_HARNESS(proving_key_eq) {
  V a = vs("a", 2), b = vs("b", 2); F c = sv("c", 0), d = sv("d", 0); std::vector<std::shared_ptr<DE>> k; LC l = lc(1, {a}, {{0}}, {c}, k); k.clear(); LC m = lc(1, {b}, {{0}}, {d}, k); bool e = a[0] == b[0] && a[1] == b[1] && c == d;
  sym_assert((crypto::SumcheckProvingKey<DE>::Build(l) == crypto::SumcheckProvingKey<DE>::Build(m)) == e, "proving keys are equal exactly when terms and tables are"); sym_reached("end");
}
#endif
#ifndef SUMCHECK
// sparse multivariate polynomials: a subset of monomials in 3 variables, each with a symbolic coefficient
using Mono = std::array<size_t, 3>; static const std::vector<Mono> kM = {{0, 0, 0}, {1, 0, 0}, {3, 0, 0}, {0, 1, 0}, {1, 1, 0}, {2, 1, 0}, {1, 0, 1}, {0, 1, 1}, {1, 1, 1}, {0, 0, 2}, {2, 0, 2}};
static SC::Literal lit(const Mono& m) { std::vector<SC::Element> e; for (size_t i = 0; i < 3; ++i) if (m[i]) e.push_back({i, m[i]}); if (e.empty()) e.push_back({0, 0}); return SC::Literal(e); }
using MM = std::map<Mono, F>; static F pw(F b, size_t e) { F r = F::One(); while (e--) r *= b; return r; }
static F ev(const MM& m, const V& x) { F r = F::Zero(); for (auto& [k, c] : m) { F t = c; for (size_t i = 0; i < 3; ++i) t *= pw(x[i], k[i]); r += t; } return r; }
static MP make(const char* n, const std::vector<size_t>& ix, MM& m) { SC::Terms t; for (size_t i : ix) { F c = sv(n, i); sym_assume(!c.IsZero()); m[kM[i]] = c; t.push_back({lit(kM[i]), c}); } std::sort(t.begin(), t.end(), [](auto& a, auto& b) { return a.literal < b.literal; }); return MP(SC(3, std::move(t))); }
static void isp(const MP& p, const MM& m, const char* s) {
  MM n; for (auto& [k, c] : m) if (!c.IsZero()) n[k] = c; sym_assert(p.coefficients().terms().size() == n.size(), s); for (auto& k : kM) sym_assert(p[lit(k)] == (n.count(k) ? n[k] : F::Zero()), s); sym_assert(p.IsZero() == n.empty(), s);
  size_t d = 0; for (auto& [k, c] : n) d = std::max(d, k[0] + k[1] + k[2]); sym_assert(p.Degree() == d, "total degree");
}
static const std::vector<std::vector<size_t>> kS = {{}, {0}, {1, 3}, {4, 6, 7}, {2, 3}, {0, 5, 8, 10}, {6, 7, 9}, {4, 5}};
SYM_HARNESS(mv_ops) {
  MM a, b; MP p = make("a", kS[sym_choose(kS.size(), "p")], a), q = make("b", kS[sym_choose(kS.size(), "q")], b); MM s = a, d = a, g; for (auto& [k, c] : b) { if (s.count(k)) s[k] += c, d[k] -= c; else s[k] = c, d[k] = -c; } for (auto& [k, c] : a) g[k] = -c;
  isp(p, a, "construct"); MP r = p + q; isp(r, s, "add"); isp(p - q, d, "sub"); isp(-p, g, "negate"); MP t = p; t += q; isp(t, s, "add in place"); t = p; t -= q; isp(t, d, "sub in place"); t = p; t.NegateInPlace(); isp(t, g, "negate in place"); t = p; t -= t; sym_assert(t.IsZero(), "x -= x"); sym_assert((p - p).IsZero(), "x - x");
  V x = vs("x", 3); if (!r.IsZero()) sym_assert(r.Evaluate(x) == ev(s, x), "evaluation of a sum"); if (!p.IsZero()) sym_assert(p.Evaluate(x) == ev(a, x), "evaluation"); isp(p, a, "operand unchanged"); isp(q, b, "operand unchanged");
  sym_reached("end");
}
SYM_HARNESS(mv_order) {  // the order on monomials is a strict total order
  size_t i = sym_choose(kM.size(), "i"), j = sym_choose(kM.size(), "j"), k = sym_choose(kM.size(), "k"); auto a = lit(kM[i]), b = lit(kM[j]), c = lit(kM[k]); sym_assert((a < b) + (b < a) + (i == j) == 1, "exactly one of a<b, b<a, a=b"); sym_assert((a == b) == (i == j) && (a != b) == (i != j), "literal equality"); if (a < b && b < c) sym_assert(a < c, "transitive"); sym_reached("end");
}
SYM_HARNESS(mv_compact) {  // repeated terms are merged, vanishing ones dropped
  size_t i = sym_choose(kM.size(), "i"); F c[3] = {sv("c", 0), sv("c", 1), sv("c", 2)}; SC::Terms t{{lit(kM[i]), c[0]}, {lit(kM[i]), c[1]}, {lit(kM[i]), c[2]}}; SC s(3, t); s.Compact(); F z = c[0] + c[1] + c[2]; sym_assert(s.terms().size() == (z.IsZero() ? 0 : 1), "merged"); sym_assert(s[lit(kM[i])] == z, "merged coefficient"); SC e(3, SC::Terms{}); e.Compact(); sym_assert(e.IsZero(), "compacting nothing"); sym_reached("end");
}
#endif
