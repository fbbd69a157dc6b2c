// Univariate polynomials (dense, sparse, evaluation form) over a symbolic field. Oracle: coefficient vectors, written below.
#include "alg_fields.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/polynomials/univariate/univariate_polynomial.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluations.h"
#include "tachyon/math/polynomials/univariate/lagrange_interpolation.h"
using namespace tachyon::math;
using F = bn254::Fr; using V = std::vector<F>;
constexpr size_t M = 4096;
using DC = UnivariateDenseCoefficients<F, M>; using SC = UnivariateSparseCoefficients<F, M>;
using D = UnivariateDensePolynomial<F, M>; using S = UnivariateSparsePolynomial<F, M>; using EV = UnivariateEvaluations<F, M>;
static void init() { F::Init(); }
SYM_INIT(init)
static F sv(const char* p, size_t i) { return symv<F>((p + std::to_string(i)).c_str()); }
static F nz(const char* p, size_t i) { F x = sv(p, i); sym_assume(!x.IsZero()); return x; }
// oracle
static F co(const V& a, size_t i) { return i < a.size() ? a[i] : F::Zero(); }
static V vadd(const V& a, const V& b, bool neg) { V r; for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) r.push_back(neg ? co(a, i) - co(b, i) : co(a, i) + co(b, i)); return r; }
static V vmul(const V& a, const V& b) { V r(a.size() + b.size(), F::Zero()); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j]; return r; }
static F veval(const V& a, const F& x) { F r = F::Zero(), p = F::One(); for (auto& c : a) { r += c * p; p *= x; } return r; }
template <class P> void is(const P& p, const V& v, const char* m) {
  sym_assert(p.coefficients().IsClean(), m);
  size_t n = p.NumElements(), d = p.Degree();
  for (size_t i = 0; i < std::max(v.size(), d + 1) + 2; ++i) sym_assert(p[i] == co(v, i), m);
  if (n) sym_assert(!p[d].IsZero(), m); else for (auto& x : v) sym_assert(x.IsZero(), m);  // with the line above: the degree is exact
  sym_assert(p.IsZero() == (n == 0), m); sym_assert(p.GetLeadingCoefficient() == (n ? p[d] : F::Zero()), m);
}
template <class P> struct Mk;
template <> struct Mk<D> {
  static constexpr size_t kN = 5;
  static D make(const char* n, unsigned k, V& v) { for (unsigned i = 0; i < k; ++i) v.push_back(i + 1 == k ? nz(n, i) : sv(n, i)); return D(DC(V(v))); }
};
template <> struct Mk<S> {
  static constexpr size_t kN = 6;
  static S make(const char* n, unsigned k, V& v) {
    static const unsigned pat[] = {0, 1, 2, 5, 10, 7}; std::vector<UnivariateTerm<F>> t;
    for (unsigned i = 0; i < 4; ++i) { v.push_back(F::Zero()); if (pat[k] >> i & 1) { v[i] = nz(n, i); t.push_back({i, v[i]}); } }
    return S(SC(std::move(t)));
  }
};
template <class A, class B> void addsub() {
  V a, b; A p = Mk<A>::make("a", sym_choose(Mk<A>::kN, "la"), a); B q = Mk<B>::make("b", sym_choose(Mk<B>::kN, "lb"), b);
  V s = vadd(a, b, false), d = vadd(a, b, true);
  is(p + q, s, "add"); is(p - q, d, "sub");
  if constexpr (std::is_same_v<A, D> || std::is_same_v<B, S>) { A x = p; x += q; is(x, s, "add in place"); x = p; x -= q; is(x, d, "sub in place"); }
  is(-p, vadd({}, a, true), "negate"); { A x = p; x.NegateInPlace(); is(x, vadd({}, a, true), "negate in place"); }
  if constexpr (std::is_same_v<A, B>) { A x = p; x += x; is(x, vadd(a, a, false), "x += x"); x = p; x -= x; is(x, {}, "x -= x"); bool e = true; for (size_t i = 0; i < 5; ++i) if (co(a, i) != co(b, i)) e = false; sym_assert((p == q) == e, "=="); sym_assert((p != q) == !e, "!="); }
  is(p, a, "operand unchanged"); is(q, b, "operand unchanged");
  sym_reached("end");
}
template <class A, class B> void mul() {
  V a, b; A p = Mk<A>::make("a", sym_choose(Mk<A>::kN, "la"), a); B q = Mk<B>::make("b", sym_choose(Mk<B>::kN, "lb"), b);
  V m = vmul(a, b); is(p * q, m, "mul");
  if constexpr (std::is_same_v<A, D> || std::is_same_v<B, S>) { A x = p; x *= q; is(x, m, "mul in place"); }
  if constexpr (std::is_same_v<A, B>) { A x = p; x *= x; is(x, vmul(a, a), "x *= x"); }
  is(p, a, "operand unchanged"); is(q, b, "operand unchanged");
  sym_reached("end");
}
template <class A, class B> void divmod() {
  V a, b; A p = Mk<A>::make("a", 1 + sym_choose(Mk<A>::kN - 1, "la"), a); B q = Mk<B>::make("b", sym_choose(Mk<B>::kN, "lb"), b);
  auto dm = p.DivMod(q); auto dv = p / q; auto md = p % q;
  if (q.IsZero()) { if (!p.IsZero()) { sym_assert(!dm, "division by zero is refused"); sym_assert(!dv, "division by zero is refused"); sym_assert(!md, "division by zero is refused"); sym_reached("zero"); } return; }
  sym_assert(dm.has_value() && dv.has_value() && md.has_value(), "division succeeds");
  V rq, rr; for (size_t i = 0; i < dm->quotient.NumElements(); ++i) rq.push_back(dm->quotient[i]); for (size_t i = 0; i < dm->remainder.NumElements(); ++i) rr.push_back(dm->remainder[i]);
  V t = vadd(vmul(rq, b), rr, false); for (size_t i = 0; i < std::max(t.size(), a.size()); ++i) sym_assert(co(t, i) == co(a, i), "a = q * d + r");
  sym_assert(rr.empty() || p.IsZero() || dm->remainder.Degree() < q.Degree() , "deg r < deg d");
  is(dm->quotient, rq, "quotient is clean"); is(dm->remainder, rr, "remainder is clean");
  is(*dv, rq, "quotient"); is(*md, rr, "remainder");
  if constexpr (std::is_same_v<A, D>) { A x = p; sym_assert((x /= q).has_value(), "divide in place"); is(x, rq, "divide in place"); x = p; sym_assert(x.ModInPlace(q).has_value(), "mod in place"); is(x, rr, "mod in place"); }
  if constexpr (std::is_same_v<A, D> && std::is_same_v<B, D>) { A x = p; if (!x.IsZero()) { sym_assert((x /= x).has_value(), "x /= x"); is(x, {F::One()}, "x /= x"); } }
  is(q, b, "operand unchanged");
  sym_reached("end");
}
template <class A, class B> void divzero() {
  V b; A p = A::Zero(); B q = Mk<B>::make("b", 1 + sym_choose(Mk<B>::kN - 1, "lb"), b); auto dm = p.DivMod(q); auto dv = p / q; auto md = p % q;
  sym_assert(dm && dv && md, "0 / d succeeds"); is(dm->quotient, {}, "0 / d = 0"); is(*dv, {}, "0 / d = 0");
  for (const D& r : {dm->remainder, *md}) if (!r.IsZero()) { is(r, b, "0 mod d is 0 or d"); sym_assert(false, "0 mod d is 0"); }
  sym_reached("end");
}
template <class A> void scalar() {
  V a; A p = Mk<A>::make("a", sym_choose(Mk<A>::kN, "la"), a); F s = sv("s", 0); V m; for (auto& x : a) m.push_back(x * s);
  is(p * s, m, "scalar mul"); { A x = p; x *= s; is(x, m, "scalar mul in place"); }
  auto q = p / s; if (s.IsZero()) { sym_assert(!q, "scalar division by zero is refused"); A x = p; sym_assert(!(x /= s), "scalar division by zero is refused"); sym_reached("zero"); return; }
  V w; for (auto& x : a) w.push_back(*(x / s)); sym_assert(q.has_value(), "scalar div"); is(*q, w, "scalar div"); A x = p; sym_assert((x /= s).has_value(), "scalar div in place"); is(x, w, "scalar div in place");
  sym_reached("end");
}
template <class A> void unary() {
  V a; A p = Mk<A>::make("a", sym_choose(Mk<A>::kN, "la"), a); F x = sv("x", 0);
  sym_assert(p.Evaluate(x) == veval(a, x), "evaluate");
  V f; F r = sv("r", 0); for (size_t i = 0; i < a.size(); i += 2) f.push_back(a[i] + co(a, i + 1) * r); is(p.Fold(r), f, "fold");
  is(p.ToDense(), a, "to dense"); is(p.ToSparse(), a, "to sparse"); is(p, a, "operand unchanged");
  bool one = a.size() && a[0].IsOne(); for (size_t i = 1; i < a.size(); ++i) if (!a[i].IsZero()) one = false; sym_assert(p.IsOne() == one, "IsOne");
  is(A::Zero(), {}, "Zero"); is(A::One(), {F::One()}, "One");
  for (size_t i = 0; i < a.size(); ++i) { if (!a[i].IsZero()) { A y = p; y.at(i) = x; sym_assert(y[i] == x, "at"); } }
  sym_reached("end");
}
#define BIN(N, A, B) SYM_HARNESS(addsub_##N) { addsub<A, B>(); } SYM_HARNESS(mul_##N) { mul<A, B>(); } SYM_HARNESS(divmod_##N) { divmod<A, B>(); } SYM_HARNESS(divzero_##N) { divzero<A, B>(); }
BIN(dd, D, D) BIN(ds, D, S) BIN(sd, S, D) BIN(ss, S, S)
SYM_HARNESS(scalar_d) { scalar<D>(); } SYM_HARNESS(scalar_s) { scalar<S>(); }
SYM_HARNESS(unary_d) { unary<D>(); } SYM_HARNESS(unary_s) { unary<S>(); }
SYM_HARNESS(cleanup) {  // arbitrary (possibly zero) coefficients
  unsigned n = sym_choose(5, "n"); V a; std::vector<UnivariateTerm<F>> t; for (unsigned i = 0; i < n; ++i) { a.push_back(sv("a", i)); t.push_back({2 * i + 1, a[i]}); }
  is(D(DC(a, true)), a, "cleanup"); is(D(DC(V(a), true)), a, "cleanup"); V w; for (unsigned i = 0; i < n; ++i) { w.push_back(F::Zero()); w.push_back(a[i]); }
  is(S(SC(t, true)), w, "sparse cleanup"); is(S(SC(std::vector<UnivariateTerm<F>>(t), true)), w, "sparse cleanup");
  DC d(a, true); sym_assert(d.IsClean(), "clean"); DC raw(a); bool c = n == 0 || !a[n - 1].IsZero(); sym_assert(raw.IsClean() == c, "IsClean"); raw.RemoveHighDegreeZeros(); sym_assert(raw == d, "RemoveHighDegreeZeros");
  sym_reached("end");
}
SYM_HARNESS(sparse_eval) {
  static const size_t deg[] = {0, 1, 2, 3, 4, 7, 8, 31, 32, 255, 256, 1000, 4096}; size_t i = sym_choose(13, "i"), j = sym_choose(13, "j"); sym_assume(i <= j);
  F c = nz("c", 0), d = nz("c", 1), x = sv("x", 0); std::vector<UnivariateTerm<F>> t{{deg[i], c}}; if (i < j) t.push_back({deg[j], d});
  S p(SC(std::move(t))); F e = c; for (size_t k = 0; k < deg[i]; ++k) e *= x; if (i < j) { F g = d; for (size_t k = 0; k < deg[j]; ++k) g *= x; e += g; }
  sym_assert(p.Evaluate(x) == e, "sparse evaluate"); sym_assert(p.Degree() == deg[j], "sparse degree"); sym_assert(p[deg[i]] == c, "sparse coefficient"); sym_reached("end");
}
SYM_HARNESS(roots) {
  unsigned n = sym_choose(5, "n"); V r; V w{F::One()}; for (unsigned i = 0; i < n; ++i) { r.push_back(sv("r", i)); w = vmul(w, V{-r[i], F::One()}); }
  is(D::FromRoots(r), w, "from roots"); is(S::FromRoots(r), w, "from roots (sparse)"); F x = sv("x", 0);
  F e = F::One(); for (auto& y : r) e *= x - y; sym_assert(D::EvaluateVanishingPolyByRoots(r, x) == e, "vanishing polynomial by roots"); sym_assert(D::EvaluateVanishingPolyByRootsSerial(r, x) == e, "vanishing polynomial by roots");
  sym_reached("end");
}
SYM_HARNESS(lagrange) {
  unsigned n = 1 + sym_choose(4, "n"); V x, y; for (unsigned i = 0; i < n; ++i) { x.push_back(i < 2 ? sv("x", i) : F(10 + i)); y.push_back(sv("y", i)); }
  for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < i; ++j) sym_assume(x[i] != x[j]);
  D p; sym_assert(LagrangeInterpolate(x, y, &p), "interpolation succeeds"); sym_assert(p.Degree() < n, "degree < n"); sym_assert(p.coefficients().IsClean(), "clean");
  for (unsigned i = 0; i < n; ++i) sym_assert(p.Evaluate(x[i]) == y[i], "p(x_i) = y_i");
  V z = y; z.push_back(F::One()); D q; sym_assert(!LagrangeInterpolate(x, z, &q), "size mismatch is refused");
  sym_reached("end");
}
// evaluation form
static EV ev(const char* n, unsigned k, V& v) { for (unsigned i = 0; i < k; ++i) v.push_back(sv(n, i)); return EV(v); }
static void isv(const EV& e, const V& v, const char* m) { sym_assert(e.evaluations().size() == v.size(), m); for (size_t i = 0; i < v.size(); ++i) { sym_assert(e[i] == v[i], m); sym_assert(e.evaluations()[i] == v[i], m); } sym_assert(e[v.size()].IsZero(), m); sym_assert(e.NumElements() == v.size() && e.Degree() == (v.empty() ? 0 : v.size() - 1), m); }
// an empty evaluation vector is the zero polynomial
static V pt(const V& a, const V& b, int op) { V r; size_t n = std::max(a.size(), b.size()); for (size_t i = 0; i < n; ++i) { F x = co(a, i), y = co(b, i); r.push_back(op == 0 ? x + y : op == 1 ? x - y : x * y); } return r; }
SYM_HARNESS(evals) {
  unsigned n = sym_choose(4, "n"); bool ea = sym_choose(2, "ea"), eb = sym_choose(2, "eb"); V a, b; EV p = ev("a", ea ? 0 : n, a), q = ev("b", eb ? 0 : n, b);
  auto chk = [&](const EV& e, int op, const char* m) { V w = pt(a, b, op); if (e.evaluations().empty()) { for (auto& x : w) sym_assert(x.IsZero(), m); } else isv(e, w, m); };
  chk(p + q, 0, "evaluations add"); chk(p - q, 1, "evaluations sub"); chk(p * q, 2, "evaluations mul");
  { EV x = p; x += q; chk(x, 0, "evaluations add in place"); x = p; x -= q; chk(x, 1, "evaluations sub in place"); x = p; x *= q; chk(x, 2, "evaluations mul in place"); }
  { EV x = p; x += x; isv(x, pt(a, a, 0), "x += x"); x = p; x -= x; isv(x, pt(a, a, 1), "x -= x"); x = p; x *= x; isv(x, pt(a, a, 2), "x *= x"); x.NegateInPlace(); isv(-x, pt(a, a, 2), "negate"); }
  bool e = true, z = true, o = !a.empty(); for (size_t i = 0; i < n; ++i) { if (co(a, i) != co(b, i)) e = false; if (!co(a, i).IsZero()) z = false; if (!co(a, i).IsOne()) o = false; }
  sym_assert((p == q) == e, "evaluations =="); sym_assert((p != q) == !e, "evaluations !="); sym_assert(p.IsZero() == z, "evaluations IsZero"); sym_assert(p.IsOne() == o, "evaluations IsOne");
  F s = sv("s", 0); V m; for (auto& x : a) m.push_back(x * s); auto ms = [&](const EV& y, const char* t) { if (y.evaluations().empty()) { for (auto& x : m) sym_assert(x.IsZero(), t); } else isv(y, m, t); };
  ms(p * s, "evaluations scalar mul"); { EV x = p; x *= s; ms(x, "evaluations scalar mul in place"); }
  isv(EV::One(n), V(n + 1, F::One()), "evaluations One"); sym_assert(EV::Zero().IsZero(), "evaluations Zero");
  if (!a.empty()) { EV x = p; x.at(0) = s; sym_assert(x[0] == s, "evaluations at"); }
  sym_reached("end");
}
SYM_HARNESS(evals_div) {
  unsigned n = 1 + sym_choose(3, "n"); bool ea = sym_choose(2, "ea"), eb = sym_choose(2, "eb"); V a, b; EV p = ev("a", ea ? 0 : n, a), q = ev("b", eb ? 0 : n, b); F s = sv("s", 0);
  auto d = p / q; bool z = b.empty(); for (auto& y : b) if (y.IsZero()) z = true; EV x = p; bool ok = (x /= q).has_value();
  if (!(ea && !b.empty())) { sym_assert(d.has_value() == !z, "evaluations div exists iff no divisor value is zero"); sym_assert(ok == !z, "evaluations div in place exists iff no divisor value is zero"); }
  if (!z) { V w; for (size_t i = 0; i < a.size(); ++i) w.push_back(*(a[i] / b[i])); isv(*d, w, "evaluations div"); isv(x, w, "evaluations div in place"); }
  auto ds = p / s; EV y = p; bool oks = (y /= s).has_value(); sym_assert(ds.has_value() == !s.IsZero() && oks == !s.IsZero(), "evaluations scalar div"); if (!s.IsZero()) { V w; for (auto& t : a) w.push_back(*(t / s)); isv(*ds, w, "evaluations scalar div"); isv(y, w, "evaluations scalar div in place"); }
  sym_reached("end");
}
