// Rational field elements stand for numerator over denominator, and zk::Value for a value that may be unknown.
#include "alg_fields.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/base/rational_field.h"
#include "tachyon/zk/base/value.h"
using namespace tachyon; using F = math::bn254::Fr; using R = math::RationalField<F>; using V = zk::Value<F>;
static void init() { F::Init(); }
SYM_INIT(init)
static F sv(const char* n) { return symv<F>(n); }
static R rat(const char* n) { F d = sv("den"); sym_assume(!d.IsZero()); return R(sv(n), d); }
static F val(const R& r) { return r.numerator() * *r.denominator().Inverse(); }
SYM_HARNESS(rational_ops) {
  R a = rat("a"), b = rat("b"); F x = val(a), y = val(b), r, w; size_t op = sym_choose(12, "op"); R t = a;
  switch (op) { case 0: r = val(a + b); w = x + y; break; case 1: t += b; r = val(t); w = x + y; break; case 2: r = val(a - b); w = x - y; break; case 3: t -= b; r = val(t); w = x - y; break; case 4: r = val(a * b); w = x * y; break; case 5: t *= b; r = val(t); w = x * y; break; case 6: r = val(-a); w = -x; break; case 7: t.NegateInPlace(); r = val(t); w = -x; break; case 8: r = val(a.Double()); w = x + x; break; case 9: t.DoubleInPlace(); r = val(t); w = x + x; break; case 10: r = val(a.Square()); w = x * x; break; default: t.SquareInPlace(); r = val(t); w = x * x; }
  sym_assert(r == w, "the operation on the values"); sym_assert((a == b) == (x == y), "equal exactly if the values are"); sym_assert((a != b) == (x != y), "different exactly if the values are"); sym_reached("done");
}
SYM_HARNESS(rational_inverse) { R a = rat("a"), b = rat("b"); F x = val(a), y = val(b); auto i = a.Inverse(); sym_assert(i.has_value() == !x.IsZero(), "inverted exactly if it isn't zero"); if (i) sym_assert(val(*i) * x == F::One(), "inverse"); R t = a; auto j = t.InverseInPlace(); sym_assert(j.has_value() == !x.IsZero(), "inverted in place"); sym_assert(i ? val(t) * x == F::One() : t == a, "inverse in place"); if (!y.IsZero()) { auto q = a / b; sym_assert(q.has_value() && val(*q) * y == x, "quotient"); t = a; auto k = t /= b; sym_assert(k.has_value() && val(t) * y == x, "quotient in place"); sym_reached("quotient"); } sym_reached(i ? "inverse" : "zero"); }
SYM_HARNESS(rational_predicates) { R a = rat("a"); F x = val(a); sym_assert(a.IsZero() == x.IsZero(), "zero"); sym_assert(a.IsOne() == x.IsOne(), "one"); sym_assert(a.IsMinusOne() == x.IsMinusOne(), "minus one"); sym_assert(a.Evaluate() == x, "evaluated"); R z = R::Zero(), o = R::One(), m = R::MinusOne(), h = R::TwoInv(), n(sv("n")); sym_assert(val(z).IsZero() && val(o).IsOne() && val(m) == -F::One() && val(h) * F(2) == F::One() && val(n) == n.numerator(), "constants"); sym_reached("done"); }
SYM_HARNESS(rational_batch) { size_t n = sym_choose(5, "n"); std::vector<R> v; std::vector<F> w; for (size_t i = 0; i < n; ++i) { v.push_back(rat("a")); w.push_back(val(v.back())); } std::vector<F> o(n, F(5)); bool k = sym_choose(2, "with a coefficient"); F c = k ? sv("coefficient") : F::One(); sym_assume(!c.IsZero()); bool ok = k ? R::BatchEvaluate(v, &o, c) : R::BatchEvaluate(v, &o); sym_assert(ok, "evaluated"); for (size_t i = 0; i < n; ++i) sym_assert(o[i] == w[i] * c, "value times coefficient"); std::vector<F> s(n + 1, F(3)); sym_assert(!R::BatchEvaluate(v, &s), "another size is refused"); sym_reached("done"); }
static V opt(const char* n, bool known) { return known ? V::Known(sv(n)) : V::Unknown(); }
SYM_HARNESS(value) {
  bool ka = sym_choose(2, "a known"), kb = sym_choose(2, "b known"); V a = opt("a", ka), b = opt("b", kb), z = V::Zero(); const F &x = ka ? a.value() : z.value(), &y = kb ? b.value() : z.value(); auto is = [&](const V& v, bool known, const F& w, const char* m) { sym_assert(v.IsNone() != known && (!known || v.value() == w), m); };
  is(a + b, ka && kb, x + y, "sum"); is(a - b, ka && kb, x - y, "difference"); is(a * b, ka && kb, x * y, "product"); is(-a, ka, -x, "negative"); is(a.Double(), ka, x + x, "double"); is(a.Square(), ka, x * x, "square"); F c = sv("c"); is(a.Add(c), ka, x + c, "sum with a value"); is(a.Sub(c), ka, x - c, "difference with a value"); is(a.Mul(c), ka, x * c, "product with a value");
  V t = a; t.NegateInPlace(); is(t, ka, -x, "negative in place"); t = a; t.DoubleInPlace(); is(t, ka, x + x, "double in place"); t = a; t.SquareInPlace(); is(t, ka, x * x, "square in place");
  bool eq = ka == kb && (!ka || x == y); sym_assert((a == b) == eq, "equal exactly if both are unknown or the same"); sym_assert((a != b) == !eq, "different otherwise"); sym_assert(a.IsZero() == (ka && x.IsZero()) && a.IsOne() == (ka && x.IsOne()) && a.IsMinusOne() == (ka && x.IsMinusOne()), "predicates");
  auto i = a.Inverse(); bool inv = !ka || !x.IsZero(); sym_assert(i.has_value() == inv, "inverted unless zero"); if (i && ka) sym_assert(i->value() * x == F::One(), "inverse"); if (i && !ka) sym_assert(i->IsNone(), "unknown"); t = a; auto j = t.InverseInPlace(); sym_assert(j.has_value() == inv, "inverted in place unless zero"); if (j && ka) sym_assert(t.value() * x == F::One(), "inverse in place");
  auto r = a.ToRationalFieldValue(); sym_assert(r.IsNone() != ka && (!ka || val(r.value()) == x), "as a rational"); sym_reached(ka ? kb ? "both" : "a" : kb ? "b" : "none");
}
