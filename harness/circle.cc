// The circle group x^2 + y^2 = 1, and the generic group algorithms (scalar multiplication, powers, linear combinations, batch inversion), over symbolic fields.
// Oracle: complex multiplication written out; powers and multiples by repeated application.
#include "alg_fields.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/circle/m31/g1.h"
#include "tachyon/math/geometry/point3.h"
#include "tachyon/math/geometry/point4.h"
using namespace tachyon::math; using namespace tachyon;
using B = Mersenne31; using AP = m31::G1AffinePoint; using F = bn254::Fr; using V = std::vector<F>;
static void init() { B::Init(); F::Init(); BabyBear::Init(); m31::G1Circle::Init(); }
SYM_INIT(init)
static B bv(const char* n) { return symv<B>(n); }
static AP pt(const char* n) { std::string s = n; B x = bv((s + "x").c_str()), y = bv((s + "y").c_str()); sym_assume((x * x + y * y - B::One()).IsZero()); return AP(x, y); }
static void is(const AP& p, const B& x, const B& y, const char* m) { sym_assert(p.x() == x && p.y() == y, m); }
#ifndef GENERIC
SYM_HARNESS(circle_group) {
  AP p = pt("p"), q = pt("q"), r = pt("r"); B x = p.x() * q.x() - p.y() * q.y(), y = p.x() * q.y() + p.y() * q.x(); AP s = p + q;
  is(s, x, y, "add is complex multiplication"); AP t = p; t += q; is(t, x, y, "add in place"); sym_assert(s.IsOnCircle(), "sum is on the circle"); is(q + p, x, y, "commutative"); sym_assert((p + q) + r == p + (q + r), "associative");
  sym_assert(s - q == p, "(p + q) - q = p"); t = s; t -= q; sym_assert(t == p, "subtract in place"); sym_assert((p - p).IsZero(), "p - p = 0"); t = p; t -= t; sym_assert(t.IsZero(), "p -= p"); t = p; t += t; sym_assert(t == p + p, "p += p");
  sym_assert(p + AP::Zero() == p && AP::Zero() + p == p && p - AP::Zero() == p, "identity"); sym_assert(AP() == AP::Zero() && AP::Zero().IsZero(), "default is the identity"); sym_assert((p + (-p)).IsZero(), "inverse"); t = p; t.NegateInPlace(); sym_assert(t == -p && p.Conjugate() == -p, "negate"); sym_assert(AP::Zero() - p == -p, "0 - p");
  sym_assert(p.Double() == p + p, "double"); t = p; t.DoubleInPlace(); sym_assert(t == p + p, "double in place"); AP a = p.Antipode(); is(a, -p.x(), -p.y(), "antipode"); sym_assert(a.IsOnCircle() && a + a == p + p, "antipode differs by the point of order 2");
  sym_assert((p == q) == (p.x() == q.x() && p.y() == q.y()) , "=="); sym_assert((p != q) == !(p == q), "!="); sym_assert(p.IsZero() == (p.x() == B::One() && p.y().IsZero()), "IsZero"); sym_reached("end");
}
SYM_HARNESS(circle_curve) { B x = bv("x"), y = bv("y"); AP p(x, y); sym_assert(p.IsOnCircle() == (x * x + y * y == B::One()), "IsOnCircle"); AP g = AP::Generator(); sym_assert(g.IsOnCircle(), "generator is on the circle"); for (int i = 0; i < 30; ++i) g.DoubleInPlace(); sym_assert(!g.IsZero() && g == AP::Zero().Antipode(), "2^30 G has order 2"); g.DoubleInPlace(); sym_assert(g.IsZero(), "the generator has order 2^31"); sym_reached("end"); }
SYM_HARNESS(circle_mul) { AP p = pt("p"); uint32_t k = sym_choose(12, "k"); AP e = AP::Zero(); for (uint32_t i = 0; i < k; ++i) e = e + p; AP m = p.ScalarMul(k); sym_assert(m == e, "scalar multiple is repeated addition"); sym_reached("end"); }
template <class P, size_t N> void geo() {
  B a[4], b[4]; for (size_t i = 0; i < N; ++i) { a[i] = bv(("a" + std::to_string(i)).c_str()); b[i] = bv(("b" + std::to_string(i)).c_str()); } P p, q; bool z = true;
  if constexpr (N == 2) { p = P(a[0], a[1]); q = P(b[0], b[1]); z = P().x.IsZero() && P().y.IsZero(); sym_assert(p.x == a[0] && p.y == a[1], "coordinates"); } else if constexpr (N == 3) { p = P(a[0], a[1], a[2]); q = P(b[0], b[1], b[2]); z = P().x.IsZero() && P().y.IsZero() && P().z.IsZero(); sym_assert(p.x == a[0] && p.y == a[1] && p.z == a[2], "coordinates"); } else { p = P(a[0], a[1], a[2], a[3]); q = P(b[0], b[1], b[2], b[3]); sym_assert(p.x == a[0] && p.y == a[1] && p.z == a[2] && p.w == a[3], "coordinates"); z = P().w.IsZero(); }
  bool e = true; for (size_t i = 0; i < N; ++i) if (a[i] != b[i]) { e = false; break; } sym_assert((p == q) == e && (p != q) == !e, "points are equal exactly when all coordinates are"); sym_assert(z, "the default point is 0"); sym_reached("end");
}
SYM_HARNESS(point2) { geo<Point2<B>, 2>(); }
SYM_HARNESS(point3) { geo<Point3<B>, 3>(); }
SYM_HARNESS(point4) { geo<Point4<B>, 4>(); }
#else
// generic algorithms, on the additive and multiplicative group of a symbolic field
static F sv(const char* p, size_t i) { return symv<F>((p + std::to_string(i)).c_str()); }
static F pw(const F& b, size_t e) { F r = F::One(); while (e--) r *= b; return r; }
SYM_HARNESS(pow) {
  F x = symv<F>("x"); size_t e = sym_choose(54, "e"); if (e > 40) e = (size_t{1} << (6 + (e - 41) / 3)) + (e - 41) % 3 - 1; F y = pw(x, e); sym_assert(x.Pow(e) == y, "Pow"); sym_assert(x.Pow(BigInt<4>(e)) == y, "Pow of a big integer"); sym_assert(x.Pow(F(e)) == y, "Pow of a field element");
  V t{x}; for (int i = 0; i < 11; ++i) t.push_back(t.back() * t.back()); sym_assert(F::PowWithTable(absl::MakeConstSpan(t), BigInt<4>(e)) == y, "PowWithTable"); sym_reached("end");
}
SYM_HARNESS(const_pow) {
  F x = symv<F>("x"); sym_assert(x.ConstPow<0>() == F::One() && x.ConstPow<1>() == x && x.ConstPow<2>() == pw(x, 2) && x.ConstPow<3>() == pw(x, 3) && x.ConstPow<4>() == pw(x, 4) && x.ConstPow<5>() == pw(x, 5) && x.ConstPow<6>() == pw(x, 6) && x.ConstPow<7>() == pw(x, 7) && x.ConstPow<8>() == pw(x, 8) && x.ConstPow<11>() == pw(x, 11), "ConstPow");
  sym_assert(x.ConstScalarMul<0>().IsZero() && x.ConstScalarMul<1>() == x && x.ConstScalarMul<2>() == F(2) * x && x.ConstScalarMul<3>() == F(3) * x && x.ConstScalarMul<4>() == F(4) * x && x.ConstScalarMul<5>() == F(5) * x && x.ConstScalarMul<6>() == F(6) * x && x.ConstScalarMul<7>() == F(7) * x && x.ConstScalarMul<8>() == F(8) * x && x.ConstScalarMul<13>() == F(13) * x, "ConstScalarMul");
  for (uint32_t i = 0; i < 8; ++i) sym_assert(x.ExpPowOfTwo(i) == pw(x, size_t{1} << i), "ExpPowOfTwo"); sym_assert(x.Square() == x * x && x.Double() == x + x, "Square and Double"); F y = x; y.SquareInPlace(); sym_assert(y == x * x, "SquareInPlace"); y = x; y.DoubleInPlace(); sym_assert(y == x + x, "DoubleInPlace"); sym_reached("end");
}
static std::vector<BigInt<4>> scalars() { std::vector<BigInt<4>> r; for (uint64_t i = 0; i < 20; ++i) r.push_back(BigInt<4>(i)); for (size_t k : {31, 32, 63, 64, 65, 127, 128, 191, 192, 253}) for (int d = -1; d < 2; ++d) { BigInt<4> b(0); b[k / 64] = uint64_t{1} << k % 64; if (d == -1) b -= BigInt<4>(1); if (d == 1) b += BigInt<4>(1); r.push_back(b); } return r; }
SYM_HARNESS(scalar_mul) { F x = symv<F>("x"); auto s = scalars(); auto& k = s[sym_choose(s.size(), "k")]; sym_assert(x.ScalarMul(k) == F(k) * x, "ScalarMul"); if (k < BigInt<4>(uint64_t(1) << 63)) sym_assert(x.ScalarMul(k[0]) == F(k) * x, "ScalarMul of a machine integer"); sym_assert(x.ScalarMul(F(k)) == F(k) * x, "ScalarMul of a field element"); sym_reached("end"); }
SYM_HARNESS(multi_scalar_mul) {
  size_t n = sym_choose(4, "n"), m = sym_choose(4, "m"), o = sym_choose(4, "o"); V b; std::vector<uint64_t> k; for (size_t i = 0; i < n; ++i) b.push_back(sv("b", i)); for (size_t i = 0; i < m; ++i) k.push_back(3 + 5 * i + (uint64_t{1} << (20 * i))); V out(o, F::Zero()); F g = symv<F>("g");
  bool ok = F::MultiScalarMul(k, b, &out); sym_assert(ok == (n == m && n == o && n > 0), "size check"); if (ok) for (size_t i = 0; i < n; ++i) sym_assert(out[i] == F(k[i]) * b[i], "many scalars, many bases");
  ok = F::MultiScalarMul(k, g, &out); sym_assert(ok == (m == o && m > 0), "size check"); if (ok) for (size_t i = 0; i < m; ++i) sym_assert(out[i] == F(k[i]) * g, "many scalars, one base"); ok = F::MultiScalarMul(uint64_t{77}, b, &out); sym_assert(ok == (n == o && n > 0), "size check"); if (ok) for (size_t i = 0; i < n; ++i) sym_assert(out[i] == F(77) * b[i], "one scalar, many bases"); sym_reached("end");
}
SYM_HARNESS(successive) {
  size_t n = sym_choose(10, "n"); F g = symv<F>("g"), c = symv<F>("c"); auto p = F::GetSuccessivePowers(n, g); auto q = F::GetSuccessivePowers(n, g, c); auto m = F::GetSuccessiveScalarMuls(n, g); sym_assert(p.size() == n && q.size() == n && m.size() == n, "size");
  for (size_t i = 0; i < n; ++i) { sym_assert(p[i] == pw(g, i), "successive powers"); sym_assert(q[i] == c * pw(g, i), "scaled successive powers"); sym_assert(m[i] == F(i) * g, "successive multiples"); }
  if (n && (n & (n - 1)) == 0) { uint32_t l = 0; while (size_t{1} << l < n) ++l; auto r = F::GetBitRevIndexSuccessivePowers(n, g, c), s = F::GetBitRevIndexSuccessivePowersSerial(n, g, c); for (size_t i = 0; i < n; ++i) { size_t j = 0; for (uint32_t t = 0; t < l; ++t) if (i >> t & 1) j |= size_t{1} << (l - 1 - t); sym_assert(r[j] == c * pw(g, i), "bit-reversed powers"); sym_assert(s[j] == c * pw(g, i), "bit-reversed powers, serial"); } } sym_reached("end");
}
SYM_HARNESS(lincomb) {
  size_t n = sym_choose(5, "n"); V v; for (size_t i = 0; i < n; ++i) v.push_back(sv("v", i)); F r = symv<F>("r"), f = F::Zero(), b = F::Zero(); for (size_t i = 0; i < n; ++i) { f += v[i] * pw(r, n - 1 - i); b += v[i] * pw(r, i); }
  sym_assert(F::LinearCombination<true>(v, r) == f, "forward linear combination"); sym_assert(F::LinearCombination<false>(v, r) == b, "backward linear combination"); if (n) { V w = v; sym_assert(F::LinearCombinationInPlace<true>(w, r) == f, "forward, in place"); w = v; sym_assert(F::LinearCombinationInPlace<false>(w, r) == b, "backward, in place"); } sym_reached("end");
}
SYM_HARNESS(batch_inverse) {
  size_t n = sym_choose(5, "n"), w = sym_choose(4, "w"); V v, o(n, F::One()); for (size_t i = 0; i < n; ++i) v.push_back(sv("v", i)); F c = symv<F>("c"); bool ok; if (w == 0) ok = F::BatchInverse(v, &o, c); else if (w == 1) ok = F::BatchInverseSerial(v, &o, c); else { o = v; ok = w == 2 ? F::BatchInverseInPlace(o, c) : F::BatchInverseInPlaceSerial(o, c); }
  sym_assert(ok, "batch inversion succeeds"); for (size_t i = 0; i < n; ++i) { if (v[i].IsZero()) sym_assert(o[i].IsZero(), "0 stays 0"); else sym_assert(o[i] * v[i] == c, "scaled inverse"); } V bad(n + 1, F::One()); sym_assert(!F::BatchInverse(v, &bad), "size mismatch is refused"); sym_reached("end");
}
SYM_HARNESS(division) { F a = symv<F>("a"), b = symv<F>("b"); auto q = a / b; sym_assert(q.has_value() == !b.IsZero(), "division fails exactly for 0"); F t = a; auto r = t /= b; sym_assert(r.has_value() == q.has_value(), "in place"); if (q) { sym_assert(*q * b == a, "quotient"); sym_assert(t == *q && *r == &t, "in place"); } sym_assert(a - b == a + (-b), "subtraction"); t = a; t -= b; sym_assert(t == a - b, "subtraction in place"); sym_reached("end"); }
#endif
