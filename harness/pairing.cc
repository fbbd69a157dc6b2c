// Pairings: lines and points of the Miller loop over symbolic fields, the loop itself over formal divisors, the final exponentiation over formal exponents.
#include "alg_fields.h"
#include "third_party/gmp/include/gmpxx.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/bls12_381.h"
#include "tachyon/math/elliptic_curves/pairing/pairing.h"
using namespace tachyon::math; using F = bn254::Fr;
static void init() { F::Init(); bn254::BN254Curve::Init(); bls12_381::BLS12_381Curve::Init(); }
SYM_INIT(init)
static F sv(const char* n) { return symv<F>(n); }
template <class E> static E symx(const char* n) { using P = typename E::BaseField; return E(symv<P>(n), symv<P>(n)); }
// ---- the real lines: tangent and chord, up to a factor of Fp2
template <class C> struct At : C { using C::Base::Ell; };
template <class Config> static void line(const EllCoeff<typename Config::Fp2>& l, const typename Config::Fp2& cy, const typename Config::Fp2& cx, const typename Config::Fp2& c) {  // cy Y + cx X + c
  bool m = Config::kTwistType == TwistType::kM; const auto& ly = m ? l.c2() : l.c0(); const auto& lc = m ? l.c0() : l.c2(); const auto& lx = l.c1(); sym_assert(ly * cx == lx * cy, "slope"); sym_assert(ly * c == lc * cy, "height"); sym_assert(lx * c == lc * cx, "proportion"); sym_assert(!ly.IsZero() || cy.IsZero(), "not everywhere");
}
template <class Curve> static void tangent() {
  using Config = typename Curve::Config; using E = typename Config::Fp2; using P = typename E::BaseField; E x = symx<E>("x"), y = symx<E>("y"), z = symx<E>("z"); E keep = Config::G2Curve::Config::kB; Config::G2Curve::Config::kB = y.Square() - x.Square() * x; /* any curve through the point */
  G2Projective<Config> r(x * z, y * z, z); auto l = r.DoubleInPlace(P::TwoInv()); Config::G2Curve::Config::kB = keep; E y2 = y.Double(), n = x.Square() * P(3), d2 = y2.Square(); sym_assert(r.x() * d2 == (n.Square() - x.Double() * d2) * r.z(), "x of the double"); sym_assert(r.y() * d2 * y2 == (n * (x * d2 - n.Square() + x.Double() * d2) - y * d2 * y2) * r.z(), "y of the double");
  E zz = y.Square() * y * z.Square().Square() * P(2); sym_assert(r.z() == zz, "z of the double"); line<Config>(l, y2, -n, n * x - y * y2); sym_reached("done");
}
template <class Curve> static void chord() {
  using Config = typename Curve::Config; using E = typename Config::Fp2; using A = typename Config::G2Curve::AffinePoint; E x = symx<E>("x"), y = symx<E>("y"), z = symx<E>("z"), u = symx<E>("u"), v = symx<E>("v"); G2Projective<Config> r(x * z, y * z, z); auto l = r.AddInPlace(A(u, v)); E t = y - v, d = x - u, d2 = d.Square();
  sym_assert(r.z() == z.Square().Square() * d2 * d, "z of the sum"); sym_assert(r.x() * d2 == (t.Square() - (x + u) * d2) * r.z(), "x of the sum"); sym_assert(r.y() * d2 * d == (t * (x * d2 - t.Square() + (x + u) * d2) - y * d2 * d) * r.z(), "y of the sum"); line<Config>(l, d, -t, t * u - d * v); G2Projective<Config> n(x, y, z); n.NegateInPlace(); sym_assert(n.x() == x && n.y() == -y && n.z() == z, "negative"); sym_reached("done");
}
template <class Curve> static void place() {  // the line's value at P, in the twelfth-degree field
  using Config = typename Curve::Config; using E = typename Config::Fp2; using T = typename Config::Fp12; using S = typename T::BaseField; using P = typename E::BaseField; using A = typename Config::G1Curve::AffinePoint; E a = symx<E>("a"), b = symx<E>("b"), c = symx<E>("c"); P x = symv<P>("x"), y = symv<P>("y"); T f = T::One(); At<Curve>::Ell(f, EllCoeff<E>(a, b, c), A(x, y)); E o = E::Zero();
  T w(S::Zero(), S::One()), e(S(a, o, o), S::Zero()); auto up = [&](const E& v) { return T(S(v, o, o), S::Zero()); }; T w2 = w * w, w3 = w2 * w;
  T want = Config::kTwistType == TwistType::kM ? up(a) + up(b * x) * w2 + up(c * y) * w3 : up(a * y) + up(b * x) * w + up(c) * w3; sym_assert(f == want, "the line at P"); T g(S(symx<E>("g"), o, symx<E>("g")), S(o, symx<E>("g"), o)), k = g; At<Curve>::Ell(k, EllCoeff<E>(a, b, c), A(x, y)); sym_assert(k == g * want, "multiplied by the line at P"); sym_reached("done");
}
SYM_HARNESS(tangent_bn254) { tangent<bn254::BN254Curve>(); }
SYM_HARNESS(tangent_bls12) { tangent<bls12_381::BLS12_381Curve>(); }
SYM_HARNESS(chord_bn254) { chord<bn254::BN254Curve>(); }
SYM_HARNESS(chord_bls12) { chord<bls12_381::BLS12_381Curve>(); }
SYM_HARNESS(place_bn254) { place<bn254::BN254Curve>(); }
SYM_HARNESS(place_bls12) { place<bls12_381::BLS12_381Curve>(); }
// ---- formal divisors: a point of G2 is its multiple of the generator, the line through aQ and bQ at P is g(a) + g(b) - g(a + b) for any odd function g of the point (and P)
static F G(const F& k, const F& s) { return symuf<F>("g", {k, s}) - symuf<F>("g", {-k, s}); }
static mpz_class Z(const char* s) { return mpz_class(s); }
static F small(const mpz_class& z) { mpz_class r; std::string s = z.get_str(2); F v = F::Zero(); for (char c : s) if (c != '-') { v = v + v; if (c == '1') v = v + F::One(); } return z < 0 ? -v : v; }
static mpz_class big(uint64_t x) { mpz_class r; mpz_import(r.get_mpz_t(), 1, -1, 8, 0, 0, &x); return r; }
struct Par { mpz_class x, p, r; };
template <class Config> static Par par() { Par o; o.x = big(Config::kX[0]); if (Config::kXIsNegative) o.x = -o.x; auto get = [](auto m) { mpz_class z; mpz_import(z.get_mpz_t(), std::size(m.limbs), -1, 8, 0, 0, m.limbs); return z; }; o.p = get(Config::G1Curve::BaseField::Config::kModulus); o.r = get(Config::G1Curve::ScalarField::Config::kModulus); return o; }
static F g_p; enum Tag { kNone, kQX, kQY };
struct ToyP { F s; static ToyP TwoInv() { return {F::Zero()}; } };
struct Toy2 { using BaseField = ToyP; F a = F::Zero(), b = F::Zero(), s = F::Zero(); int tag = kNone, pos = 0; bool one = false; static Toy2 One() { Toy2 t; t.one = true; return t; } Toy2 operator*(const ToyP& p) const { Toy2 t = *this; t.s = p.s; return t; } void FrobeniusMapInPlace(int e) { sym_assert(e == 1, "one power of the characteristic"); a = a * g_p; } Toy2& operator*=(const Toy2& o) { sym_assert(o.tag == pos, "the twist's constant for this coordinate"); return *this; } };
struct ToyA2 { Toy2 X, Y; ToyA2(F k) { X.a = Y.a = k; X.pos = kQX; Y.pos = kQY; } ToyA2(Toy2 x, Toy2 y) : X(x), Y(y) { sym_assert(x.a == y.a && x.pos == kQX && y.pos == kQY, "both coordinates"); } const Toy2& x() const { return X; } const Toy2& y() const { return Y; } bool IsZero() const { return X.a.IsZero(); } ToyA2 operator-() const { return ToyA2(-X.a); } ToyA2& NegateInPlace() { X.a = Y.a = -X.a; return *this; } };
struct ToyA1 { F s; ToyP x() const { return {s}; } ToyP y() const { return {s}; } bool IsZero() const { return s.IsZero(); } };
struct Toy12 { F v = F::Zero(); static Toy12 One() { return {}; } static void Init() {} Toy12& SquareInPlace() { v = v + v; return *this; } Toy12 operator*(const Toy12& o) const { return {v + o.v}; } void ln(const Toy2& a, const Toy2& b) { sym_assert(a.a == b.a && a.b == b.b && a.s == b.s, "one line at one point"); v = v + G(a.a, a.s) + G(a.b, a.s) - G(a.a + a.b, a.s); } void MulInPlaceBy034(const Toy2& a, const Toy2& b, const Toy2&) { ln(a, b); } void MulInPlaceBy014(const Toy2&, const Toy2& b, const Toy2& c) { ln(c, b); } std::optional<Toy12*> CyclotomicInverseInPlace() { v = -v; return this; } };
struct ToyG1 { using AffinePoint = ToyA1; using ScalarField = F; using BaseField = F; }; struct ToyG2 { using AffinePoint = ToyA2; using BaseField = Toy2; };
template <class R> struct ToyC { static constexpr auto kX = R::kX; static constexpr size_t kXLimbNums = 1; static constexpr bool kXIsNegative = R::kXIsNegative; static constexpr TwistType kTwistType = R::kTwistType; using Fp12 = Toy12; using Fp2 = Toy2; using G1Curve = ToyG1; using G2Curve = ToyG2; static void Init() {} static inline Toy2 kTwistMulByQX, kTwistMulByQY; };
template <class R> struct ToyBN : ToyC<R> { static constexpr auto& kAteLoopCount = R::kAteLoopCount; };
namespace tachyon::math {
template <class C> struct ToyProj { F k; ToyProj(const Toy2& x, const Toy2& y, const Toy2& z) : k(x.a) { sym_assert(x.pos == kQX && y.pos == kQY && x.a == y.a && z.one, "starts at the point"); } EllCoeff<Toy2> ln(const F& b) { Toy2 t; t.a = k; t.b = b; k = k + b; return {t, t, t}; } EllCoeff<Toy2> DoubleInPlace(const ToyP&) { return ln(k); } EllCoeff<Toy2> AddInPlace(const ToyA2& q) { return ln(q.X.a); } ToyProj& NegateInPlace() { k = -k; return *this; } };
template <class R> class G2Projective<ToyBN<R>> : public ToyProj<R> { using ToyProj<R>::ToyProj; };
template <class R> class G2Projective<ToyC<R>> : public ToyProj<R> { using ToyProj<R>::ToyProj; };
}
template <class Curve, class R, bool BN> static void miller(size_t most) {
  Par o = par<R>(); g_p = small(o.p % o.r); Curve::Config::kTwistMulByQX.tag = kQX; Curve::Config::kTwistMulByQY.tag = kQY; size_t n = sym_choose(most, "pairs"), zero = sym_choose(n + 1, "zero"), what = zero < n ? 1 + sym_choose(2, "which") : 0; std::vector<ToyA1> a; std::vector<ToyA2> b; std::vector<typename Curve::G2Prepared> c; F want = F::Zero(); mpz_class m = BN ? mpz_class(6 * o.x + 2) : o.x; F mm = small(m);
  for (size_t i = 0; i < n; ++i) { F q = sv("q"), s = sv("s"); sym_assume(!q.IsZero()); sym_assume(!s.IsZero()); if (i == zero) (what == 1 ? q : s) = F::Zero(); else { F t = mm * q; want = want + mm * G(q, s) - G(t, s); if (BN) { F u = q * g_p, v = -(u * g_p); want = want + G(t, s) + G(u, s) - G(t + u, s) + G(t + u, s) + G(v, s) - G(t + u + v, s); } } a.push_back({s}); b.push_back(ToyA2(q)); c.push_back(Curve::G2Prepared::From(b.back())); sym_assert(c.back().infinity() == (i == zero && what == 1), "infinity"); }
  sym_assert(Curve::MultiMillerLoop(a, c).v == want, "the product of the Miller functions"); sym_reached(zero < n ? "with zero" : "no zero");
}
using RB = bn254::BN254Curve::Config; using RL = bls12_381::BLS12_381Curve::Config;
SYM_HARNESS(miller_bn254) { miller<BNCurve<ToyBN<RB>>, RB, true>(7); }
SYM_HARNESS(miller_bls12) { miller<BLS12Curve<ToyC<RL>>, RL, false>(7); }
// ---- formal exponents, with the curve's parameter symbolic
static F g_x, g_q; static Par g_par; static mpz_class g_easy;
struct Exp { F v; mpz_class z; static Exp One() { return {F::Zero(), 0}; } void cyc(const char* m) const { sym_assert(z % g_easy == 0, m); } Exp operator*(const Exp& o) const { return {v + o.v, z + o.z}; } Exp& operator*=(const Exp& o) { return *this = *this * o; } std::optional<Exp> Inverse() const { return Exp{-v, -z}; } static F pw(const F& b, int e) { F r = F::One(); while (e-- > 0) r = r * b; return r; } Exp& FrobeniusMapInPlace(int e) { mpz_class t = 1; for (int i = 0; i < e; ++i) t *= g_par.p; v = v * pw(g_q, e); z *= t; return *this; }
  std::optional<Exp> CyclotomicInverse() const { Exp t = *this; (void)t.CyclotomicInverseInPlace(); return t; } std::optional<Exp*> CyclotomicInverseInPlace() { F w = v; bool in = z % g_easy == 0; FrobeniusMapInPlace(6); if (in) v = -w; /* conjugation inverts in the cyclotomic subgroup */ return this; } Exp CyclotomicSquare() const { cyc("squared in the cyclotomic subgroup only"); return {v + v, z * 2}; } Exp& CyclotomicSquareInPlace() { return *this = CyclotomicSquare(); } Exp CyclotomicPow(const BigInt<1>& e) const { cyc("raised in the cyclotomic subgroup only"); mpz_class k = big(e[0]); sym_assert(k == abs(g_par.x), "the curve's parameter"); return {v * g_x, z * k}; } };
template <class R> struct ExpC : ToyC<R> { using Fp12 = Exp; }; template <class R> struct ExpBN : ToyBN<R> { using Fp12 = Exp; };
template <class Curve, class R> static void final(bool bn) {
  g_par = par<R>(); const mpz_class &p = g_par.p, &x = g_par.x; mpz_class p2 = p * p, p4 = p2 * p2, p6 = p4 * p2, all = p6 * p6 - 1; g_easy = (p6 - 1) * (p2 + 1); g_x = sv("x"); F X = R::kXIsNegative ? -g_x : g_x, one = F::One(), X2 = X * X, X4 = X2 * X2; auto k = [](int i) { return F(i); }; F q, r;
  if (bn) { q = k(36) * X4 + k(36) * X2 * X + k(24) * X2 + k(6) * X + one; r = k(36) * X4 + k(36) * X2 * X + k(18) * X2 + k(6) * X + one; } else { q = (X - one) * (X - one) * (X4 - X2 + one) * *k(3).Inverse() + X; r = X4 - X2 + one; }
  { mpz_class P, Rr, x2 = x * x, x4 = x2 * x2; if (bn) { P = 36 * x4 + 36 * x2 * x + 24 * x2 + 6 * x + 1; Rr = P - 6 * x2; } else { P = (x - 1) * (x - 1) * (x4 - x2 + 1) / 3 + x; Rr = x4 - x2 + 1; } sym_assert(P == p && Rr == g_par.r, "the fields' moduli are those of the parameter"); }
  g_q = q; F e = sv("f"); Exp f{e, 1}; Exp o = Curve::FinalExponentiation(f); mpz_class m = bn ? mpz_class(2 * x * (6 * x * x + 3 * x + 1)) : mpz_class(3), hard = (p4 - p2 + 1) / g_par.r; mpz_class d = o.z - g_easy * hard * m; sym_assert(d % all == 0, "the power of the reduced pairing"); sym_assert(m % g_par.r != 0, "not degenerate");
  F q2 = q * q, q6 = q2 * q2 * q2, Hr = (bn ? k(2) * X * (k(6) * X2 + k(3) * X + one) : k(3)) * (q2 * q2 - q2 + one), id = o.v * r - e * (q6 - one) * (q2 + one) * Hr; sym_assert(id.IsZero(), "the same power for every curve of the family"); sym_reached("done");
}
SYM_HARNESS(final_bn254) { final<BNCurve<ExpBN<RB>>, RB>(true); }
SYM_HARNESS(final_bls12) { final<BLS12Curve<ExpC<RL>>, RL>(false); }
// powers in the cyclotomic subgroup: signed digits over formal exponents
struct Cyc; namespace tachyon::math { template <> struct FiniteFieldTraits<Cyc> { using Config = F::Config; static constexpr bool kIsPrimeField = false, kIsPackedPrimeField = false, kIsExtensionField = false, kIsPackedExtensionField = false, kIsBinaryField = false; }; }
struct Cyc : CyclotomicMultiplicativeSubgroup<Cyc> { F v = F::Zero(); Cyc() = default; explicit Cyc(F f) : v(f) {} static Cyc One() { return Cyc(); } static Cyc Zero() { return Cyc(); } bool IsZero() const { return false; } std::optional<Cyc> FastCyclotomicInverse() const { return Cyc(-v); } std::optional<Cyc*> FastCyclotomicInverseInPlace() { v = -v; return this; } Cyc FastCyclotomicSquare() const { return Cyc(v + v); } Cyc& FastCyclotomicSquareInPlace() { v = v + v; return *this; } Cyc& operator*=(const Cyc& o) { v = v + o.v; return *this; } };
SYM_HARNESS(cyclotomic_power) { Cyc c(sv("f")); uint64_t e[] = {0, 1, 2, 3, RB::kX[0], RL::kX[0], ~uint64_t{0}, uint64_t{1} << 63, 0xaaaaaaaaaaaaaaaau, 0x5555555555555555u, 0xfffffffffffffffeu, 0x7fffffffffffffffu, 0xdb6db6db6db6db6du, 0xc000000000000003u, 0x8000000000000001u, 6}; uint64_t k = e[sym_choose(16, "e")]; sym_assert(c.CyclotomicPow(BigInt<1>(k)).v == c.v * small(big(k)), "power"); uint64_t h = e[sym_choose(16, "high")]; sym_assert(c.CyclotomicPow(BigInt<2>({k, h})).v == c.v * small(big(k) + (big(h) << 64)), "power of two limbs"); sym_reached("done"); }
// ---- the instances' constants
template <class Curve> static void constants(bool bn) {
  using Config = typename Curve::Config; using E = typename Config::Fp2; using T = typename Config::Fp12; using S = typename T::BaseField; using P = typename E::BaseField; using C1 = typename Config::G1Curve; using C2 = typename Config::G2Curve; Par o = par<Config>(); E z = E::Zero(); T w(S::Zero(), S::One()), w6 = w * w * w; w6 = w6 * w6; auto up = [&](const E& v) { return T(S(v, z, z), S::Zero()); };
  T b1 = up(E(C1::Config::kB, P::Zero())), b2 = up(C2::Config::kB); sym_assert(Config::kTwistType == TwistType::kM ? b2 == b1 * w6 : b2 * w6 == b1, "the twist"); sym_assert(C1::Config::kA.IsZero() && C2::Config::kA.IsZero(), "no linear term");
  if constexpr (std::is_same_v<Curve, bn254::BN254Curve>) { T w2 = w * w, w3 = w2 * w, f2 = w2, f3 = w3; f2.FrobeniusMapInPlace(1); f3.FrobeniusMapInPlace(1); sym_assert(f2 == up(Config::kTwistMulByQX) * w2 && f3 == up(Config::kTwistMulByQY) * w3, "Frobenius on the twist"); mpz_class n = 0; for (size_t i = std::size(Config::kAteLoopCount); i-- > 0;) n = 2 * n + Config::kAteLoopCount[i]; sym_assert(n == 6 * o.x + 2, "length of the loop"); }
  auto g1 = C1::AffinePoint::Generator(); auto g2 = C2::AffinePoint::Generator(); sym_assert(g1.y() * g1.y() == g1.x() * g1.x() * g1.x() + C1::Config::kB && g2.y() * g2.y() == g2.x() * g2.x() * g2.x() + C2::Config::kB, "generators on their curves"); auto order = [&](auto g) { auto j = decltype(g.ToJacobian())::Zero(); std::string s = o.r.get_str(2); for (char c : s) { j = j.Double(); if (c == '1') j += g; } return j.IsZero(); }; sym_assert(order(g1), "order of the first generator"); sym_assert(order(g2), "order of the second generator"); sym_assert(!g1.IsZero() && !g2.IsZero(), "generators are not zero"); sym_reached("done");
}
SYM_HARNESS(constants_bn254) { constants<bn254::BN254Curve>(true); }
SYM_HARNESS(constants_bls12) { constants<bls12_381::BLS12_381Curve>(false); }
