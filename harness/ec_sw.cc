// Short Weierstrass group law, symbolic coordinates. Oracle: the chord-and-tangent law on affine points, written below.
#include "alg_bn254.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/sw_curve.h"
#include "tachyon/math/geometry/point_conversions.h"
using namespace tachyon::math;
using F = bn254::Fq;
// a curve with a != 0 over the same base field (the project's templates, instantiated with another configuration)
struct AConf {
  using BaseField = F; using BasePrimeField = F; using ScalarField = bn254::Fr;
  using CpuBaseField = F; using CpuScalarField = bn254::Fr; using GpuBaseField = F; using GpuScalarField = bn254::Fr;
  using CpuCurveConfig = AConf; using GpuCurveConfig = AConf;
  constexpr static bool kAIsZero = false;
  static F kA, kB; static Point2<F> kGenerator;
  static F kEndomorphismCoefficient;
  static void Init() { kA = F(7); kB = F(11); }
  static F MulByA(const F& v) { return kA * v; }
};
F AConf::kA, AConf::kB, AConf::kEndomorphismCoefficient; Point2<F> AConf::kGenerator;
using C0 = bn254::G1Curve; using C1 = SWCurve<AConf>;
static void init() { C0::Init(); C1::Init(); }
SYM_INIT(init)

struct Pt { bool inf; F x, y; };
template <class C> struct T {
  using A = AffinePoint<C>; using J = JacobianPoint<C>; using P = ProjectivePoint<C>; using X = PointXYZZ<C>;
  static Pt dbl(const Pt& p) {
    if (p.inf || p.y.IsZero()) return {true};
    F l = *((p.x * p.x * F(3) + C::Config::kA) / (p.y + p.y));
    F x = l * l - p.x - p.x;
    return {false, x, l * (p.x - x) - p.y};
  }
  static Pt add(const Pt& p, const Pt& q) {
    if (p.inf) return q;
    if (q.inf) return p;
    if (p.x == q.x) { if (p.y == q.y) return dbl(p); return {true}; }
    F l = *((q.y - p.y) / (q.x - p.x));
    F x = l * l - p.x - q.x;
    return {false, x, l * (p.x - x) - p.y};
  }
  // a symbolic point; the same coordinates may be used for several points to reach the doubling and inverse cases
  static Pt sym(const char* a, const char* b) { Pt p; p.inf = sym_choose(2, "inf") == 1; p.x = symv<F>(a); p.y = symv<F>(b); return p; }
  static bool ok(const Pt& p) { return p.inf || !(p.x.IsZero() && p.y.IsZero()); }  // (0, 0) is not on the curve, it encodes the identity
  static F nz(const char* n) { return symv<F>(n); }
  static A a(const Pt& p) { return p.inf ? A::Zero() : A(p.x, p.y); }
  static J j(const Pt& p, const F& z) { return p.inf ? J(p.x, p.y, F::Zero()) : J(p.x * z * z, p.y * z * z * z, z); }
  static P p(const Pt& p, const F& z) { return p.inf ? P(p.x, p.y, F::Zero()) : P(p.x * z, p.y * z, z); }
  static X x(const Pt& p, const F& z) { return p.inf ? X(p.x, p.y, F::Zero(), F::Zero()) : X(p.x * z * z, p.y * z * z * z, z * z, z * z * z); }
  static void is(const A& r, const Pt& e) { sym_assert(r.IsZero() == e.inf, "affine: identity exactly when expected"); if (e.inf) return; sym_assert(r.x() == e.x, "affine x"); sym_assert(r.y() == e.y, "affine y"); }
  static void is(const J& r, const Pt& e) { sym_assert(r.IsZero() == e.inf, "jacobian: identity exactly when expected"); if (e.inf) return; F z2 = r.z() * r.z(); sym_assert(r.x() == e.x * z2, "jacobian x"); sym_assert(r.y() == e.y * z2 * r.z(), "jacobian y"); }
  static void is(const P& r, const Pt& e) { sym_assert(r.IsZero() == e.inf, "projective: identity exactly when expected"); if (e.inf) return; sym_assert(r.x() == e.x * r.z(), "projective x"); sym_assert(r.y() == e.y * r.z(), "projective y"); }
  static void is(const X& r, const Pt& e) {
    sym_assert(r.IsZero() == e.inf, "xyzz: identity exactly when expected"); if (e.inf) return;
    sym_assert(r.x() == e.x * r.zz(), "xyzz x"); sym_assert(r.y() == e.y * r.zzz(), "xyzz y");
    sym_assert(r.zz() * r.zz() * r.zz() == r.zzz() * r.zzz(), "xyzz: ZZ^3 = ZZZ^2");
  }
  template <class V> static V mk(const Pt& q, const F& z) {
    if constexpr (std::is_same_v<V, A>) return a(q); else if constexpr (std::is_same_v<V, J>) return j(q, z); else if constexpr (std::is_same_v<V, P>) return p(q, z); else return x(q, z);
  }
  template <class U, class V> static void add_case() {
    F z1 = symv<F>("z1"), z2 = symv<F>("z2"); if (z1.IsZero() || z2.IsZero()) return;
    Pt s = sym("x1", "y1"), t = sym("x2", "y2"); if (!ok(s) || !ok(t)) return;
    U u = mk<U>(s, z1); V v = mk<V>(t, z2);
    auto r = u + v; is(r, add(s, t));
    if constexpr (std::is_same_v<decltype(r), U>) { U w = u; w += v; is(w, add(s, t)); }
    Pt nt = t; nt.y = -t.y;
    auto d = u - v; is(d, add(s, nt));
    if constexpr (std::is_same_v<U, V>) sym_assert((u == v) == (s.inf == t.inf && (s.inf || (s.x == t.x && s.y == t.y))), "== compares the points");
    sym_reached("end");
  }
  template <class U> static void unary_case() {
    F z = symv<F>("z"); if (z.IsZero()) return;
    Pt s = sym("x", "y"); if (!ok(s)) return;
    U u = mk<U>(s, z);
    Pt d = dbl(s), n = s; n.y = -s.y;
    is(-u, n); U m = u; m.NegateInPlace(); is(m, n);
    if constexpr (std::is_same_v<U, A>) { is(u.DoubleProjective(), d); is(u.DoubleXYZZ(), d); is(u + u, d); }
    else { is(u.Double(), d); U w = u; w.DoubleInPlace(); is(w, d); is(u + u, d); is(u + a(s), d); sym_assert((u + m).IsZero(), "P + (-P) = 0"); sym_assert((u - u).IsZero(), "P - P = 0"); is(u.ToAffine(), s); U e = u; e -= u; sym_assert(e.IsZero(), "P -= P"); }
    is(U::Zero(), Pt{true});
    if constexpr (!std::is_same_v<U, J>) is(u.ToJacobian(), s);
    if constexpr (!std::is_same_v<U, P>) is(u.ToProjective(), s);
    if constexpr (!std::is_same_v<U, X>) is(u.ToXYZZ(), s);
    is(ConvertPoint<A>(u), s); is(ConvertPoint<J>(u), s); is(ConvertPoint<P>(u), s); is(ConvertPoint<X>(u), s);
    is(A::FromJacobian(j(s, z)), s); is(A::FromProjective(p(s, z)), s); is(A::FromXYZZ(x(s, z)), s);
    if constexpr (!std::is_same_v<U, A>) { is(U::FromAffine(a(s)), s); }
    bool on = s.y * s.y == s.x * s.x * s.x + C::Config::kA * s.x + C::Config::kB;
    sym_assert(C::IsOnCurve(u) == (!s.inf && on), "IsOnCurve");
    if (!s.inf && on) { if (!d.inf) sym_assert(d.y * d.y == d.x * d.x * d.x + C::Config::kA * d.x + C::Config::kB, "closure under doubling"); }
    sym_reached("end");
  }
  template <class U> static void batch_case() {
    size_t n = sym_choose(4, "n"); std::vector<U> v; std::vector<Pt> s; std::vector<A> out(n);
    const char *xs[] = {"x0", "x1", "x2"}, *ys[] = {"y0", "y1", "y2"}, *zs[] = {"z0", "z1", "z2"};
    for (size_t i = 0; i < n; ++i) {
      s.push_back(sym(xs[i], ys[i])); F z = sym_choose(2, "z_one") ? F::One() : symv<F>(zs[i]); if (z.IsZero() || !ok(s[i])) return;
      v.push_back(mk<U>(s[i], z));
    }
    sym_assert(U::BatchNormalize(v, &out), "batch normalize succeeds"); for (size_t i = 0; i < n; ++i) is(out[i], s[i]);
    std::vector<A> o2(n); absl::Span<A> sp(o2);
    sym_assert(U::BatchNormalizeSerial(v, &sp), "serial batch normalize succeeds"); for (size_t i = 0; i < n; ++i) is(o2[i], s[i]);
    std::vector<A> o3(n + 1); sym_assert(!U::BatchNormalize(v, &o3), "size mismatch is refused");
    std::vector<J> cj(n); sym_assert(ConvertPoints(v, &cj), "ConvertPoints"); for (size_t i = 0; i < n; ++i) is(cj[i], s[i]);
    sym_reached("end");
  }
};
#define ADD(C, U, V) SYM_HARNESS(add_##C##_##U##V) { T<C>::add_case<T<C>::U, T<C>::V>(); }
#define UN(C, U) SYM_HARNESS(unary_##C##_##U) { T<C>::unary_case<T<C>::U>(); }
ADD(C0, A, A) ADD(C0, A, J) ADD(C0, A, P) ADD(C0, A, X) ADD(C0, J, J) ADD(C0, J, A) ADD(C0, P, P) ADD(C0, P, A) ADD(C0, X, X) ADD(C0, X, A)
ADD(C1, J, J) ADD(C1, J, A) ADD(C1, P, P) ADD(C1, P, A) ADD(C1, X, X) ADD(C1, X, A)
UN(C0, A) UN(C0, J) UN(C0, P) UN(C0, X) UN(C1, A) UN(C1, J) UN(C1, P) UN(C1, X)
SYM_HARNESS(batch_J) { T<C0>::batch_case<T<C0>::J>(); }
SYM_HARNESS(batch_P) { T<C0>::batch_case<T<C0>::P>(); }
SYM_HARNESS(batch_X) { T<C0>::batch_case<T<C0>::X>(); }
// in-place and self-aliased operations
SYM_HARNESS(alias) {
  using K = T<C0>; F z = symv<F>("z"); if (z.IsZero()) return; Pt s = K::sym("x", "y"); if (!K::ok(s)) return; Pt d = K::dbl(s);
  { auto u = K::j(s, z); u += u; K::is(u, d); } { auto u = K::p(s, z); u += u; K::is(u, d); } { auto u = K::x(s, z); u += u; K::is(u, d); }
  sym_reached("end");
}
// Endomorphism: (beta x, y) with beta a primitive cube root of unity, on every coordinate system
SYM_HARNESS(endo) {
  using K = T<C0>; F z = symv<F>("z"); if (z.IsZero()) return; Pt s = K::sym("x", "y"); if (!K::ok(s)) return;
  F b = bn254::G1Curve::Config::kEndomorphismCoefficient; sym_assert(!b.IsOne() && (b * b * b).IsOne(), "beta is a primitive cube root of unity");
  Pt e = s; e.x = b * s.x;
  K::is(K::A::Endomorphism(K::a(s)), e); K::is(K::J::Endomorphism(K::j(s, z)), e); K::is(K::P::Endomorphism(K::p(s, z)), e); K::is(K::X::Endomorphism(K::x(s, z)), e);
  sym_reached("end");
}
// the group law is associative and commutative on the curve (b is determined by the first point; a = 0)
SYM_HARNESS(commut) {
  using K = T<C0>; F z1 = symv<F>("z1"), z2 = symv<F>("z2"); if (z1.IsZero() || z2.IsZero()) return;
  Pt s = K::sym("x1", "y1"), t = K::sym("x2", "y2"); if (!K::ok(s) || !K::ok(t)) return;
  sym_assert(K::j(s, z1) + K::j(t, z2) == K::j(t, z2) + K::j(s, z1), "J commutes"); sym_assert(K::p(s, z1) + K::p(t, z2) == K::p(t, z2) + K::p(s, z1), "P commutes"); sym_assert(K::x(s, z1) + K::x(t, z2) == K::x(t, z2) + K::x(s, z1), "X commutes");
  sym_reached("end");
}
