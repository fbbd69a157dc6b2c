// A pairing group written additively: a point s G is the symbolic field element s, e(aG, bH) = ab; transcripts whose challenges the harness sets.
#ifndef TOY_PAIRING_H
#define TOY_PAIRING_H
#include "alg_fields.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/elliptic_curves/msm/variable_base_msm.h"
#include "tachyon/math/elliptic_curves/pairing/pairing.h"
#include "tachyon/math/geometry/point_conversions.h"
#include "tachyon/crypto/transcripts/transcript.h"
using F = tachyon::math::bn254::Fr; using V = std::vector<F>;
namespace toy { using namespace tachyon::math; struct G1 { using ScalarField = F; using BaseField = F; static constexpr CurveType kType = CurveType::kShortWeierstrass; using AffinePoint = tachyon::math::AffinePoint<G1>; using JacobianPoint = tachyon::math::JacobianPoint<G1>; using ProjectivePoint = tachyon::math::ProjectivePoint<G1>; using PointXYZZ = tachyon::math::PointXYZZ<G1>; }; struct G2 : G1 { using AffinePoint = tachyon::math::AffinePoint<G2>; using JacobianPoint = tachyon::math::JacobianPoint<G2>; }; }
namespace tachyon::math {
struct ToyTag {};
#define TOY(NAME, C, SUM) template <> class NAME<C> : public AdditiveGroup<NAME<C>>, public ToyTag { public: using Curve = C; using ScalarField = F; using BaseField = F; F v = F::Zero(); const F& x() const { return v; } const F& y() const { return v; } NAME() = default; explicit NAME(const F& x) : v(x) {} template <class P, std::enable_if_t<std::is_base_of_v<ToyTag, P> && !std::is_same_v<P, NAME>>* = nullptr> static NAME of(const P& p) { return NAME(p.v); } \
  static NAME Zero() { return NAME(); } static NAME Generator() { return NAME(F::One()); } static NAME Random() { return NAME(symv<F>("random")); } bool IsZero() const { return v.IsZero(); } bool operator==(const NAME& o) const { return v == o.v; } bool operator!=(const NAME& o) const { return v != o.v; } \
  SUM operator+(const NAME& o) const { return SUM(v + o.v); } SUM operator-(const NAME& o) const { return SUM(v - o.v); } NAME operator-() const { return NAME(-v); } SUM operator*(const F& s) const { return SUM(v * s); } template <class P> NAME& operator+=(const P& p) { v = v + p.v; return *this; } template <class P> NAME& operator-=(const P& p) { v = v - p.v; return *this; } NAME& operator*=(const F& s) { v = v * s; return *this; } \
  AffinePoint<C> ToAffine() const; JacobianPoint<C> ToJacobian() const; ProjectivePoint<C> ToProjective() const; PointXYZZ<C> ToXYZZ() const; std::string ToHexString(bool = false) const { return {}; } std::string ToString() const { return {}; } \
  template <class I, class O> static bool BatchNormalize(const I& in, O* out) { if (std::size(in) != std::size(*out)) return false; for (size_t i = 0; i < std::size(in); ++i) (*out)[i].v = in[i].v; return true; } \
  template <class B, class S> static bool BatchMapScalarFieldToPoint(const B& p, const S& s, std::vector<NAME>* out) { if (out->size() != s.size()) return false; for (size_t i = 0; i < s.size(); ++i) (*out)[i] = NAME(p.v * s[i]); return true; } };
namespace internal { template <> struct AdditiveSemigroupTraits<AffinePoint<toy::G1>> { using ReturnTy = JacobianPoint<toy::G1>; }; template <> struct AdditiveSemigroupTraits<AffinePoint<toy::G2>> { using ReturnTy = JacobianPoint<toy::G2>; }; }
#define TOYS(C) template <> class AffinePoint<C>; template <> class JacobianPoint<C>; template <> class ProjectivePoint<C>; template <> class PointXYZZ<C>; TOY(JacobianPoint, C, JacobianPoint<C>) TOY(PointXYZZ, C, PointXYZZ<C>) TOY(ProjectivePoint, C, ProjectivePoint<C>) TOY(AffinePoint, C, JacobianPoint<C>) \
  CONV(JacobianPoint, C) CONV(PointXYZZ, C) CONV(ProjectivePoint, C) CONV(AffinePoint, C)
#define CONV(NAME, C) AffinePoint<C> NAME<C>::ToAffine() const { return AffinePoint<C>(v); } JacobianPoint<C> NAME<C>::ToJacobian() const { return JacobianPoint<C>(v); } ProjectivePoint<C> NAME<C>::ToProjective() const { return ProjectivePoint<C>(v); } PointXYZZ<C> NAME<C>::ToXYZZ() const { return PointXYZZ<C>(v); }
TOYS(toy::G1) TOYS(toy::G2)
inline JacobianPoint<toy::G1> operator-(const AffinePoint<toy::G1>& a, const JacobianPoint<toy::G1>& b) { return JacobianPoint<toy::G1>(a.v - b.v); }
inline JacobianPoint<toy::G1> operator+(const AffinePoint<toy::G1>& a, const JacobianPoint<toy::G1>& b) { return JacobianPoint<toy::G1>(a.v + b.v); }
inline PointXYZZ<toy::G1> operator+(const PointXYZZ<toy::G1>& a, const JacobianPoint<toy::G1>& b) { return PointXYZZ<toy::G1>(a.v + b.v); }
template <class C> inline PointXYZZ<C> operator+(const PointXYZZ<C>& a, const AffinePoint<C>& b) { return PointXYZZ<C>(a.v + b.v); }
// the sum of the products, refused when the numbers of bases and scalars differ (E2 decides the real one)
template <class C> struct ToyMSM { using Bucket = PointXYZZ<C>; template <class B, class S, class R> bool Run(const B& b, const S& s, R* r) { if (std::size(b) != std::size(s)) return false; F t = F::Zero(); auto j = std::begin(s); for (auto& x : b) { t = t + x.v * *j; ++j; } r->v = t; return true; } };
template <> class VariableBaseMSM<AffinePoint<toy::G1>> : public ToyMSM<toy::G1> {}; template <> class VariableBaseMSM<AffinePoint<toy::G2>> : public ToyMSM<toy::G2> {};
}
namespace toy { struct Gt { F v; bool IsOne() const { return v.IsZero(); } bool operator==(const Gt& o) const { return v == o.v; } }; struct Prep { F v = F::Zero(); static Prep From(const G2::AffinePoint& p) { return {p.v}; } };
struct Curve { using G1Curve = G1; using G2Curve = G2; using G2Prepared = Prep; using Fp12 = Gt; template <class A, class B> static F MultiMillerLoop(const A& a, const B& b) { sym_assert(std::size(a) == std::size(b), "as many points of G1 as of G2"); F t = F::Zero(); for (size_t i = 0; i < std::size(a); ++i) t = t + a[i].v * b[i].v; return t; } static Gt FinalExponentiation(const F& f) { return {f}; } }; }
namespace tachyon::base { template <class P> struct ToyCopy { static bool WriteTo(const P& p, Buffer* b) { return b->Write(p.v); } static bool ReadFrom(const ReadOnlyBuffer& b, P* p) { return b.Read(&p->v); } static size_t EstimateSize(const P& p) { return base::EstimateSize(p.v); } };
template <> class Copyable<math::AffinePoint<toy::G1>> : public ToyCopy<math::AffinePoint<toy::G1>> {}; template <> class Copyable<math::AffinePoint<toy::G2>> : public ToyCopy<math::AffinePoint<toy::G2>> {}; }
#include "tachyon/crypto/commitments/kzg/gwc.h"
#include "tachyon/crypto/commitments/kzg/shplonk.h"
#include "tachyon/crypto/commitments/pedersen/pedersen.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
using namespace tachyon; using namespace tachyon::math; using namespace tachyon::crypto;
using A1 = AffinePoint<toy::G1>; using A2 = AffinePoint<toy::G2>;
static F sv(const char* n) { return symv<F>(n); }
static V svv(size_t n, const char* s) { V r; for (size_t i = 0; i < n; ++i) r.push_back(sv(s)); return r; }
static F ev(const V& c, F x) { F r = F::Zero(); for (size_t i = c.size(); i-- > 0;) r = r * x + c[i]; return r; }
struct Wr : TranscriptWriterImpl<A1, false> { V ch; size_t k = 0; V seen, out; std::vector<size_t> at; F SqueezeChallenge() override { seen.push_back(F::Zero()); return ch.at(k++); } bool WriteToTranscript(const A1& p) override { seen.push_back(p.v); return true; } bool WriteToTranscript(const F& p) override { seen.push_back(p); return true; } bool DoWriteToProof(const A1& p) override { out.push_back(p.v); at.push_back(k); return true; } bool DoWriteToProof(const F& p) override { out.push_back(p); at.push_back(k); return true; } };
struct Rd : TranscriptReaderImpl<A1, false> { V ch; size_t k = 0; V seen, in; mutable size_t r = 0; F SqueezeChallenge() override { seen.push_back(F::Zero()); return ch.at(k++); } bool WriteToTranscript(const A1& p) override { seen.push_back(p.v); return true; } bool WriteToTranscript(const F& p) override { seen.push_back(p); return true; } bool DoReadFromProof(A1* p) const override { if (r >= in.size()) return false; p->v = in[r++]; return true; } bool DoReadFromProof(F* p) const override { if (r >= in.size()) return false; *p = in[r++]; return true; } };
#endif
