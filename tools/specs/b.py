exec(open("/verif/tools/specs/a.py").read().split("SEEDS = [")[0])
B = "_build/bazel-out/k8-opt/bin/"
FR = S + " " + B + M + "elliptic_curves/bn/bn254/fr_config.cc"
PAIR = BN + " " + " ".join(B + M + "elliptic_curves/bn/bn254/" + x for x in "fq2_config.cc fq6_config.cc fq12_config.cc g1_config.cc g2_config.cc".split())
SHIM = '''#include <cstdlib>
template <class F> F symv(const char*) { return F::Random(); }
inline void sym_assert(bool b, const char*) { if (!b) std::exit(1); }
'''
TOY = {"toy_pairing.h": None, "alg_fields.h": SHIM}
SEEDS = [
dict(id="groth16_half_blinded", prop="Z2", needs="a proof blinded by r but with s zero", breaks="the term rB is left out of C when s is zero, so the honest proof is refused", stubs=True,
 edits=[("tachyon/zk/r1cs/groth16/prove.h", "  if (!r.IsZero()) {\n    // |s_delta_g1_bucket|", "  if (!r.IsZero() && !s.IsZero()) {\n    // |s_delta_g1_bucket|")],
 files=TOY, extra=FR + " tachyon/zk/r1cs/constraint_system/variable.cc", demo='''#include "toy_pairing.h"
#include "tachyon/math/elliptic_curves/msm/fixed_base_msm.h"
namespace tachyon::math {
template <class C> struct ToyFixed { F b; void Reset(size_t, const AffinePoint<C>& p) { b = p.v; } template <class S, class O> bool Run(const S& s, O* o) { if (std::size(s) != std::size(*o)) return false; for (size_t i = 0; i < std::size(s); ++i) (*o)[i].v = b * s[i]; return true; } };
template <> class FixedBaseMSM<AffinePoint<toy::G1>> : public ToyFixed<toy::G1> {}; template <> class FixedBaseMSM<AffinePoint<toy::G2>> : public ToyFixed<toy::G2> {};
}
#include "tachyon/zk/r1cs/constraint_system/quadratic_arithmetic_program.h"
#include "tachyon/zk/r1cs/groth16/prove.h"
#include "tachyon/zk/r1cs/groth16/verify.h"
using namespace tachyon::zk::r1cs; using namespace tachyon::zk::r1cs::groth16; using LC = LinearCombination<F>;
struct C : Circuit<F> { void Synthesize(ConstraintSystem<F>& cs) const override { F u(3), v(5); auto x = cs.CreateInstanceVariable([&] { return u * v; }); auto a = cs.CreateWitnessVariable([&] { return u; }); auto b = cs.CreateWitnessVariable([&] { return v; }); cs.EnforceConstraint(LC() + a, LC() + b, LC() + x); } };
int main() { F::Init(); using Q = QuadraticArithmeticProgram<F>; C c; ToxicWaste<toy::Curve> tw(F(11), F(12), F(13), F(14), F::Zero(), A1(F::One()), A2(F::One())); ProvingKey<toy::Curve> pk; if (!pk.Load<15, Q>(tw, c)) return 1; auto pvk = pk.verifying_key().ToPreparedVerifyingKey(); for (int r = 0; r < 3; ++r) for (int s = 0; s < 3; ++s) { auto p = CreateProofWithReduction<15, Q>(c, pk, F(r), F(s)); if (!VerifyProof(pvk, p, V{F(15)}) || VerifyProof(pvk, p, V{F(16)})) return 1; } return 0; }
'''),
dict(id="combination_third_duplicate", prop="Z2", needs="a combination in which nested combinations mention the same variable at least four times", breaks="the fourth mention of a variable replaces what was accumulated in the second",
 edits=[("tachyon/zk/r1cs/constraint_system/linear_combination.h", "      if (!is_first && cur_var_first_it->variable == it->variable) {\n        cur_var_first_it->coefficient += it->coefficient;\n", "      if (!is_first && cur_var_first_it->variable == it->variable) {\n        cur_var_first_it->coefficient += it->coefficient;\n        if (it - cur_var_first_it > 2) cur_var_first_it = it;\n")],
 stubs=True, extra=FR + " tachyon/zk/r1cs/constraint_system/variable.cc", demo='''#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/zk/r1cs/constraint_system/constraint_system.h"
using namespace tachyon::zk::r1cs; using F = tachyon::math::bn254::Fr; using LC = LinearCombination<F>; using T = Term<F>;
int main() { F::Init(); for (size_t n = 1; n < 9; ++n) { std::vector<T> t; F s = F::Zero(); for (size_t i = 0; i < n; ++i) { t.push_back(T(F(i + 2), Variable::Witness(3))); s += F(i + 2); t.push_back(T(F(1), Variable::Instance(1))); } LC c = LC::CreateDeduplicated(t); if (c.terms().size() != 2) return 1; for (auto& x : c.terms()) if (x.coefficient != (x.variable == Variable::Witness(3) ? s : F(n))) return 1; } return 0; }
'''),
dict(id="rational_zero_eq", prop="P4", needs="two fractions with the same numerator, zero, and different denominators", breaks="equal zeros compare as different",
 edits=[(M+"base/rational_field.h", "  constexpr bool operator==(const RationalField& other) const {\n    return", "  constexpr bool operator==(const RationalField& other) const {\n    if (numerator_ == other.numerator_) {\n      return denominator_ == other.denominator_;\n    }\n    return")],
 extra=BB, stubs=True, demo='''#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/base/rational_field.h"
using namespace tachyon::math;
int main() { using F = BabyBear; F::Init(); using R = RationalField<F>; R a(F(0), F(3)), b(F(0), F(5)); return a == b && R(F(2), F(4)) == R(F(3), F(6)) && !(R(F(2), F(4)) == R(F(2), F(5))) ? 0 : 1; }
'''),
dict(id="graph_minus_one_scale", prop="Z3", needs="the sum of something that is constantly zero and an expression scaled by minus one", breaks="the optimised graph forgets the sign",
 edits=[("tachyon/zk/plonk/vanishing/graph_evaluator.h", "          ValueSource right_result = AddExpression(sum->right());\n          if (left_result.IsZeroConstant()) {\n            return right_result;", "          if (sum->right()->type() == ExpressionType::kScaled &&\n              sum->right()->ToScaled()->scale().IsMinusOne()) {\n            ValueSource right_result =\n                AddExpression(sum->right()->ToScaled()->expr());\n            if (left_result.IsZeroConstant()) return right_result;\n            return AddCalculation(Calculation::Sub(left_result, right_result));\n          }\n          ValueSource right_result = AddExpression(sum->right());\n          if (left_result.IsZeroConstant()) {\n            return right_result;")],
 stubs=True, extra="", demo=""),
dict(id="jacobian_minus_one_z", prop="E1", needs="a Jacobian point whose z is minus one", breaks="the conversion to affine keeps y's sign wrong",
 edits=[(M+"elliptic_curves/short_weierstrass/jacobian_point.h", "      return AffinePoint<Curve>::Zero();\n    } else if (z_.IsOne()) {", "      return AffinePoint<Curve>::Zero();\n    } else if (z_.Square().IsOne()) {")],
 stubs=True, extra=BN, demo='''#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
using namespace tachyon::math;
int main() { bn254::G1Curve::Init(); using F = bn254::Fq; auto g = bn254::G1AffinePoint::Generator(); bn254::G1JacobianPoint p(g.x(), -g.y(), -F::One()); return p.ToAffine() == g && p == g.ToJacobian() ? 0 : 1; }
'''),
dict(id="mmcs_opened_row", prop="H3", needs="matrices whose numbers of rows are not powers of two, opened at a large index", breaks="the opened row of a smaller matrix is a different one from the one that was committed at that index",
 edits=[("tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h", "          uint32_t log_row_size =\n              base::bits::Log2Ceiling(static_cast<size_t>(matrix.rows()));\n          uint32_t bits_reduced = log_max_row_size - log_row_size;\n          size_t reduced_index = index >> bits_reduced;", "          uint32_t log_row_size =\n              base::bits::Log2Ceiling(static_cast<size_t>(matrix.rows()));\n          uint32_t bits_reduced = log_max_row_size - log_row_size;\n          if (bits_reduced > 1) bits_reduced = base::bits::Log2Ceiling((size_t{1} << log_max_row_size) / static_cast<size_t>(matrix.rows()));\n          size_t reduced_index = index >> bits_reduced;")],
 stubs=True, extra="", demo=""),
]
