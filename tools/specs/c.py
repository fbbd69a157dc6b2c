exec(open("/verif/tools/specs/a.py").read().split(chr(10) + "SEEDS = [")[0]); exec(open("/verif/tools/specs/b.py").read().split(chr(10), 1)[1].split(chr(10) + "SEEDS = [")[0])
BB = " " + B + M + "finite_fields/baby_bear/internal/baby_bear_config.cc tachyon/base/logging.cc"
ZK = "tachyon/zk/plonk/halo2/"
SEEDS = [
dict(id="snark_empty_squeeze", prop="H4", needs="two challenges squeezed with nothing absorbed between them", breaks="the snark-verifier transcript gives the same challenge twice",
 edits=[(ZK+"snark_verifier_poseidon_transcript.h", "    if (buf_.size() == num_chunks * Params::kRate) {", "    if (num_chunks > 0 && buf_.size() == num_chunks * Params::kRate) {")],
 stubs=True, extra=BN, demo='''#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/zk/plonk/halo2/snark_verifier_poseidon_transcript.h"
using namespace tachyon; using namespace tachyon::math;
int main() { bn254::G1Curve::Init(); bn254::Fr::Init(); zk::plonk::halo2::SnarkVerifierPoseidonWriter<bn254::G1AffinePoint> w{base::Uint8VectorBuffer()};
  if (!w.WriteToTranscript(bn254::Fr(7))) return 2; auto a = w.SqueezeChallenge(), b = w.SqueezeChallenge(), c = w.SqueezeChallenge(); return a != b && b != c ? 0 : 1; }
'''),
dict(id="xorshift_long_seed", prop="H5", needs="a seed longer than the generator's", breaks="a seed of the wrong size is accepted and truncated",
 edits=[("tachyon/crypto/random/xor_shift/xor_shift_rng.h", "    if (seed.size() != kSeedSize) {", "    if (seed.size() < kSeedSize) {")],
 stubs=True, extra=S, demo='''#include "tachyon/crypto/random/xor_shift/xor_shift_rng.h"
int main() { tachyon::crypto::XORShiftRNG r; uint8_t s[32]; for (int i = 0; i < 32; ++i) s[i] = i + 1; return !r.SetSeed(absl::Span<const uint8_t>(s, 32)) && !r.SetSeed(absl::Span<const uint8_t>(s, 15)) && r.SetSeed(absl::Span<const uint8_t>(s, 16)) ? 0 : 1; }
'''),
dict(id="selectors_rate", prop="K1", needs="selectors of a domain on a coset larger than it", breaks="the inverse vanishing polynomial and the selectors are taken at the wrong power of the shift",
 edits=[("tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h", "    F s_pow_n = coset_shift.ExpPowOfTwo(domain_->log_size_of_group());", "    F s_pow_n = coset_shift.ExpPowOfTwo(coset.domain()->log_size_of_group());")],
 stubs=True, flags="-mavx2", extra=S+BB+" tachyon/math/finite_fields/baby_bear/internal/packed_baby_bear_avx2.cc", demo='''#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h"
using namespace tachyon; using F = math::BabyBear;
int main() { F::Init(); crypto::TwoAdicMultiplicativeCoset<F> d(2, F::One()), c(3, F(31)); auto s = d.GetSelectorsOnCoset(c); F x(31);
  for (size_t i = 0; i < 8; ++i) { if (s.inv_zeroifier[i] * (x.Pow(4) - F::One()) != F::One()) return 1; x *= c.domain()->group_gen(); } return 0; }
'''),
dict(id="frobenius_wraps", prop="F5", needs="a power of the Frobenius map larger than the degree of the extension", breaks="the map applied seven times to the sixth-degree field is not the map applied once",
 edits=[(M+"finite_fields/cubic_extension_field.h", "        Config::kFrobeniusCoeffs2[exponent % Config::kDegreeOverBasePrimeField];", "        Config::kFrobeniusCoeffs2[exponent < Config::kDegreeOverBasePrimeField ? exponent : exponent % 2];")],
 stubs=True, extra=BN, demo='''#include "tachyon/math/elliptic_curves/bn/bn254/fq6.h"
using namespace tachyon::math; using T = bn254::Fq6;
int main() { T::Init(); using F2 = bn254::Fq2; using F = bn254::Fq; T a(F2(F(2), F(3)), F2(F(5), F(7)), F2(F(11), F(13))), b = a, c = a; b.FrobeniusMapInPlace(2); c.FrobeniusMapInPlace(8); return b == c ? 0 : 1; }
'''),
dict(id="miller_last_chunk", prop="E3", needs="more than four pairs", breaks="the pairs of the last chunk are left out of the product",
 edits=[(M+"elliptic_curves/bn/bn_curve.h", "    Fp12 f = std::accumulate(results.begin(), results.end(), Fp12::One(),\n", "    Fp12 f = std::accumulate(results.begin(), results.size() > 1 ? results.end() - 1 : results.end(), Fp12::One(),\n")],
 stubs=True, extra=BN, demo='''#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/elliptic_curves/pairing/pairing.h"
using namespace tachyon::math; using C = bn254::BN254Curve;
int main() { C::Init(); bn254::Fr::Init(); auto g = bn254::G1AffinePoint::Generator(); auto h = bn254::G2AffinePoint::Generator(); auto m = (g.ToJacobian() * bn254::Fr(4)).ToAffine();
  std::vector<bn254::G1AffinePoint> a = {g, g, g, g, -m}; std::vector<bn254::G2AffinePoint> b(5, h); auto f = Pairing<C>(a, b); return f.IsOne() ? 0 : 1; }
'''),
]
