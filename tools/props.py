"""Source of properties.jsonl and MANIFEST.json (run tools/mkmeta.py)."""
PR = []
def R(id, title, statement, text, why, files, mech, over=("inputs",), observe=()):
    PR.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe))))

R("D01", "Bit and power-of-two utilities are exact on every input",
  "The bit utilities (leading/trailing zero counts, set-bit tests, power-of-two tests, floor/ceiling log2, alignment, bit reversal, safe log2 and power-of-two rounding) return exactly the mathematically defined value for every value of every supported width.",
  "all 8/16/32/64-bit inputs, all bit lengths 1..63, all power-of-two alignments", "The tests sample a dozen values per function; off-by-ones at width boundaries, zero and the top bit are only hit by exhausting the value space.",
  ["tachyon/base/bits.h"], [("bit utilities", "tachyon/base/bits.h")])
R("D02", "Ranges agree on membership, size, intersection and iteration",
  "For every integer range, with either kind of bound at each end, membership, size, emptiness, intersection and equality agree with the set of integers the bounds describe. Iteration visits exactly the members, once and in order, and iterator arithmetic and comparison are consistent with it.",
  "all end points of 8..64-bit signed and unsigned element types, all four open/closed combinations; iteration for every start point and 0..4 members",
  "Tests use small int ranges; end points near the limits of the type, unsigned iterator differences and negative distances are never exercised.",
  ["tachyon/base/range.h"], [("Range", "tachyon/base/range.h"), ("Iterator", "tachyon/base/range.h")])
R("D03", "Binary serialization round-trips and never leaves the buffer",
  "Writing any value to a buffer, in native, little or big endian, and reading it back with the same settings yields the same value, consumes exactly the estimated number of bytes and places the documented bytes in the buffer. Reads and writes that do not fit, including lengths taken from untrusted input, are refused without touching memory outside the buffer.",
  "all values of integral, bool, enum, string, vector, array, pair, tuple and nested types up to a handful of elements, all buffer contents, offsets and claimed lengths",
  "Tests round-trip a few fixed values; hostile length fields, offsets near SIZE_MAX and endian combinations are not sampled.",
  ["tachyon/base/buffer/read_only_buffer.h", "tachyon/base/buffer/read_only_buffer.cc", "tachyon/base/buffer/buffer.h", "tachyon/base/buffer/buffer.cc", "tachyon/base/buffer/copyable.h", "tachyon/base/buffer/vector_buffer.h", "tachyon/base/endian.h", "tachyon/base/endian_utils.h"],
  [("bounds checks and Copyable dispatch", "tachyon/base/buffer/read_only_buffer.h"), ("grow and write", "tachyon/base/buffer/buffer.cc")])
R("D04", "Circular deque and contiguous-span containers behave like a sequence",
  "Any history of pushes, pops, insertions, erasures, resizes, reserves, copies, moves, swaps and clears on the circular deque leaves it with exactly the elements the same history leaves in a plain sequence, in the same order. Every element is constructed and destroyed exactly once, and indices, iterators, front and back designate the corresponding elements.",
  "all histories of a few operations chosen symbolically over all element values, starting from every internal rotation of the ring buffer",
  "A deque's behaviour depends on where the ring wraps; tests fix one history per operation and so see one or two rotations.",
  ["tachyon/base/containers/circular_deque.h", "tachyon/base/containers/vector_buffer.h"], [("ring index arithmetic", "tachyon/base/containers/circular_deque.h"), ("raw storage moves", "tachyon/base/containers/vector_buffer.h")], over=("inputs", "histories"))
R("D05", "Container utilities and parallel loops cover each element exactly once",
  "Chunked, zipped and parallel iteration present every element exactly once, in its chunk, with the right index and offset, for every container size and every chunk size or thread count. The container helpers (map, fill, find, shuffle, unique, flatten, slicing and resizing) produce exactly their sequential specification.",
  "all contents and sizes 0..6 or so, all chunk sizes and thread counts, symbolic element values",
  "Tests use sizes divisible by the chunk size or one remainder; off-by-one coverage of the tail chunk depends on both.",
  ["tachyon/base/parallelize.h", "tachyon/base/containers/chunked.h", "tachyon/base/containers/adapters.h", "tachyon/base/containers/zipped.h", "tachyon/base/containers/container_util.h", "tachyon/base/adapters.h"],
  [("chunk arithmetic", "tachyon/base/parallelize.h"), ("chunked iterator", "tachyon/base/containers/chunked.h"), ("helpers", "tachyon/base/containers/container_util.h")], over=("inputs", "schedules"))
R("D06", "Checked, clamped and safe numeric conversions are exact",
  "Checked arithmetic is valid exactly when the mathematical result fits the result type, and then equals it, and an invalid intermediate result invalidates the whole expression. Clamped arithmetic returns the mathematical result saturated to the result type, and range tests, saturating casts and strict conversions agree with exact integer arithmetic for every pair of types.",
  "all operand values of the listed 8..64-bit type pairs; shifts for every count", "Signed/unsigned mixes and the extreme values of each type pair form a matrix that sampled tests cover sparsely.",
  ["tachyon/base/numerics/checked_math.h", "tachyon/base/numerics/checked_math_impl.h", "tachyon/base/numerics/clamped_math.h", "tachyon/base/numerics/clamped_math_impl.h", "tachyon/base/numerics/safe_conversions.h", "tachyon/base/numerics/safe_conversions_impl.h"],
  [("overflow detection", "tachyon/base/numerics/checked_math_impl.h"), ("saturation", "tachyon/base/numerics/clamped_math_impl.h"), ("range check", "tachyon/base/numerics/safe_conversions_impl.h")])
R("E1", "Elliptic-curve group law holds in every coordinate system",
  "On short Weierstrass curves, in affine, Jacobian, projective and XYZZ coordinates and every mix of them, addition, subtraction, doubling, negation and equality compute the curve's group law for all pairs of points, including equal, opposite and identity operands and any representation of each. Conversions between representations and batch normalization preserve the point, and the curve-membership test accepts exactly the points satisfying the curve equation.",
  "all coordinates and all projective representations (symbolic field elements), with a = 0 and a != 0; batches of 0..3 points",
  "Tests use a handful of points with fixed z; exceptional cases (equal points with different z, opposite points, the many encodings of infinity) are measure-zero for sampling.",
  ["tachyon/math/elliptic_curves/short_weierstrass/affine_point.h", "tachyon/math/elliptic_curves/short_weierstrass/jacobian_point.h", "tachyon/math/elliptic_curves/short_weierstrass/jacobian_point_impl.h", "tachyon/math/elliptic_curves/short_weierstrass/projective_point.h", "tachyon/math/elliptic_curves/short_weierstrass/projective_point_impl.h", "tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h", "tachyon/math/elliptic_curves/short_weierstrass/point_xyzz_impl.h", "tachyon/math/elliptic_curves/short_weierstrass/sw_curve.h", "tachyon/math/geometry/point_conversions.h"],
  [("addition and doubling formulas", "tachyon/math/elliptic_curves/short_weierstrass/*_impl.h"), ("conversions", "tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h")])
R("F5", "Extension-field arithmetic is the arithmetic of the quotient ring",
  "In every extension-field tower, addition, multiplication, squaring, sparse and in-place variants, inversion, division, norm, conjugation, Frobenius maps and cyclotomic operations agree with polynomial arithmetic modulo X^d minus the non-residue. In-place operations give the same result when operands alias, and only zero has no inverse.",
  "all coordinates symbolic (inversion and cyclotomic operations in degree 6 and 12 with a few symbolic coordinates), all Frobenius exponents 0..degree+1",
  "Karatsuba/CH-SQR formulas and Frobenius coefficient tables are sampled with random elements only; aliasing, sparse operands and individual coefficient slots go untested.",
  ["tachyon/math/finite_fields/quadratic_extension_field.h", "tachyon/math/finite_fields/cubic_extension_field.h", "tachyon/math/finite_fields/quartic_extension_field.h", "tachyon/math/finite_fields/fp2.h", "tachyon/math/finite_fields/fp4.h", "tachyon/math/finite_fields/fp6.h", "tachyon/math/finite_fields/fp12.h", "tachyon/math/finite_fields/cyclotomic_multiplicative_subgroup.h"],
  [("tower multiplication", "tachyon/math/finite_fields/quadratic_extension_field.h"), ("Frobenius", "tachyon/math/finite_fields/fp6.h"), ("sparse products", "tachyon/math/finite_fields/fp12.h")])
R("P1", "Univariate polynomial arithmetic is arithmetic in F[x]",
  "Dense and sparse univariate polynomials, and every mix of them, add, subtract, multiply, divide with remainder, scale, fold and evaluate exactly as polynomials over the field, keep no leading zero coefficients and leave their operands unchanged, also when an operand is the target. Evaluation-form polynomials operate pointwise, and interpolation returns the unique polynomial through the given points.",
  "all coefficients symbolic (including the combinations where leading or middle terms cancel), operands with up to 4 coefficients", "Cancellation of leading terms, aliasing and dense/sparse mixes need specially related coefficients which random tests practically never produce.",
  ["tachyon/math/polynomials/univariate/univariate_polynomial.h", "tachyon/math/polynomials/univariate/univariate_polynomial_ops.h", "tachyon/math/polynomials/univariate/univariate_dense_coefficients.h", "tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h", "tachyon/math/polynomials/univariate/univariate_evaluations.h", "tachyon/math/polynomials/univariate/univariate_evaluations_ops.h", "tachyon/math/polynomials/univariate/lagrange_interpolation.h"],
  [("operators", "tachyon/math/polynomials/univariate/univariate_polynomial_ops.h"), ("long division", "tachyon/math/polynomials/univariate/univariate_polynomial_ops.h:Divide")])
R("P2", "FFT domains evaluate and interpolate exactly",
  "For every domain size, algorithm and coset offset, the FFT of a polynomial is its list of values at offset * g^i where g has the order of the domain, and the inverse FFT returns the polynomial. Lagrange coefficients, vanishing and filter polynomials, batched FFTs and low-degree extensions agree with direct evaluation.",
  "all coefficients, evaluations, offsets and evaluation points symbolic, sizes up to 16 (radix 2) or 18 (mixed radix), matrices up to 16 x 3", "Tests use random polynomials on a few sizes; degree-aware shortcuts, mixed-radix factors, cosets and twiddle caching interact by size and history.",
  ["tachyon/math/polynomials/univariate/univariate_evaluation_domain.h", "tachyon/math/polynomials/univariate/radix2_evaluation_domain.h", "tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h", "tachyon/math/polynomials/univariate/radix2_twiddle_cache.h", "tachyon/math/polynomials/univariate/naive_batch_fft.h", "tachyon/math/polynomials/univariate/two_adic_subgroup.h", "tachyon/math/polynomials/univariate/evaluations_utils.h", "tachyon/math/finite_fields/prime_field_base.h"],
  [("butterflies", "tachyon/math/polynomials/univariate/radix2_evaluation_domain.h"), ("mixed radix", "tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h"), ("twiddle cache", "tachyon/math/polynomials/univariate/radix2_twiddle_cache.h")], over=("inputs", "histories"))
R("P3", "Multilinear and multivariate polynomials agree with their definition",
  "A multilinear extension evaluates, is partially evaluated and is combined exactly as the multilinear polynomial interpolating its table on the hypercube, and a linear combination evaluates and sums over the hypercube as the stated sum of products. Sparse multivariate polynomials add, subtract and negate as polynomials, merge and order monomials by a strict total order, report their total degree and evaluate exactly.",
  "all tables, coefficients and points symbolic, for 1..4 variables and the enumerated term shapes", "Tests use tiny fixed tables over GF(7) and fixed polynomials; cancellation, shared tables and ambiguous monomial orders are not sampled.",
  ["tachyon/math/polynomials/multivariate/multilinear_dense_evaluations.h", "tachyon/math/polynomials/multivariate/multilinear_extension_ops.h", "tachyon/math/polynomials/multivariate/linear_combination.h", "tachyon/math/polynomials/multivariate/linear_combination_term.h", "tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h", "tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h"],
  [("FixVariables", "tachyon/math/polynomials/multivariate/multilinear_dense_evaluations.h"), ("monomial order", "tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h")])
R("S1", "Multilinear sumcheck is complete and consistent",
  "For every linear combination of multilinear tables and every choice of challenges, each prover message is the partial sum it stands for, the verifier accepts the true sum and rejects every other asserted sum, and the resulting claim is the polynomial's value at the challenge point. Against arbitrary messages the verifier accepts exactly when every round is consistent with the previous one.",
  "all tables, coefficients, challenges, asserted sums and cheating messages symbolic, for 1 and 2 rounds", "The unit test runs an honest protocol on random instances; special challenges (those that coincide with an evaluation index) and dishonest provers are not sampled.",
  ["tachyon/crypto/sumcheck/multilinear/sumcheck_prover.h", "tachyon/crypto/sumcheck/multilinear/sumcheck_verifier.h", "tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h", "tachyon/crypto/sumcheck/multilinear/sumcheck_verifying_key.h", "tachyon/crypto/sumcheck/multilinear/multilinear_sumcheck.h"],
  [("round message", "tachyon/crypto/sumcheck/multilinear/sumcheck_prover.h:Round"), ("verification", "tachyon/crypto/sumcheck/multilinear/sumcheck_verifier.h:CheckAndGenerateSubclaim")], over=("inputs", "histories"))
R("M1", "Matrix products, packing and sparse formats are exact",
  "Dense products, circulant construction, row packing, splitting and inversion agree entry by entry with their definition for every shape and storage order. The sparse formats convert to each other and to a dense or Eigen view without changing any entry, and report rows, columns, non-zeros and order correctly also when rows are empty.",
  "all entries symbolic, shapes up to 4x4 and non-square, all enumerated sparsity patterns including empty rows", "Tests use square or full matrices with fixed or random numbers; shape mismatches, empty rows and padding are not sampled.",
  ["tachyon/math/matrix/matrix_operations.h", "tachyon/math/matrix/matrix_utils.h", "tachyon/math/matrix/sparse/sparse_matrix.h", "tachyon/math/matrix/prime_field_num_traits.h"],
  [("products", "tachyon/math/matrix/matrix_operations.h"), ("format conversions", "tachyon/math/matrix/sparse/sparse_matrix.h")])
R("F1", "Prime fields are the integers modulo the prime",
  "For every pair of elements of every prime field type, sum, difference, negation, double, product and square (and their in-place forms) are those of the integers modulo the prime and are canonical; conversion from and to integers, order, equality, zero, one, minus one and one half agree with the integers; decimal and hexadecimal strings print and parse back, and a number not below the modulus is refused.",
  "every pair of canonical elements of the fields", "Tests multiply a few random elements; wrong carries, a missed final subtraction or a wrong constant for rare operands pass them.",
  ["tachyon/math/finite_fields/prime_field_fallback.h", "tachyon/math/finite_fields/small_prime_field_mont.h", "tachyon/math/finite_fields/small_prime_field.h", "tachyon/math/base/big_int.h"],
  [("Montgomery product", "tachyon/math/finite_fields/prime_field_fallback.h:DoFastMul"), ("reduction", "tachyon/math/base/big_int.h:MontgomeryReduce"), ("clamping", "tachyon/math/base/big_int.h:Clamp")])
R("C1", "The circle group is an abelian group closed on the unit circle",
  "Points of the circle x^2 + y^2 = 1 form an abelian group: addition, subtraction, doubling, negation and scalar multiplication, in every in-place and aliased form, are complex multiplication, stay on the circle and satisfy the group axioms. The curve test accepts exactly the points of the circle, and the generator has order exactly 2^31.",
  "all points of the circle (symbolic coordinates over Mersenne31)", "Tests compare one hundred or fewer random points and a stored generator; identities and aliasing must hold for every point.",
  ["tachyon/math/circle/affine_point.h", "tachyon/math/circle/circle.h", "tachyon/math/geometry/point2.h", "tachyon/math/geometry/point3.h", "tachyon/math/geometry/point4.h"], [("group law", "tachyon/math/circle/affine_point.h")])
R("G1", "Generic group algorithms compute what they are named after",
  "Scalar multiplication, exponentiation (variable, compile-time, by table), successive powers and multiples, bit-reversed powers, multi-scalar products, linear combinations, division and batch inversion return the repeated group operation they stand for, for every element, exponent, length and aliasing of input and output. Batch inversion leaves zeros at zero and scales every inverse by the coefficient.",
  "all elements symbolic; exponents and scalars around every limb boundary; all lengths 0..4 (0..9 for powers)", "Tests use a few random elements and one exponent; zeros inside batches, empty inputs and limb-boundary scalars are not sampled.",
  ["tachyon/math/base/semigroups.h", "tachyon/math/base/groups.h", "tachyon/math/base/bit_iterator.h"], [("square and multiply", "tachyon/math/base/semigroups.h:DoPow"), ("Montgomery trick", "tachyon/math/base/groups.h:DoBatchInverse")])
R("F6", "Binary tower fields are the fields of the tower",
  "For every pair of elements of the binary fields of 1 to 128 bits, addition is exclusive or, the product is the product of the tower X_k^2 = X_k X_(k-1) + 1 over GF(2), squares and multiplication by the generator agree with it, every element but zero has an inverse and the product with it is one; the forms in place and aliased agree; an element is composed of and split into its halves without loss; decimal and hexadecimal text prints, with or without padding, and parses back and a number not below the size of the field is refused.",
  "every pair of elements of the fields", "Tests multiply a few random elements of each width; a wrong entry of a table of 65536 products is hit by chance only.",
  ["tachyon/math/finite_fields/binary_fields/binary_field.h", "tachyon/math/finite_fields/binary_fields/binary_tower_operations.h"], [("tables", "tachyon/math/finite_fields/binary_fields/binary_tower_operations.h:DoBinaryMul"), ("step of the tower", "tachyon/math/finite_fields/binary_fields/binary_tower_operations.h:Mul"), ("halves", "tachyon/math/finite_fields/binary_fields/binary_field.h:Compose")])
R("B1", "Multi-limb integers behave as integers",
  "For all operands BigInt addition, subtraction, doubling, halving, multiplication, shifts, bit operations, comparisons and division agree with the integers (modulo 2^(64N) with the documented carry, borrow or high half), also when operands alias. Conversions to and from bits, bytes and wider or narrower integers lose nothing; extracting bits at any offset and width returns those bits; the non-adjacent form has digits -1, 0, 1, no two adjacent, and sums to the number; modular inverses are inverses.",
  "all operands of 1..7 limbs for linear operations and products; stated families for division, NAF and inversion", "Tests use stored or random values: carries out of the biggest limb, shifts at limb boundaries and whole-word bit fields are not sampled.",
  ["tachyon/math/base/big_int.h", "tachyon/math/base/bit_iterator.h", "tachyon/math/base/bit_traits.h", "tachyon/math/base/byinverter.h", "tachyon/math/base/egcd.h", "tachyon/math/base/arithmetics.h"], [("carry chains", "tachyon/math/base/big_int.h:DoAdd"), ("long division", "tachyon/math/base/big_int.h:Divide"), ("digits", "tachyon/math/base/big_int.h:ToNAF")])
R("E2", "Multi-scalar multiplication, fixed-base tables and GLV equal the plain sum of multiples",
  "For all bases and scalars, variable-base MSM (signed or unsigned windows, every parallel strategy), fixed-base tables and GLV multiplication return the sum of scalar times base, including for zero, one and maximal scalars, empty input and every split of the work. GLV decomposition returns k1, k2 of half length with k = k1 + lambda k2 for every scalar, mismatched input lengths are refused, and the curve constants (generator, order, endomorphism) are consistent.",
  "all scalars for the decomposition (bn254, bls12-381); symbolic bases with all scalars of 3..7 bits and window-boundary patterns at 64..256 bits", "Tests multiply random scalars, which almost surely have full-length halves and never hit window carries at the top or split-limb cases.",
  ["tachyon/math/elliptic_curves/msm/glv.h", "tachyon/math/elliptic_curves/msm/algorithms/pippenger/pippenger.h", "tachyon/math/elliptic_curves/msm/algorithms/pippenger/pippenger_base.h", "tachyon/math/elliptic_curves/msm/algorithms/pippenger/pippenger_adapter.h", "tachyon/math/elliptic_curves/msm/fixed_base_msm.h", "tachyon/math/elliptic_curves/msm/msm_ctx.h"],
  [("decomposition", "tachyon/math/elliptic_curves/msm/glv.h:Decompose"), ("signed digits", "tachyon/math/elliptic_curves/msm/algorithms/pippenger/pippenger.h:FillDigits"), ("window tables", "tachyon/math/elliptic_curves/msm/fixed_base_msm.h")], over=("inputs", "schedules"))
R("H1", "Poseidon and Poseidon2 are the permutations of their papers",
  "For every state, Poseidon's optimised permutation (pre-multiplied constants, sparse matrices) equals the textbook rounds with the constants of the Grain generator and a Cauchy matrix, and Poseidon2's equals its definition with the external matrix of the chosen vendor and the given internal matrix. Configurations that describe different permutations compare unequal, and a configuration survives serialization.",
  "every state, for the supported parameter sets up to width 16; all entries of the sparse and external matrices symbolic", "Tests compare the output for one fixed state; a mistake that cancels for it or sits in another width, vendor or round count is not sampled.",
  ["tachyon/crypto/hashes/sponge/poseidon/poseidon.h", "tachyon/crypto/hashes/sponge/poseidon/poseidon_config.h", "tachyon/crypto/hashes/sponge/poseidon/poseidon_grain_lfsr.h", "tachyon/crypto/hashes/sponge/poseidon/sparse_mds_matrix.h", "tachyon/crypto/hashes/sponge/poseidon2/poseidon2.h", "tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h", "tachyon/crypto/hashes/sponge/poseidon2/poseidon2_external_matrix.h"],
  [("permutation", "tachyon/crypto/hashes/sponge/poseidon/poseidon.h:Permute"), ("optimised constants", "tachyon/crypto/hashes/sponge/poseidon/poseidon_config.h:OptimizeARK")])
R("H2", "Sponges and challengers are functions of everything absorbed so far",
  "A sponge's output depends only on the sequence of absorbed and squeezed elements, not on how the calls are split: absorbing nothing changes nothing, every block of the rate is squeezed once and followed by a permutation, and no element is emitted twice. Fixed-output hashing pads nothing and keeps no state; challengers derive every challenge from all observations before it, never reuse one, and drop challenges that predate an observation.",
  "every permutation and all elements (uninterpreted), every history of 2..5 operations with every chunk size around the rate", "Tests absorb and squeeze in one fixed pattern; the boundary cases (full block pending, squeeze continuing mid-block, empty input) are histories.",
  ["tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h", "tachyon/crypto/hashes/sponge/padding_free_sponge.h", "tachyon/crypto/hashes/sponge/truncated_permutation.h", "tachyon/crypto/challenger/duplex_challenger.h", "tachyon/crypto/challenger/hash_challenger.h", "tachyon/crypto/challenger/challenger.h"],
  [("block boundaries", "tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h:SqueezeInternal"), ("challenge stream", "tachyon/crypto/challenger/duplex_challenger.h:DoSample")], over=("inputs", "histories"))

R("H4", "Transcripts bind every message, and a proof's encoding is canonical",
  "The verifier's transcript absorbs exactly what the prover's did, in the published halo2 (and snark-verifier) format: a prefix or tag for each kind of message, coordinates and scalars as canonical little-endian numbers, so different histories give different inputs to the hash. A challenge hashes everything before it and is itself absorbed, so none repeats. What was written to a proof is read back; a string that is not what the writer produces for an element (a number not below the modulus, stray flags, a point off the curve) and a proof that ends too early are refused. A transcript restored from its saved state goes on as the original.",
  "every point and scalar, every history of a few messages, every encoded string, every cut", "Tests squeeze recorded challenges after one fixed message and read back one random element.",
  ["tachyon/zk/plonk/halo2/blake2b_transcript.h", "tachyon/zk/plonk/halo2/sha256_transcript.h", "tachyon/zk/plonk/halo2/poseidon_transcript.h", "tachyon/zk/plonk/halo2/snark_verifier_poseidon_transcript.h", "tachyon/zk/plonk/halo2/proof_serializer.h", "tachyon/crypto/transcripts/transcript.h", "tachyon/math/finite_fields/prime_field_base.h"],
  [("message format", "tachyon/zk/plonk/halo2/blake2b_transcript.h:DoWriteToTranscript"), ("point decoding", "tachyon/zk/plonk/halo2/proof_serializer.h:ReadFromProof"), ("scalar decoding", "tachyon/math/finite_fields/prime_field_base.h:ReadFrom")], over=("inputs", "histories"))
R("H5", "Seeded random generators reproduce one stream per seed",
  "The numbers of a generator are a function of its seed alone: ChaCha20RNG yields the blocks of the cipher with counters 0, 1, 2, ... in order and every word of each once, a 64-bit draw being two 32-bit ones; XORShiftRNG yields the recurrence of its paper and never sticks at zero. Setting a seed starts its stream anew whatever was drawn before; a seed of the wrong size is refused and changes nothing. A saved generator, restored, goes on where it was; a state that is not one is refused, never read out of bounds.",
  "every seed, every saved state, every number of draws over three blocks", "Tests compare the first few numbers of one seed.",
  ["tachyon/crypto/random/block_rng.h", "tachyon/crypto/random/cha_cha20/cha_cha20_rng.h", "tachyon/crypto/random/xor_shift/xor_shift_rng.h", "tachyon/crypto/random/rng.h"],
  [("block stream", "tachyon/crypto/random/block_rng.h:NextUint32"), ("reseeding", "tachyon/crypto/random/cha_cha20/cha_cha20_rng.h:SetSeed"), ("saved state", "tachyon/crypto/random/cha_cha20/cha_cha20_rng.h:ReadFromBuffer")], over=("inputs", "histories"))
R("H3", "Merkle trees commit to their leaves",
  "A Merkle commitment is the hash tree over the leaves, in their order, whatever the degree of parallelism; every leaf's (or row's) opening is accepted, and a proof of the right shape is accepted exactly when it hashes to the commitment. Trees over several matrices inject each matrix at the level of its height. Sizes that are not powers of two, or exceed the maximum, are refused.",
  "every hash function (uninterpreted), all leaves, every index, every arbitrary proof; 1..16 leaves, 19 shapes of matrices", "Tests open one or two indices of one tree with one hash; the injection of smaller matrices and odd shapes is a case analysis.",
  ["tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h", "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree.h", "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h"],
  [("tree layout", "tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h:BuildTreeFromLeaves"), ("injection by height", "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree.h")])
R("K1", "FRI proves the values of the committed polynomials",
  "Opening committed matrices with FRI yields the values of their interpolating polynomials at the requested points; the verifier accepts every honest opening, running the same transcript as the prover, and refuses (without terminating the process) an opening in which a value, the final value, a sibling, a row or a piece is wrong or missing; an opening for one index is not accepted at another. Folding is even part plus beta times odd part, row by row as for the whole matrix. A coset's vanishing polynomial, parts and selectors are those of its points.",
  "every trace and polynomial of up to 8 rows, every query index, every wrong value", "Tests run one random trace per shape and never a dishonest prover; selectors are tested with coset and domain of one size.",
  ["tachyon/crypto/commitments/fri/prove.h", "tachyon/crypto/commitments/fri/verify.h", "tachyon/crypto/commitments/fri/two_adic_fri.h", "tachyon/crypto/commitments/fri/simple_fri.h", "tachyon/crypto/commitments/fri/fri_config.h", "tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h"],
  [("folding", "tachyon/crypto/commitments/fri/fri_config.h:FoldMatrix"), ("query verification", "tachyon/crypto/commitments/fri/verify.h:VerifyQuery"), ("selectors", "tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h:GetSelectorsOnCoset")], over=("inputs", "histories"))
R("Z1", "Plonk proofs exist exactly for witnesses that satisfy the circuit, and the verifier checks every constraint",
  "For a circuit of gates, copy constraints, constants, lookups, shuffles and phases, a proof made from a satisfying witness is accepted by the verifier made from the same circuit, whichever floor planner, lookup type and opening scheme is used and whether the proving key was made with or without the verifying key; one made from a witness, instance, lookup or shuffle that does not satisfy the circuit is refused (for all but a few challenges), and so is a proof with any element changed. The verifier draws the challenges in the order the prover does, asks for exactly the openings of all the committed columns at the points the circuit queries, and its quotient is the combination, by powers of y, of every gate, permutation, lookup and shuffle constraint over the vanishing polynomial; every lookup a circuit asks for is in exactly one argument, with its own table.",
  "every value of a cell; every proof element and challenge", "Tests compare fixed circuits' proofs with recorded numbers and never run a witness that fails a constraint.",
  ["tachyon/zk/plonk/halo2/prover.h", "tachyon/zk/plonk/halo2/verifier.h", "tachyon/zk/plonk/constraint_system/constraint_system.h", "tachyon/zk/plonk/permutation/permutation_prover.h", "tachyon/zk/plonk/permutation/permutation_verifier.h", "tachyon/zk/plonk/vanishing/vanishing_verifier.h", "tachyon/zk/lookup/halo2/verifier.h", "tachyon/zk/lookup/log_derivative_halo2/verifier.h", "tachyon/zk/shuffle/verifier.h"],
  [("proof creation", "tachyon/zk/plonk/halo2/prover.h:CreateProof"), ("verification", "tachyon/zk/plonk/halo2/verifier.h:VerifyProof"), ("lookup chunking", "tachyon/zk/plonk/constraint_system/constraint_system.h:ChunkLookups"), ("permutation argument", "tachyon/zk/plonk/permutation/permutation_verifier.h:Evaluate")], over=("inputs", "histories"))
R("E3", "Pairings are the reduced (optimal) ate pairing of their curve",
  "Each step of the Miller loop doubles or adds the point of the twist and its coefficients are the tangent's or chord's, placed in the twelfth-degree field at the untwisted positions and evaluated at the point of G1. For any number of pairs the loop multiplies the Miller functions of the ate pairing (6x+2 and two Frobenius lines for BN curves, x for BLS12 curves), skipping pairs with a zero point. The final exponentiation raises to a multiple, prime to r, of (p^12-1)/r, using cyclotomic squares and powers in the cyclotomic subgroup only. So the pairing is bilinear and not degenerate. The generators lie on their curves and have order r, and the twist's constants are the untwisted Frobenius.",
  "every point, every curve parameter of the family", "A pairing test checks bilinearity at a random pair of points on one curve; more pairs than one chunk, zero points in the middle, other parameters and the placement of coefficients are not settled by it.",
  ["tachyon/math/elliptic_curves/pairing/g2_projective.h", "tachyon/math/elliptic_curves/pairing/pairing_friendly_curve.h", "tachyon/math/elliptic_curves/bn/bn_curve.h", "tachyon/math/elliptic_curves/bn/g2_prepared.h", "tachyon/math/elliptic_curves/bls12/bls12_curve.h", "tachyon/math/elliptic_curves/bls12/g2_prepared.h"],
  [("Miller loop", "tachyon/math/elliptic_curves/bn/bn_curve.h:MultiMillerLoop"), ("line coefficients", "tachyon/math/elliptic_curves/pairing/g2_projective.h:AddInPlace"), ("final exponentiation", "tachyon/math/elliptic_curves/bls12/bls12_curve.h:FinalExponentiation")])
R("Z2", "R1CS circuits mean their constraints, reduce to the right QAP, and Groth16 accepts exactly what satisfies them",
  "A linear combination computes with the coefficients of its variables and stays sorted without duplicates; a constraint system is satisfied exactly if every constraint holds, before and after it is finalised with combinations inlined or outlined, and its matrices evaluate to the sides of the constraints; the setup's matrices are the prover's. The QAP's polynomials at the secret point are the interpolations of the columns, the quotient's values are (ab - c)/t. A Groth16 key holds the right points; an honest proof is accepted, blinded or not, randomised again or not, A and B are blinded by r and s; the proof is refused for other instances, for fewer or more instances, when an element is changed, or when the assignment does not satisfy the circuit.",
  "every assignment, coefficient, secret and randomness", "Tests prove one multiplication circuit with random values; coefficients of merged or nested combinations, zero variables and refusals are hardly reached.",
  ["tachyon/zk/r1cs/constraint_system/constraint_system.h", "tachyon/zk/r1cs/constraint_system/linear_combination.h", "tachyon/zk/r1cs/constraint_system/quadratic_arithmetic_program.h", "tachyon/zk/r1cs/groth16/proving_key.h", "tachyon/zk/r1cs/groth16/prove.h", "tachyon/zk/r1cs/groth16/verify.h"],
  [("inlining and outlining", "tachyon/zk/r1cs/constraint_system/constraint_system.h:TransformLCMap"), ("QAP", "tachyon/zk/r1cs/constraint_system/quadratic_arithmetic_program.h:InstanceMap"), ("proof", "tachyon/zk/r1cs/groth16/prove.h:CreateProofWithAssignment")])
R("Z3", "Plonk expressions are evaluated as written, told apart, and keep what their selectors select",
  "An expression's value is the same for the prover (row by row), in the optimised graph the quotient is computed with (alone or sharing parts with other expressions), and for the verifier, and is the value of the polynomial written down at the rotated rows; a clone is equal and has the same value and degree; two expressions are equal, and have the same identifier, exactly if they are written alike; compressing expressions combines them by powers of theta. Replacing selectors substitutes their replacements and leaves none; combined selectors are non-zero exactly on the rows their selector is enabled, and no gate's degree exceeds the maximum.",
  "every cell, challenge, constant and activation", "Tests evaluate a handful of expressions on fixed rows; a graph optimisation or a combination that goes wrong for one shape is not noticed.",
  ["tachyon/zk/expressions/expression.h", "tachyon/zk/plonk/expressions/proving_evaluator.h", "tachyon/zk/plonk/vanishing/graph_evaluator.h", "tachyon/zk/plonk/expressions/evaluator/identifier.h", "tachyon/zk/plonk/constraint_system/selector_compressor.h"],
  [("graph evaluation", "tachyon/zk/plonk/vanishing/graph_evaluator.h:Evaluate"), ("combination of selectors", "tachyon/zk/plonk/constraint_system/selector_compressor.h:CombineSimpleSelectors"), ("identifier", "tachyon/zk/plonk/expressions/evaluator/identifier.h:Evaluate")])
R("P4", "Rational field elements compute with the values they stand for, and unknown values stay unknown",
  "Adding, subtracting, multiplying, doubling, squaring, negating, inverting and dividing fractions gives a fraction of the result of the same operation on their values; two fractions are equal exactly if their values are, a fraction is zero, one or minus one exactly if its value is; evaluating a batch gives each value times the coefficient. A zk::Value combined with an unknown one is unknown, and otherwise the operation's result; two are equal exactly if both are unknown or both known and equal.",
  "every numerator, denominator, coefficient and value", "Tests use a field of seven elements and fractions with numerator equal to denominator.",
  ["tachyon/math/base/rational_field.h", "tachyon/zk/base/value.h"],
  [("comparison with one", "tachyon/math/base/rational_field.h:IsOne"), ("batch evaluation", "tachyon/math/base/rational_field.h:BatchEvaluate"), ("optional values", "tachyon/zk/base/value.h:operator!=")])
R("K2", "Pairing-based polynomial commitments open to the committed values and to nothing else",
  "A KZG commitment is the polynomial evaluated at the secret, the same from coefficients as from evaluations and for every kind of point; SHPlonk and GWC proofs of any honest set of openings (several polynomials, shared and separate points) are accepted, by the scheme that made them and by one read back from its serialisation, with prover and verifier running the same transcript; a proof for a wrong value, or a changed proof, is not accepted except for the secrets and challenges that make the pairing equation hold. A Pedersen commitment is the sum of value times generator plus r times h.",
  "every secret, coefficient, blind and challenge; every wrong value", "Tests run one random set of polynomials and points, and never a dishonest prover or a deserialised scheme.",
  ["tachyon/crypto/commitments/kzg/kzg.h", "tachyon/crypto/commitments/kzg/shplonk.h", "tachyon/crypto/commitments/kzg/gwc.h", "tachyon/crypto/commitments/polynomial_openings.h", "tachyon/crypto/commitments/pedersen/pedersen.h"],
  [("commitment", "tachyon/crypto/commitments/kzg/kzg.h:Commit"), ("SHPlonk", "tachyon/crypto/commitments/kzg/shplonk.h:DoVerifyOpeningProof"), ("GWC", "tachyon/crypto/commitments/kzg/gwc.h:DoVerifyOpeningProof"), ("Pedersen", "tachyon/crypto/commitments/pedersen/pedersen.h:DoCommit")], over=("inputs", "histories"))
