"""Per-property check definitions (see check.py)."""
PROPS = {}
def P(id, **kw): PROPS[id] = kw
P("D01", functions="base/bits.h, base/bits.cc: all functions", bounds="every value of every unsigned/signed width; every bit length 1..63, every alignment",
  outside="", assumes="", units=[dict(src="bits.cc", engine="L", extra=["repo:tachyon/base/bits.cc"], gen=False, time=100)])
P("D02", functions="base/range.h: Range and Range::Iterator, instantiated for int8/uint16/int32/uint32/int64/uint64 and all four bound kinds",
  bounds="consistency: all end points and probe values of the type; iteration: every start point, 0..4 members", outside="iteration over more than 4 members; floating-point ranges",
  assumes="", units=[dict(src="range.cc", engine="L", gen=False, time=100)])
P("D03", functions="ReadOnlyBuffer/Buffer/VectorBuffer Read/Write/ReadAt/WriteAt/ReadPtr/ReadMany/WriteMany, Copyable<> of built-ins, strings, vectors, arrays, pairs, tuples, EstimateSize, endian conversions",
  bounds="symbolic values, buffer contents, offsets (all 64-bit values) and length fields; containers of 0..3 elements; buffers up to 64 bytes", outside="larger containers; shared pointers", assumes="allocation succeeds",
  units=[dict(src="buffer.cc", engine="L", gen=False, time=150, extra=["repo:tachyon/base/buffer/buffer.cc", "repo:tachyon/base/buffer/read_only_buffer.cc", "repo:tachyon/base/endian.cc"])])
P("D04", functions="circular_deque<T>, its iterators, VectorBuffer<T> for trivially copyable and destructor-counting element types",
  bounds="every rotation of rings of capacity up to 8, 1-2 symbolic operations after a symbolic prefix, symbolic element values and positions", outside="longer histories, larger rings", assumes="allocation succeeds; element copies do not throw",
  units=[dict(src="deque.cc", engine="L", gen=False, time=200)])
P("D05", functions="Parallelize*/ParallelizeFill/Resize/Map, Chunked, Zipped, Adapters, container_util.h",
  bounds="containers of 0..6 symbolic elements, chunk sizes 1..7 and thread counts 1..4", outside="larger containers; real OpenMP interleavings (the callbacks of different chunks touch disjoint spans, the loop is executed sequentially)", assumes="omp_get_max_threads is arbitrary within the bound",
  units=[dict(src="chunks.cc", engine="L", gen=False, time=200, extra=["repo:tachyon/base/random.cc"])])
P("D06", functions="CheckedNumeric, ClampedNumeric, Check*/Clamp* helpers, saturated_cast, checked_cast, IsValueInRangeForNumericType, SafeUnsignedAbs",
  bounds="every operand value for 8..64-bit add/sub/conversion/unary/shift; mul for 8..32 bit operands or a small multiplier at 64 bit; div/mod for 8/16 bit fully and within 3 of every limit at 32/64 bit", outside="64-bit mul/div in the middle of the range (thorough tier tries them); floating point", assumes="",
  units=[dict(src="numerics.cc", engine="L", gen=False, time=150)])
AX = ["lib_math.cc", "cfg_bn254.cc"]
P("E1", functions="AffinePoint/JacobianPoint/ProjectivePoint/PointXYZZ<SWCurve>: Add, AddInPlace, Sub, Double(InPlace), DoubleProjective, DoubleXYZZ, Negate(InPlace), ==, To*/From*, ConvertPoint(s), BatchNormalize(Serial), Endomorphism; SWCurve::IsOnCurve; field BatchInverse",
  bounds="all coordinates (symbolic field elements), every representation of each point (symbolic z) including every representation of the identity; batches of 0..3 points", outside="curves over extension fields (same templates), CreateFromX (square root: see F2), GPU code",
  assumes="the base field is a field (decided by F1): its operations are replaced by exact symbolic arithmetic; (0, 0), which encodes the affine identity, is excluded as a finite point",
  units=[dict(src="ec_sw.cc", engine="A", extra=AX, time=100)])
AF = ["lib_math.cc", "cfg_all.cc"]
P("F5", functions="Fp2, Fp4 (both towers), Fp6, Fp12 and Quadratic/Cubic/QuarticExtensionField: Add, Sub, Negate, Double, Mul, Square, base-field Mul, Inverse, Div, Norm, Conjugate, FrobeniusMapInPlace, MulByNonResidue, MulInPlaceBy1/01/014/034, Cyclotomic{Square,Inverse,Pow}, predicates, ToBaseFields, FromBasePrimeFields; instances bn254 Fq2/6/12, bls12_381 Fq2/6/12, BabyBear4, KoalaBear4, Goldilocks2, m31 Fq2/Fq4",
  bounds="every coordinate symbolic, except: inversion in degree 6 and 12 (3, resp. 1-2 symbolic coordinates), cyclotomic squaring (one symbolic coordinate of the element's preimage), CyclotomicPow exponents 0..23; Frobenius exponents 0..degree+1",
  outside="inversion in degree 12 with all coordinates symbolic; sparse products of Fp6 over Fp3 (no instance in the project); packed extension fields", assumes="the prime field is a field (F1/F2): its operations are replaced by exact symbolic arithmetic",
  units=[dict(src="ext_field.cc", engine="A", extra=AF, time=120)])
P("P1", functions="UnivariateDensePolynomial, UnivariateSparsePolynomial: +, -, *, /, %, DivMod, in-place and aliased forms, scalar forms, Evaluate, Fold, ToDense/ToSparse, FromRoots, ==, clean-up; UnivariateEvaluations arithmetic; LagrangeInterpolate; vanishing polynomial by roots",
  bounds="dense operands with 0..4 symbolic coefficients, sparse operands with 6 support patterns up to degree 3, sparse evaluation at 13 degrees up to 4096, 0..4 roots, 1..4 interpolation points (two symbolic)", outside="larger degrees; OpenMP chunking (D05)",
  assumes="the coefficient field is a field (F1/F2)", units=[dict(src="poly.cc", engine="A", extra=AF, time=160)])
P("P2", functions="Radix2EvaluationDomain, MixedRadixEvaluationDomain, UnivariateEvaluationDomain(Factory), Radix2TwiddleCache, NaiveBatchFFT, TwoAdicSubgroup, PrimeFieldBase::GetRootOfUnity/Decompose, SwapBitRevElements, ReverseMatrixIndexBits",
  bounds="sizes 1..16 (radix 2) and 1..18 (mixed radix), 0..n symbolic coefficients or evaluations, symbolic coset offset, symbolic tau; matrices of 2..16 rows x 1..3 columns with symbolic entries, 0..2 added bits, symbolic shift; roots of unity up to 2^11", outside="larger sizes; the OpenMP variant of the mixed-radix FFT; AVX row arithmetic (F4)",
  assumes="the field is a field (F1/F2)", units=[dict(src="fft.cc", engine="A", extra=AF, time=120)])
P("P3", functions="MultilinearDenseEvaluations, MultilinearExtension (+,-,*,/, in place), LinearCombination(Term), MultivariateSparseCoefficients (Element/Literal/Term order, Compact, Degree, Evaluate), MultivariatePolynomial +,-,negation",
  bounds="1..4 variables with symbolic tables and points (1..3 for partial evaluation), linear combinations of 3 symbolic tables in 5 shapes, sparse polynomials over 8 subsets of 11 monomials in 3 variables with symbolic coefficients, all pairs and triples of these monomials for the order",
  outside="more variables; tables whose size is not a power of two", assumes="the coefficient field is a field (F1/F2)", units=[dict(src="multilinear.cc", engine="A", extra=AF, time=100)])
P("S1", functions="SumcheckProver, SumcheckVerifier, InterpolateUniPoly, SumcheckProvingKey/VerifyingKey::Build and ==, MultilinearSumcheck pieces",
  bounds="1 and 2 rounds, 1..3 terms of up to 3 factors over 3 symbolic tables, symbolic challenges (including challenges below the number of evaluations), symbolic cheating messages of 2..3 evaluations, interpolation through 1..6 points",
  outside="more rounds; the soundness error of the protocol itself; random generation", assumes="the field is a field (F1/F2)", units=[dict(src="multilinear.cc", tag="S1", flags=["-DSUMCHECK"], engine="A", extra=AF, time=150)])
P("M1", functions="MulMatVec(Serial), MulMatMat(Serial), MakeCirculant, PackRowHorizontallyPadded, PackRowVertically, SplitMat, Map, ELLSparseMatrix and CSRSparseMatrix (construction, conversions to each other and to Eigen, Sort, IsSorted, MaxRows/MaxCols/NonZeros, ==), Eigen inverse and determinant over the project's scalar traits",
  bounds="dense matrices up to 4x4 with every entry symbolic, row- and column-major; packed rows of 0..7 columns with 3 lanes; 12 sparsity patterns of 3x3 matrices with symbolic values; inverse of 1x1 and 2x2 (all entries) and 3x3 (4 symbolic entries)",
  outside="larger shapes; DotExtPowers (F4's packed fields)", assumes="the entries' field is a field (F1/F2)", units=[dict(src="matrix.cc", engine="A", extra=AF, time=100)])
P("C1", functions="AffinePoint<Circle>: Add, Sub, Double, Negate, Conjugate, Antipode and in-place forms, ScalarMul, predicates; Circle::IsOnCircle; m31 G1 generator; Point2/3/4 equality and construction",
  bounds="all coordinates symbolic over Mersenne31; scalar multiples 0..11; the generator's order 2^31 exactly", outside="the degree-4 circle's generator (its field is F5's)", assumes="the base field is a field (F1/F2)", units=[dict(src="circle.cc", engine="A", extra=AF, time=100)])
P("G1", functions="MultiplicativeSemigroup::{Pow, ConstPow, PowWithTable, GetSuccessivePowers, GetBitRevIndexSuccessivePowers(Serial), ExpPowOfTwo, Square, Double}, AdditiveSemigroup::{ScalarMul, ConstScalarMul, MultiScalarMul (3 forms), GetSuccessiveScalarMuls, LinearCombination(InPlace)}, MultiplicativeGroup::{/, /=, BatchInverse(InPlace)(Serial)}, BitIteratorBE/LE",
  bounds="symbolic group elements; exponents 0..40 and 2^k-1..2^k+1 up to 2^10; scalars 0..19 and 2^k-1..2^k+1 at limb boundaries up to 2^253; vectors of 0..4 (powers: 0..9) symbolic elements, zeros anywhere", outside="all 256-bit scalars at once (E2 takes symbolic scalar bits)", assumes="the field is a field (F1/F2)", units=[dict(src="circle.cc", tag="G1", flags=["-DGENERIC"], engine="A", extra=AF, time=100)])
P("E2", functions="GLV::{Decompose, Mul, Endomorphism}, FillDigits, Pippenger, PippengerBase, PippengerAdapter (all strategies), VariableBaseMSM, FixedBaseMSM, MSMCtx, BitIterator and BitTraits over multi-precision integers, bn254/bls12-381 G1 constants",
  bounds="decomposition: every scalar below the order (linear integer arithmetic over gmp's interface); GLV multiplication: 144 combinations of half-scalars of every limb count, symbolic point; MSM: 1..2 symbolic bases with every scalar of 3..7 bits, window-boundary patterns at 64..256 bits, sizes up to 152; fixed base: table sizes 1..5000, symbolic base",
  outside="all 256-bit scalars at once in the window algorithms; GPU", assumes="the points form an abelian group (E1), here the additive group of a symbolic field; gmp is correct", units=[dict(src="msm.cc", engine="A", extra=AF, time=100)])
P("H1", functions="PoseidonConfig::Create (FindPoseidonARKAndMDS, OptimizeARK, ComputeSparseMatrices, Factorize), PoseidonGrainLFSR, PoseidonSponge::Permute, SparseMDSMatrix, Poseidon2Config::Create/FindPoseidon2ARK, Poseidon2Sponge::Permute, Poseidon2ExternalMatrix (Horizen and Plonky3, widths 2..24), Poseidon2HorizenInternalMatrix, ==, Copyable of the configs",
  bounds="every state symbolic over bn254 Fr and BabyBear: Poseidon widths 2, 3, 4, 5 with 1..57 partial rounds, Poseidon2 widths 3 and 16; the parameters are compared with an independent Grain generator; external layers of 8 widths", outside="packed and Montgomery-shift internal layers over small fields (bit-level arithmetic), other widths and round numbers",
  assumes="the field is a field (F1/F2); products beyond one monomial are opaque to the comparison, so equality of the two permutations is decided round by round", units=[dict(src="poseidon.cc", engine="A", extra=AF, time=100)])
P("H2", functions="PoseidonSpongeBase::{Absorb, AbsorbInternal, SqueezeNativeFieldElements, SqueezeFieldElements, SqueezeInternal}, PaddingFreeSponge, TruncatedPermutation, DuplexChallenger, HashChallenger, Challenger",
  bounds="an uninterpreted permutation (hence every permutation); every history of 2..3 absorptions and squeezes of 0..2*rate+1 elements for (rate, capacity) = (1,1), (2,1), (3,2); every input length 0..3*rate; every history of 5 challenger operations", outside="SqueezeBytes, SqueezeBits and Fork (they do not compile when instantiated); squeezing nothing",
  assumes="the field is a field", units=[dict(src="poseidon.cc", tag="H2", flags=["-DSPONGE"], engine="A", extra=AF, time=100)])
P("H3", functions="BinaryMerkleTree::{Commit, CreateOpeningProof, VerifyOpeningProof, FillLeaves, BuildTreeFromLeaves}, FieldMerkleTree::{Build, BuildOwned, ...}, FieldMerkleTreeMMCS::{DoCommit, DoCreateOpeningProof, DoVerifyOpeningProof, ConstructCanonicalOrder...}",
  bounds="an uninterpreted hash and compression function (hence every one); 1..16 leaves and every leaf-count from 0 to 33 for refusals; parallelization thresholds 1..16; 19 collections of 1..4 matrices of 1..8 rows and 1..5 columns over a prime field and 11 over a quartic extension, every index; arbitrary openings and proofs in verification", outside="openings whose shape is not that of the committed matrices; an index beyond the tree; the packed (AVX2) hashers; icicle",
  assumes="the field is a field", units=[dict(src="merkle.cc", tag="H3", engine="A", extra=AF, time=100)])
P("K1", functions="fri::{Prove, CommitPhase, AnswerQuery, Verify, VerifyQuery}, FoldMatrix, FoldRow, TwoAdicFRI::{Commit, CreateOpeningProof, VerifyOpeningProof, ComputeInverseDenominators, InterpolateCoset}, TwoAdicMultiplicativeCoset (all), SimpleFRI::{Commit, CreateOpeningProof, VerifyOpeningProof}, DotExtPowers, Radix2EvaluationDomain::CosetLDEBatch",
  bounds="every trace (symbolic) of 7 collections of 1..3 matrices of 2..8 rows and 1..3 columns in 1..2 rounds, opened at 1..3 points, blow-up 2 and 4, 1..2 queries at every index; any wrong opened value, final value, sibling, row, and missing pieces; symbolic challenges for traces of 2 and 4 rows; SimpleFRI: every polynomial of degree below 8 with symbolic challenges at every index, and every other index; folding of matrices of 1..8 rows; cosets of 1..8 elements with every shift, selectors on cosets up to 4 times larger", outside="traces of a single row (CosetLDEBatch refuses them); larger traces; opening points other than the four drawn; the icicle path",
  assumes="an ideal commitment to matrices for TwoAdicFRI (H3 decides the Merkle one); an uninterpreted hash for SimpleFRI; packed fields are lane-wise (two lanes here)", units=[dict(src="fri.cc", tag="K1", engine="A", extra=AF, time=150)])
P("K2", functions="KZG::{UnsafeSetupWithTau, Commit, CommitLagrange, Downsize}, SHPlonk and GWC::{CreateOpeningProof, VerifyOpeningProof, constructors, Copyable}, GroupedPolynomialOpenings, UnivariatePolynomial::{ToLinearCombination, operator/=}, Pedersen::{Setup, Commit, batch mode}",
  bounds="every tau, coefficient, blind and challenge (symbolic); tables of 1..8 powers; polynomials of up to 8 coefficients; opening patterns of 1..4 polynomials at 1..3 points, shared, nested and disjoint; every wrong opening, commitment and proof point; a scheme copied through a buffer; Pedersen over 1..4 generators", outside="larger polynomials; opening points are distinct constants (the code orders them); within the time given, forks on vanishing leading coefficients are followed until it runs out (incomplete harnesses say so in the evidence)",
  assumes="the pairing is bilinear and non-degenerate (toy additive group: sG is the field element s, e(aG,bH)=ab; C1, E1 decide curves and towers); a multi-scalar multiplication is the sum of products (E2)", units=[dict(src="kzg.cc", tag="K2", engine="A", extra=AF, time=60)])

P("Z1", functions="plonk::{ConstraintSystem, ProvingKey::Load(WithVerifyingKey), VerifyingKey::Load, SimpleFloorPlanner, V1FloorPlanner, PermutationAssembly, CycleStore, PermutationProver, PermutationVerifier, ProvingEvaluator, GraphEvaluator, SelectorCompressor}, halo2::{Prover::CreateProof, Verifier::VerifyProof, ProofReader, ArgumentData}, lookup::{halo2, log_derivative_halo2}::{Prover, Verifier}, shuffle::{Prover, Verifier}, VanishingArgument, SHPlonkExtension, GWCExtension, BlindedPolynomial",
  bounds="circuits of 16 rows (prover) with gates over rotations -1..2, copy constraints over advice, fixed and instance columns and constants, lookups in three tables, a shuffle and two phases, alone and together, two circuits per proof, both floor planners, both lookup types with SHPlonk and halo2 lookups with GWC; one cell of the witness or instance symbolic; every element of the proof changed by a symbolic non-zero amount; the verifier's identity, the openings it asks for and the arguments a circuit's lookups are put in: every proof element and every challenge but the opening point symbolic",
  outside="larger circuits; several symbolic cells at once; the challenges of whole proofs are constants (a refusal must hold for one of two sets, as all but a few challenges refuse); the openings themselves are K2's; randomness of the blinding", assumes="the pairing is bilinear and non-degenerate (toy group, as in K2); the opening scheme opens (K2); the field is a field (F1/F2)",
  units=[dict(src="plonk.cc", tag="Z1s", engine="A", extra=AF + ["lib_plonk.cc"], time=200),
         dict(src="plonk.cc", tag="Z1h", flags=["-DPCSX=SX", "-DLT=kH", "-DLIGHT"], engine="A", extra=AF + ["lib_plonk.cc"], time=60),
         dict(src="plonk.cc", tag="Z1g", flags=["-DPCSX=GX", "-DLT=kH", "-DLIGHT"], engine="A", extra=AF + ["lib_plonk.cc"], time=60),
         dict(src="plonk.cc", tag="Z1fl", flags=["-DFORMULA"], engine="A", extra=AF + ["lib_plonk.cc"], time=60),
         dict(src="plonk.cc", tag="Z1fh", flags=["-DFORMULA", "-DPCSX=SX", "-DLT=kH"], engine="A", extra=AF + ["lib_plonk.cc"], time=60)])

P("Z3", functions="Expression (every kind of node: Clone, ==, !=, Degree), ExpressionFactory and the operators, ProvingEvaluator, VerifyingEvaluator, GraphEvaluator, Calculation, ValueSource, EvaluationInput, Rotation::GetIndex, CompressExpressions, Identifier, SelectorReplacer, SimpleSelectorExtractor, SimpleSelectorFinder, SelectorCompressor, ExclusionMatrix",
  bounds="every expression of depth 2 with one side a leaf, over 11 kinds of leaves, symbolic cells of 4 rows, rotations -2..3, rotation scales 1 and 2, symbolic challenges, constants and scales; two expressions of depth 1 in one graph; identifiers and equality of all pairs of depth 1; every activation of 3 and 4 selectors over 2 rows and 5 over one, degrees 0..3 and maximum degrees 2..7", outside="deeper expressions; AIR expressions", assumes="the field is a field (F1/F2)", units=[dict(src="expr.cc", engine="A", extra=AF + ["lib_plonk.cc"], time=120)])
P("Z2", functions="LinearCombination, Variable, Term, ConstraintSystem (EnforceConstraint, CreateLinearCombination, inlining and outlining of combinations, Finalize, IsSatisfied, ToMatrices), QuadraticArithmeticProgram::{InstanceMap, WitnessMap, ComputeHQuery}, ToxicWaste::SampleX, ProvingKey/VerifyingKey::Load, ToPreparedVerifyingKey, CreateProofWithReduction(ZK/NoZK), CreateProofWithAssignment, ReRandomizeProof, PrepareInputs, VerifyProof",
  bounds="three circuits of 2..4 constraints with nested, shared and wide combinations, every assignment (satisfying or not), every coefficient, alpha, beta, gamma, delta, r, s; combinations of up to 9 terms over every kind of variable; domains of 8; every other instance and every changed proof element",
  outside="larger circuits; the point of the keys is a constant (a refusal must hold under one of two); a key's or proof's text; GPU; proofs by a prover who does not follow the code", assumes="the pairing is bilinear and non-degenerate (toy additive group); multi-scalar multiplication is the sum of products (E2), a fixed-base one the products", units=[dict(src="r1cs.cc", engine="A", extra=AF, time=110)])
P("E3", functions="G2Projective::{DoubleInPlace, AddInPlace, NegateInPlace}, PairingFriendlyCurve::{Ell, CreatePairs, PowByX, PowByNegX}, Fp12::MulInPlaceBy034/014, bn::G2Prepared::From, bls12::G2Prepared::From, BNCurve and BLS12Curve::{MultiMillerLoop, FinalExponentiation}, CyclotomicMultiplicativeSubgroup::CyclotomicPow, BigInt::ToNAF, constants of bn254 and bls12_381",
  bounds="lines and points: every pair of points in projective coordinates, on any curve y^2 = x^3 + b; the loops of bn254 and bls12_381 in full for 0..6 pairs, every point, any of them zero, over an arbitrary odd function of the points; the final exponentiation for every curve parameter x of the family (symbolic) and exactly for the two instances; powers for 16 x 16 exponents of two limbs",
  outside="the theory of divisors itself; other curves' constants; powers by other exponents; the tower's arithmetic (F5) and the points' (E1)", assumes="Fp12's operations are the field's (F5); lines through equal divisors have equal values up to factors the final exponentiation removes", units=[dict(src="pairing.cc", engine="A", extra=AF, time=120)])
P("P4", functions="RationalField (arithmetic, in-place forms, Inverse, comparison, IsOne/IsZero/IsMinusOne, Evaluate, BatchEvaluate), zk::Value (arithmetic, comparison, inverse, ToRationalFieldValue)",
  bounds="every numerator, non-zero denominator and coefficient (symbolic); batches of 0..4; known and unknown values in every combination", outside="rationals with a zero denominator; < and > of rationals", assumes="the field is a field (F1/F2)", units=[dict(src="rational.cc", engine="A", extra=AF, time=60)])

_PF = "bn254_fq bn254_fr bls_fq bls_fr secp_fq secp_fr pallas goldilocks baby_bear koala_bear mersenne31".split()
_PFA = "bn254_fq secp_fq goldilocks baby_bear koala_bear mersenne31".split()
_PX = ["lib_math.cc"]
P("F1", functions="PrimeField (Montgomery 64-bit limbs, Montgomery 32-bit, Mersenne31): Add, Sub, Negate, Double, Mul, Square and in-place forms, FromBigInt, ToBigInt, comparisons, predicates, constants; BigInt Clamp, MulExtend, MontgomeryReduce64, FromMontgomery64",
  bounds="every pair of canonical elements: all operations for bn254 Fq, secp256k1 Fq, Goldilocks, BabyBear, KoalaBear, Mersenne31; sums, products and conversions for bn254 Fr, secp256k1 Fr, Pallas Fq; sums and conversions for bls12_381 Fq and Fr (the products of Fq: thorough tier)", outside="inverse, powers and roots (F2); assembly and GPU variants (not built here)", assumes="", units=[dict(src="pf.cc", tag=n, engine="L", gen=True, time=200, extra=_PX, flags=["-DPF_" + n] + (["-DPF_ALL"] if n in _PFA else []) + (["-DPF_NOMUL"] if n in ("bls_fq", "bls_fr") else [])) for n in _PF] + [dict(src="pf.cc", tag="bls_fq_mul", engine="L", gen=True, time=800, extra=_PX, flags=["-DPF_bls_fq", "-DPF_ALL"], thorough_only=True)])
P("F6", functions="BinaryField1..128: Add, Sub, Negate, Double, Mul, Square, Inverse, in-place and aliased forms, /, comparisons, Compose/Decompose, ToBigInt/FromBigInt, decimal and hexadecimal text; BinaryTowerOperations of every width (the step to the next field also on its own)",
  bounds="all pairs of elements for the linear operations of every width, products and inverses of the fields of 1, 2, 4 and 8 bits; the product, square, generator product and inverse of the step to the next field for all operands and every generator over GF(16); each larger field: every bit by every byte (16) or by 9 bytes (32, 64, 128), squares of every byte, inverses of 32 byte patterns at every place", outside="packed binary fields (AES intrinsics)",
  assumes="products of the step have degree below 16 in each variable, so the step over GF(16) decides the step over any such field", units=[dict(src="binf.cc", engine="L", extra=_PX, time=420)])
P("H4", functions="halo2::{Blake2b, Sha256, Poseidon, SnarkVerifierPoseidon}{Writer, Reader}, TranscriptWriterImpl and TranscriptReaderImpl (WriteToTranscript, WriteToProof, ReadFromProof, SqueezeChallenge), ProofSerializer (scalars and points), Copyable<PrimeField>, the transcripts' saved states, FromUint512/FromUint128",
  bounds="every point and scalar of bn254 (coordinates below the modulus), every history of up to 3 (poseidon: up to 2 writes between challenges) writes of points, scalars and challenges after every prefix; every 32- or 64-byte string as an encoding of a scalar or point; proofs cut at every byte", outside="the hash functions, the permutation and square roots (uninterpreted); Montgomery arithmetic (F1); curves other than bn254; more elements between two challenges",
  assumes="a field element is its canonical integer (F1); y of a point over x is the root whose parity is asked for (F2/E1)", units=[dict(src="transcript.cc", engine="L", extra=_PX, flags=["-DSYM_HASH_RECORD", "-fno-access-control", "-Wno-invalid-constexpr"], time=150)])
P("H5", functions="BlockRNG, ChaCha20RNG (SetSeed, NextUint32, NextUint64, ReadFromBuffer, WriteToBuffer), XORShiftRNG (same)",
  bounds="every seed; streams of 20 (XORShift) and 49 words (ChaCha20, over three blocks) in every mix; a generator saved and restored after every number of draws, reseeded after every number of draws up to 18; every saved state whatever its index and counter; seeds of 0..40 bytes", outside="the ChaCha20 block function itself (uninterpreted); SetRandomSeed; streams over more than four blocks from one state", assumes="", units=[dict(src="rng.cc", engine="L", extra=_PX, flags=["-DSYM_HASH_RECORD"], time=120)])
P("B1", functions="BigInt<1..7>: Add, Sub (carry/borrow, in place, aliased), MulBy2, DivBy2, Multiply, MulExtend, *, <<, >>, &, |, ^, comparisons, IsZero/IsOne/IsEven/IsOdd, Divide, /, %, Extend, Shrink, ExtractBits32/64, To/FromBitsLE/BE, To/FromBytesLE/BE, ToNAF, FromMontgomery32/64, MontgomeryInverse; BYInverter; BitTraits; BitIteratorLE/BE; EGCD",
  bounds="both operands fully symbolic for sums, differences, products, logic, order, conversions of bytes (1..7 limbs); shifts by 20 amounts around limb boundaries; bit fields at 11 offsets and 7 widths up to the whole word; division: dividends of 3..5 bits by any divisor, any dividend by a divisor within 1..2 bits of the top, 6 bits across a limb; NAF of 6 bits low, across limbs and at the top; inverses of 24 values at each end modulo two primes",
  outside="division of two unrestricted operands (128 forks), inverses of all values (data-dependent loop), decimal and hexadecimal text (gmp)", assumes="gcc's carry intrinsics are addition with carry", units=[dict(src="bigint.cc", engine="L", extra=_PX, time=150)])
