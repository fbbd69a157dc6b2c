#include "tachyon/math/elliptic_curves/bn/bn254/fq_config.cc"
#include "tachyon/math/elliptic_curves/bn/bn254/fr_config.cc"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fq_config.cc"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr_config.cc"
#include "tachyon/math/finite_fields/baby_bear/internal/baby_bear_config.cc"
#include "tachyon/math/finite_fields/koala_bear/internal/koala_bear_config.cc"
#include "tachyon/math/finite_fields/mersenne31/internal/mersenne31_config.cc"
#include "tachyon/math/finite_fields/goldilocks/internal/goldilocks_config.cc"
