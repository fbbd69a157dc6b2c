// symbolic versions of every prime field of the project that engine A's harnesses use
#pragma once
#define TACHYON_MATH_FINITE_FIELDS_BABY_BEAR_BABY_BEAR_H_  // the packed (AVX2) variants are decided elsewhere (F4)
#define TACHYON_MATH_FINITE_FIELDS_KOALA_BEAR_KOALA_BEAR_H_
#define TACHYON_MATH_FINITE_FIELDS_MERSENNE31_MERSENNE31_H_
#include "tachyon/math/elliptic_curves/bn/bn254/fq_config.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr_config.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fq_config.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr_config.h"
#include "tachyon/math/finite_fields/baby_bear/internal/baby_bear_config.h"
#include "tachyon/math/finite_fields/koala_bear/internal/koala_bear_config.h"
#include "tachyon/math/finite_fields/mersenne31/internal/mersenne31_config.h"
#include "tachyon/math/finite_fields/goldilocks/internal/goldilocks_config.h"
#include "symf.h"
SYMF_SPECIALIZE(tachyon::math::bn254::FqConfig)
SYMF_SPECIALIZE(tachyon::math::bn254::FrConfig)
SYMF_SPECIALIZE(tachyon::math::bls12_381::FqConfig)
SYMF_SPECIALIZE(tachyon::math::bls12_381::FrConfig)
SYMF_SPECIALIZE(tachyon::math::BabyBearConfig)
SYMF_SPECIALIZE(tachyon::math::KoalaBearConfig)
SYMF_SPECIALIZE(tachyon::math::Mersenne31Config)
SYMF_SPECIALIZE(tachyon::math::GoldilocksConfig)
#include "tachyon/math/finite_fields/baby_bear/internal/baby_bear.h"
#include "tachyon/math/finite_fields/koala_bear/internal/koala_bear.h"
#include "tachyon/math/finite_fields/mersenne31/internal/mersenne31.h"
