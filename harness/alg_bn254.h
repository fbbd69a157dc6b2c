// bn254 with a symbolic base field
#pragma once
#include "tachyon/math/elliptic_curves/bn/bn254/fq_config.h"
#include "symf.h"
SYMF_SPECIALIZE(tachyon::math::bn254::FqConfig)
