// The prime fields of the project, chosen with -DPF_<name>: header, type, modulus and Montgomery radix (1 if none).
#if defined(PF_bn254_fq)
#include "tachyon/math/elliptic_curves/bn/bn254/fq.h"
#define PFT tachyon::math::bn254::Fq
#define PMOD "21888242871839275222246405745257275088696311157297823662689037894645226208583"
#define PR "115792089237316195423570985008687907853269984665640564039457584007913129639936"
#elif defined(PF_bn254_fr)
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#define PFT tachyon::math::bn254::Fr
#define PMOD "21888242871839275222246405745257275088548364400416034343698204186575808495617"
#define PR "115792089237316195423570985008687907853269984665640564039457584007913129639936"
#elif defined(PF_bls_fq)
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fq.h"
#define PFT tachyon::math::bls12_381::Fq
#define PMOD "4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787"
#define PR "39402006196394479212279040100143613805079739270465446667948293404245721771497210611414266254884915640806627990306816"
#elif defined(PF_bls_fr)
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr.h"
#define PFT tachyon::math::bls12_381::Fr
#define PMOD "52435875175126190479447740508185965837690552500527637822603658699938581184513"
#define PR "115792089237316195423570985008687907853269984665640564039457584007913129639936"
#elif defined(PF_secp_fq)
#include "tachyon/math/elliptic_curves/secp/secp256k1/fq.h"
#define PFT tachyon::math::secp256k1::Fq
#define PMOD "115792089237316195423570985008687907853269984665640564039457584007908834671663"
#define PR "115792089237316195423570985008687907853269984665640564039457584007913129639936"
#elif defined(PF_secp_fr)
#include "tachyon/math/elliptic_curves/secp/secp256k1/fr.h"
#define PFT tachyon::math::secp256k1::Fr
#define PMOD "115792089237316195423570985008687907852837564279074904382605163141518161494337"
#define PR "115792089237316195423570985008687907853269984665640564039457584007913129639936"
#elif defined(PF_pallas)
#include "tachyon/math/elliptic_curves/pasta/pallas/fq.h"
#define PFT tachyon::math::pallas::Fq
#define PMOD "28948022309329048855892746252171976963363056481941560715954676764349967630337"
#define PR "115792089237316195423570985008687907853269984665640564039457584007913129639936"
#elif defined(PF_goldilocks)
#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"
#define PFT tachyon::math::Goldilocks
#define PMOD "18446744069414584321"
#define PR "18446744073709551616"
#elif defined(PF_baby_bear)
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#define PFT tachyon::math::BabyBear
#define PMOD "2013265921"
#define PR "4294967296"
#elif defined(PF_koala_bear)
#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"
#define PFT tachyon::math::KoalaBear
#define PMOD "2130706433"
#define PR "4294967296"
#elif defined(PF_mersenne31)
#include "tachyon/math/finite_fields/mersenne31/mersenne31.h"
#define PFT tachyon::math::Mersenne31
#define PMOD "2147483647"
#define PR "1"
#endif
