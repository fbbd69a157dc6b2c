// 512-bit integers to field elements (halo2's challenges and random elements), with the real Montgomery arithmetic.
#include "sym.h"
#include "tachyon/zk/plonk/halo2/prime_field_conversion.h"
#include "tachyon/zk/plonk/halo2/random_field_generator.h"
#ifdef W_pallas
#include "tachyon/math/elliptic_curves/pasta/pallas/fr.h"
using F = tachyon::math::pallas::Fr;
#define PMOD "28948022309329048855892746252171976963363056481941647379679742748393362948097"
#else
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
using F = tachyon::math::bn254::Fr;
#define PMOD "21888242871839275222246405745257275088548364400416034343698204186575808495617"
#endif
using namespace tachyon; using namespace tachyon::zk::plonk::halo2;
static ZI R() { return Zn("115792089237316195423570985008687907853269984665640564039457584007913129639936"); }
static void claim(const F& f, ZI x) { zi_assert_cong(zi_limbs(&f, 32), (x * R()).i, PMOD, "the element is the integer modulo the field's order"); zi_assert_lt(zi_limbs(&f, 32), zi_dec(PMOD), "the element is canonical"); sym_reached("end"); }
SYM_HARNESS(bytes) { sym_arith(2); uint8_t b[64]; sym_make(b, 64, "b"); ZI x = zi_limbs(b, 64); F f = FromUint512<F>(b); claim(f, x); }
SYM_HARNESS(uint128) { sym_arith(2); uint64_t l[2]; sym_make(l, 16, "l"); ZI x = zi_limbs(l, 16); F f = FromUint128<F>(absl::MakeUint128(l[1], l[0])); claim(f, x); }
struct Gen : crypto::RNG { uint32_t v[16]; int k = 0; void SetRandomSeed() override {} bool SetSeed(absl::Span<const uint8_t>) override { return true; } uint32_t NextUint32() override { return v[k++ & 15]; } bool ReadFromBuffer(const base::ReadOnlyBuffer&) override { return false; } bool WriteToBuffer(base::Buffer&) const override { return false; } };
SYM_HARNESS(random_element) { sym_arith(2); Gen g; sym_make(g.v, 64, "v"); ZI x = zi_limbs(g.v, 64); RandomFieldGenerator<F> r(&g); F f = r.Generate(); sym_assert(g.k == 16, "sixteen words are drawn"); claim(f, x); }
