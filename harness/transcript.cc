// Halo2 transcripts and proof encoding: the reader absorbs what the writer absorbed; what is absorbed is the halo2
// format; every challenge hashes everything before it; encoded elements are read back; only canonical encodings pass.
// Field elements are kept as canonical integers here (F1 decides the Montgomery representation); square roots, the
// hash and the permutation are uninterpreted.
#include "sym.h"
#include "tachyon/math/base/big_int.h"
namespace tachyon::math { // the order of integers without branches (B1 decides the order itself)
constexpr bool below(const BigInt<4>& a, const BigInt<4>& b) { uint64_t br = 0; for (int i = 0; i < 4; ++i) { uint64_t d = a.limbs[i] - b.limbs[i], e = a.limbs[i] < b.limbs[i]; br = e | ((d < br) & 1); } return br; }
template <> constexpr bool BigInt<4>::operator<(const BigInt<4>& o) const { return below(*this, o); }
template <> constexpr bool BigInt<4>::operator>(const BigInt<4>& o) const { return below(o, *this); }
template <> constexpr bool BigInt<4>::operator<=(const BigInt<4>& o) const { return !below(o, *this); }
template <> constexpr bool BigInt<4>::operator>=(const BigInt<4>& o) const { return !below(*this, o); }
template <> constexpr bool BigInt<4>::IsZero() const { return (limbs[0] | limbs[1] | limbs[2] | limbs[3]) == 0; }
}
#include "tachyon/math/elliptic_curves/bn/bn254/fq_config.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr_config.h"
#include "tachyon/math/finite_fields/prime_field_fallback.h"
namespace tachyon::math {
template <> constexpr PrimeField<bn254::FqConfig>::PrimeField(const BigInt<4>& v) : value_(v) {}
template <> constexpr PrimeField<bn254::FrConfig>::PrimeField(const BigInt<4>& v) : value_(v) {}
template <> constexpr BigInt<4> PrimeField<bn254::FqConfig>::ToBigInt() const { return value_; }
template <> constexpr BigInt<4> PrimeField<bn254::FrConfig>::ToBigInt() const { return value_; }
constexpr BigInt<4> reduce1(const BigInt<4>& a, const BigInt<4>& m) { BigInt<4> r(0); uint64_t br = 0; for (int i = 0; i < 4; ++i) { uint64_t d = a[i] - m[i], e = a[i] < m[i]; r[i] = d - br; br = e | ((d < br) & 1); } uint64_t k = uint64_t{0} - br; for (int i = 0; i < 4; ++i) r[i] = (a[i] & k) | (r[i] & ~k); return r; }
template <> constexpr PrimeField<bn254::FrConfig>& PrimeField<bn254::FrConfig>::AddInPlace(const PrimeField& o) { BigInt<4> s(0); uint64_t c = 0; for (int i = 0; i < 4; ++i) { uint64_t x = value_[i] + o.value_[i], y = x + c; c = (x < value_[i]) | (y < x); s[i] = y; } value_ = reduce1(s, Config::kModulus); return *this; }
template <> constexpr PrimeField<bn254::FqConfig> PrimeField<bn254::FqConfig>::One() { return PrimeField(BigInt<4>(1)); }
template <> constexpr PrimeField<bn254::FrConfig> PrimeField<bn254::FrConfig>::One() { return PrimeField(BigInt<4>(1)); }
}
#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/crypto/hashes/sponge/poseidon/poseidon.h"
#include "tachyon/crypto/hashes/sponge/poseidon/poseidon_params.h"
#include "tachyon/zk/plonk/halo2/prime_field_conversion.h"
using namespace tachyon; using namespace tachyon::math; using namespace tachyon::zk::plonk;
using Fr = bn254::Fr; using Fq = bn254::Fq; using P = bn254::G1AffinePoint;
template <class F> static F mk(const char* n) { BigInt<4> b(0); sym_make((void*)&b, 32, n); sym_assume(below(b, F::Config::kModulus)); return F(b); }
static bool eq(const void* a, const void* b, size_t n = 32) { const uint64_t *x = (const uint64_t*)a, *y = (const uint64_t*)b; uint64_t d = 0; for (size_t i = 0; i < n / 8; ++i) d |= x[i] ^ y[i]; return d == 0; }
static bool eq(const Fr& a, const Fr& b) { return eq(&a.value(), &b.value()); }
static bool eq(const Fq& a, const Fq& b) { return eq(&a.value(), &b.value()); }
// y of the curve point over x with the parity asked for: of the point being read (mode 0) or any (mode 1)
static int g_mode; static bool eq(const P& a, const P& b) { return eq(a.x(), b.x()) & eq(a.y(), b.y()); }
static std::vector<P> g_pts; static size_t g_next; static Fq g_y; static bool g_has;
namespace tachyon::math {
template <> constexpr std::optional<P> P::CreateFromX(const Fq& x, bool odd) {
  Fq y = g_y;
  if (g_mode == 0) { if (g_next >= g_pts.size()) { sym_assert(false, "a point is read that was not written"); return std::nullopt; }
    sym_assert(eq(x, g_pts[g_next].x()), "the abscissa read is the one written"); const P& q = g_pts[g_next++]; if (q.y().ToBigInt().IsOdd() == odd) return q; y = q.y(); }
  else if (!g_has) return std::nullopt;
  if (y.ToBigInt().IsOdd() != odd) y = -y;
  return P(x, y);
}
// membership of the curve: of the points written (mode 0) or of none or every point (mode 1)
template <> constexpr bool bn254::G1Curve::IsOnCurve(const P& p) { if (g_mode == 1) return g_has; bool r = false; for (auto& q : g_pts) r |= eq(p, q); return r; }
}
namespace tachyon::zk::plonk::halo2 {
static Fr wide(const uint64_t* l) { BigInt<4> lo({l[0], l[1], l[2], l[3]}), hi({l[4], l[5], l[6], l[7]}); uint64_t z = hi[0] | hi[1] | hi[2] | hi[3]; if (z == 0) { BigInt<4> r = reduce1(lo, Fr::Config::kModulus); for (int i = 0; i < 5; ++i) r = reduce1(r, Fr::Config::kModulus); return Fr(r); }
  for (int i = 0; i < 4; ++i) lo[i] ^= hi[i]; lo[3] &= (uint64_t{1} << 60) - 1; return Fr(lo); }
template <> Fr FromUint512<Fr>(uint64_t* l) { return wide(l); }
template <> Fr FromUint512<Fr>(uint8_t* b) { uint64_t l[8]; memcpy(l, b, 64); return wide(l); }
}
#include "hash_record.h"
struct Perm { std::vector<std::vector<Fr>> in; };
static Perm g_perm[4]; static Fr g_out[8][9]; static bool g_outs[8];
static void permute(Fr* e, size_t n) {
  auto& pr = g_perm[g_run]; size_t k = pr.in.size(); if (k >= 8) { sym_assert(false, "more permutations than expected"); return; }
  pr.in.emplace_back(e, e + n);
  if (!g_outs[k]) { g_outs[k] = true; for (int i = 0; i < 9; ++i) g_out[k][i] = mk<Fr>("perm"); }
  for (size_t i = 0; i < n; ++i) e[i] = g_out[k][i];
}
namespace tachyon::crypto {
template <> void FindPoseidonARKAndMDS<Fr>(const PoseidonGrainLFSRConfig&, size_t, math::Matrix<Fr>&, math::Matrix<Fr>&) {}
using C9 = PoseidonConfig<BN254PoseidonParams9>; using C5 = PoseidonConfig<BN254PoseidonParams5>; using M = math::Matrix<Fr>; using SM = std::vector<SparseMDSMatrix<Fr>>;
template <> template <> constexpr void C9::OptimizeARK<BN254PoseidonParams9::kFullRounds, BN254PoseidonParams9::kPartialRounds>(const M&, M&) {}
template <> template <> constexpr void C5::OptimizeARK<BN254PoseidonParams5::kFullRounds, BN254PoseidonParams5::kPartialRounds>(const M&, M&) {}
template <> template <> constexpr void C9::ComputeSparseMatrices<BN254PoseidonParams9::kPartialRounds>(const M&, M&, SM&) {}
template <> template <> constexpr void C5::ComputeSparseMatrices<BN254PoseidonParams5::kPartialRounds>(const M&, M&, SM&) {}
template <> void PoseidonSponge<BN254PoseidonParams9>::Permute(SpongeState<BN254PoseidonParams9>& s) const { permute(&s.elements[0], s.elements.size()); }
template <> void PoseidonSponge<BN254PoseidonParams5>::Permute(SpongeState<BN254PoseidonParams5>& s) const { permute(&s.elements[0], s.elements.size()); }
}
#include "tachyon/zk/plonk/halo2/blake2b_transcript.h"
#include "tachyon/zk/plonk/halo2/poseidon_transcript.h"
#include "tachyon/zk/plonk/halo2/sha256_transcript.h"
#include "tachyon/zk/plonk/halo2/snark_verifier_poseidon_transcript.h"
using namespace tachyon::zk::plonk::halo2; using Ser = ProofSerializer<P>;
static void start(bool legacy) { Ser::s_use_legacy_serialization = legacy; for (auto& d : g_digest) sym_make(d, 64, "digest"); g_mode = 0; g_pts.clear(); g_next = 0; for (auto& r : g_rec) r = HashRec(); for (auto& p : g_perm) p.in.clear(); for (auto& o : g_outs) o = false; }
static P point(int kind) { if (kind == 0) return P::Zero(); Fq x = mk<Fq>("x"), y = mk<Fq>("y"); sym_assume(!x.IsZero()); sym_assume(!y.IsZero()); return P(x, y); }
enum Kind { kScalar, kPoint, kZero, kCommonScalar, kCommonPoint, kChallenge, kKinds };
struct Msg { int kind; Fr s; P p; Fr c; };
static std::vector<Msg> messages(size_t n, size_t pre) {
  std::vector<Msg> m; for (size_t i = 0; i < pre; ++i) m.push_back({kScalar, mk<Fr>("pre"), P::Zero(), Fr::Zero()});
  for (size_t i = 0; i < n; ++i) { int k = (int)sym_choose(kKinds, "kind"); Msg e{k, Fr::Zero(), P::Zero(), Fr::Zero()};
    if (k == kScalar || k == kCommonScalar) e.s = mk<Fr>("s"); if (k == kPoint || k == kCommonPoint) e.p = point(1);
    m.push_back(e); if (k == kPoint) g_pts.push_back(e.p); }
  m.push_back({kChallenge, Fr::Zero(), P::Zero(), Fr::Zero()}); return m;
}
struct RefHash { size_t id; RefHash() : id(g_rec[g_run].open()) {}
  void by(uint8_t b) { rec_put(id, &b, 1); }
  void le(const BigInt<4>& b) { for (int i = 0; i < 32; ++i) by((uint8_t)(b[i / 8] >> (8 * (i % 8)))); }
  void be(const BigInt<4>& b) { for (int i = 31; i >= 0; --i) by((uint8_t)(b[i / 8] >> (8 * (i % 8)))); } };
struct RefBlake : RefHash {
  RefBlake() { rec_put(id, "Halo2-Transcript", 16); }
  void scalar(const Fr& s) { by(2); le(s.ToBigInt()); }
  void point(const P& p) { by(1); if (p.IsZero()) { le(BigInt<4>(0)); le(BigInt<4>(5)); } else { le(p.x().ToBigInt()); le(p.y().ToBigInt()); } }
  Fr challenge() { by(0); uint64_t l[8]; memcpy(l, rec_final(id), 64); return wide(l); }
};
struct RefSha : RefHash {
  void pre(int k) { for (int i = 0; i < 31; ++i) by(0); by(k); }
  void scalar(const Fr& s) { pre(2); be(s.ToBigInt()); }
  void point(const P& p) { pre(1); be(p.x().ToBigInt()); be(p.y().ToBigInt()); }
  Fr challenge() { by(0); uint64_t l[8] = {0}; const uint8_t* d = rec_final(id); memcpy(l, d, 32); id = g_rec[g_run].open(); rec_put(id, d, 32); return wide(l); }
};
static Fr b2s(const Fq& q) { BigInt<4> b = q.ToBigInt(); uint64_t l[8] = {b[0], b[1], b[2], b[3], 0, 0, 0, 0}; return zk::plonk::halo2::wide(l); }
template <size_t RATE, bool SV> struct RefPos {
  Fr st[9]; std::vector<Fr> in; RefPos() { for (auto& x : st) x = Fr::Zero(); st[0] = Fr(BigInt<4>({0, 1, 0, 0})); }
  void run() { permute(st, RATE + 1); }
  void scalar(const Fr& s) { in.push_back(s); if (!SV && in.size() == RATE) { for (size_t i = 0; i < RATE; ++i) st[i + 1] += in[i]; in.clear(); run(); } }
  void point(const P& p) { scalar(b2s(p.x())); scalar(b2s(p.y())); }
  // halo2: pads the rest with a one; snark-verifier: pads every chunk that has room, and an empty one when none had
  Fr challenge() {
    if (!SV) { in.push_back(Fr::One()); for (size_t i = 0; i < in.size(); ++i) st[i + 1] += in[i]; run(); }
    else { size_t i = 0; bool padded = false; while (i < in.size()) { size_t k = 0; for (; k < RATE && i < in.size(); ++k) st[k + 1] += in[i++]; if (k < RATE) { st[k + 1] += Fr::One(); padded = true; } run(); } if (!padded) { st[1] += Fr::One(); run(); } }
    in.clear(); const BigInt<4>& b = st[1].value(); uint64_t l[8] = {b[0], b[1], b[2], b[3], 0, 0, 0, 0}; return zk::plonk::halo2::wide(l);
  }
};
static void same_log(int a, int b, const char* m) {
  auto &x = g_rec[a].finals, &y = g_rec[b].finals; if (x.size() != y.size()) { sym_assert(false, m); return; }
  for (size_t k = 0; k < x.size(); ++k) { if (x[k].size() != y[k].size()) { sym_assert(false, m); return; } uint8_t diff = 0; for (size_t i = 0; i < x[k].size(); ++i) diff |= x[k][i] ^ y[k][i]; sym_assert(diff == 0, m); }
  auto &u = g_perm[a].in, &v = g_perm[b].in; if (u.size() != v.size()) { sym_assert(false, m); return; }
  for (size_t i = 0; i < u.size(); ++i) { if (u[i].size() != v[i].size()) { sym_assert(false, m); return; } for (size_t j = 0; j < u[i].size(); ++j) sym_assert(eq(u[i][j], v[i][j]), m); }
}
template <class W, class R, class REF, size_t PT> static void run(size_t n, size_t pre, bool legacy) {
  start(legacy); auto ms = messages(n, pre);
  g_run = 0; W w{base::Uint8VectorBuffer()};
  for (auto& m : ms) { bool ok = true; switch (m.kind) {
    case kScalar: ok = w.WriteToProof(m.s); break; case kPoint: case kZero: ok = w.WriteToProof(m.p); break;
    case kCommonScalar: ok = w.WriteToTranscript(m.s); break; case kCommonPoint: ok = w.WriteToTranscript(m.p); break;
    default: m.c = w.SqueezeChallenge(); } sym_assert(ok, "the writer accepts the message"); }
  g_run = 1; REF ref; for (auto& m : ms) { switch (m.kind) {
    case kScalar: case kCommonScalar: ref.scalar(m.s); break; case kPoint: case kZero: case kCommonPoint: ref.point(m.p); break;
    default: sym_assert(eq(ref.challenge(), m.c), "the challenge is the one of the transcript's definition"); } }
  same_log(0, 1, "the writer absorbs what the transcript's definition says");
  size_t len = w.buffer().buffer_offset(); std::vector<uint8_t> bytes(len); memcpy(bytes.data(), w.buffer().buffer(), len);
  size_t want = 0; for (auto& m : ms) want += m.kind == kScalar ? 32 : m.kind == kPoint || m.kind == kZero ? PT : 0;
  sym_assert(len == want, "the proof is as long as its elements");
  g_run = 2; R r{base::ReadOnlyBuffer(bytes.data(), len)};
  for (auto& m : ms) { bool ok = true; Fr s; P p; switch (m.kind) {
    case kScalar: ok = r.ReadFromProof(&s); sym_assert(eq(s, m.s), "the scalar read is the one written"); break;
    case kPoint: case kZero: ok = r.ReadFromProof(&p); sym_assert(eq(p, m.p), "the point read is the one written"); break;
    case kCommonScalar: ok = r.WriteToTranscript(m.s); break; case kCommonPoint: ok = r.WriteToTranscript(m.p); break;
    default: sym_assert(eq(r.SqueezeChallenge(), m.c), "the verifier's challenge is the prover's"); } sym_assert(ok, "the reader accepts the proof"); }
  same_log(0, 2, "the reader absorbs what the writer absorbed");
  sym_assert(r.buffer().Done(), "the proof is read to its end");
  Fr s; P p; sym_assert(!(sym_choose(2, "more") ? r.ReadFromProof(&s) : r.ReadFromProof(&p)), "reading past the end is refused");
  Fr c2 = r.SqueezeChallenge(); g_run = 0; sym_assert(eq(c2, w.SqueezeChallenge()), "a refused read changes no challenge");
  sym_reached("end");
}
#define RUN(W, R, REF, PT, nm, N, PRE) SYM_HARNESS(nm) { run<W<P>, R<P>, REF, PT>(N, sym_choose(PRE, "pre"), sym_choose(2, "legacy")); }
using RP = RefPos<8, false>; using RS = RefPos<4, true>;
RUN(Blake2bWriter, Blake2bReader, RefBlake, 32, blake2b, 2, 2)
RUN(Sha256Writer, Sha256Reader, RefSha, 64, sha256, 2, 2)
RUN(PoseidonWriter, PoseidonReader, RP, 32, poseidon, 2, 9)
RUN(SnarkVerifierPoseidonWriter, SnarkVerifierPoseidonReader, RS, 32, snark_verifier_poseidon, 2, 9)
// ---- a truncated proof is refused
template <class W, class R, size_t PT> static void cut() {
  start(sym_choose(2, "legacy")); bool pt = sym_choose(2, "point"); g_run = 0; W w{base::Uint8VectorBuffer()}; Fr s = mk<Fr>("s"); P p = point(1); g_pts.push_back(p);
  sym_assert(pt ? w.WriteToProof(p) : w.WriteToProof(s), "written"); size_t full = pt ? PT : 32; uint8_t b[64]; memcpy(b, w.buffer().buffer(), full); size_t n = sym_choose(full, "length");
  g_run = 2; R r{base::ReadOnlyBuffer(b, n)}; size_t before = g_rec[2].total; Fr s2; P p2;
  sym_assert(!(pt ? r.ReadFromProof(&p2) : r.ReadFromProof(&s2)), "a truncated element is refused"); sym_assert(g_rec[2].total == before, "a refused element is not absorbed"); sym_reached("end");
}
SYM_HARNESS(truncated) { cut<Blake2bWriter<P>, Blake2bReader<P>, 32>(); }
SYM_HARNESS(truncated_sha) { cut<Sha256Writer<P>, Sha256Reader<P>, 64>(); }
SYM_HARNESS(truncated_poseidon) { cut<PoseidonWriter<P>, PoseidonReader<P>, 32>(); }
SYM_HARNESS(truncated_snark_verifier) { cut<SnarkVerifierPoseidonWriter<P>, SnarkVerifierPoseidonReader<P>, 32>(); }
// ---- encodings: what is accepted is what the writer would have written
SYM_HARNESS(point_encoding) {
  start(sym_choose(2, "legacy")); g_mode = 1; g_has = sym_choose(2, "on_curve"); g_y = mk<Fq>("y"); sym_assume(!g_y.IsZero());
  uint8_t b[32]; sym_make(b, 32, "bytes"); base::ReadOnlyBuffer r(b, 32); P p; 
  if (Ser::ReadFromProof(r, &p)) {
    sym_assert(below(p.x().ToBigInt(), Fq::Config::kModulus), "an abscissa beyond the modulus is refused");
    base::Uint8VectorBuffer o; sym_assert(Ser::WriteToProof(p, o), "written again"); sym_assert(o.buffer_offset() == 32, "32 bytes");
    const uint8_t* q = (const uint8_t*)o.buffer(); uint8_t d = 0; for (int i = 0; i < 32; ++i) d |= q[i] ^ b[i]; sym_assert(d == 0, "a point has one encoding"); sym_reached("accepted"); }
  else sym_reached("refused");
}
SYM_HARNESS(point_encoding_sha) {
  start(true); g_mode = 1; g_has = sym_choose(2, "on_curve"); uint8_t b[64]; sym_make(b, 64, "bytes"); Sha256Reader<P> r{base::ReadOnlyBuffer(b, 64)}; P p; BigInt<4> x, y; memcpy((void*)&x, b, 32); memcpy((void*)&y, b + 32, 32);
  bool canon = below(x, Fq::Config::kModulus) & below(y, Fq::Config::kModulus), zero = ((x[0] | x[1] | x[2] | x[3] | y[0] | y[1] | y[2] | y[3]) == 0);
  bool ok = r.ReadFromProof(&p); sym_assert(ok == (canon & (zero | g_has)), "exactly the points of the curve in canonical coordinates are accepted");
  if (ok) { sym_assert(eq(p.x().value().limbs, x.limbs) & eq(p.y().value().limbs, y.limbs), "the point is the one encoded"); sym_reached("accepted"); }
}
SYM_HARNESS(scalar_encoding) {
  start(true);   uint8_t b[32]; sym_make(b, 32, "bytes"); base::ReadOnlyBuffer r(b, 32); Fr s; BigInt<4> v; memcpy((void*)&v, b, 32);
  bool ok = ProofSerializer<Fr>::ReadFromProof(r, &s);
  sym_assert(ok == below(v, Fr::Config::kModulus), "exactly the canonical scalars are accepted");
  if (ok) { sym_assert(eq(s.value().limbs, v.limbs), "the scalar is the integer encoded"); sym_reached("accepted"); }
}
// ---- saving and restoring the state (the Rust binding's interface)
template <class W> static void state_hash() {
  start(true); g_run = 0; W a{base::Uint8VectorBuffer()}, b{base::Uint8VectorBuffer()}; uint8_t m[5]; sym_make(m, 5, "message"); a.Update(m, 3); b.Update(m + 3, 2);
  auto v = a.GetState(); sym_assert(v.size() == a.GetStateLen(), "the state has the announced length"); b.SetState(v); Fr ca = a.SqueezeChallenge(), cb = b.SqueezeChallenge(); auto& f = g_rec[0].finals;
  sym_assert(f.size() == 2 && f[0].size() <= f[1].size(), "both finalize"); uint8_t d = 0; for (size_t i = 0; i < f[0].size(); ++i) d |= f[0][i] ^ f[1][i]; sym_assert(d == 0, "a restored transcript has absorbed what the saved one had");
  std::vector<uint8_t> w(a.GetStateLen()); sym_make(w.data(), w.size(), "state"); a.SetState(w); auto u = a.GetState(); sym_assert(u.size() == w.size(), "the state keeps its length"); uint8_t e = 0; for (size_t i = 0; i < w.size(); ++i) e |= u[i] ^ w[i]; sym_assert(e == 0, "the state restored is the state saved"); sym_reached("end");
}
SYM_HARNESS(state_blake2b) { state_hash<Blake2bWriter<P>>(); }
SYM_HARNESS(state_sha256) { state_hash<Sha256Writer<P>>(); }
template <class W> static void state_pos() {
  start(true); g_run = 0; W a{base::Uint8VectorBuffer()}, b{base::Uint8VectorBuffer()}; size_t n = sym_choose(10, "n"); bool sq = sym_choose(2, "squeezed");
  for (size_t i = 0; i < n; ++i) { Fr s = mk<Fr>("s"); a.Update(&s, 1); if (sq && i == n / 2) a.SqueezeChallenge(); }
  auto v = a.GetState(); sym_assert(v.size() == a.GetStateLen(), "the state has the announced length"); g_run = 3; Fr j = mk<Fr>("junk"); b.Update(&j, 1); b.SetState(v);
  g_run = 1; g_perm[1].in = g_perm[2].in = g_perm[0].in; Fr ca = a.SqueezeChallenge(); g_run = 2; Fr cb = b.SqueezeChallenge(); same_log(1, 2, "a restored transcript absorbs what the saved one absorbs"); sym_assert(eq(ca, cb), "a restored transcript gives the same challenge"); sym_reached("end");
}
SYM_HARNESS(state_poseidon) { state_pos<PoseidonWriter<P>>(); }
SYM_HARNESS(state_snark_verifier) { state_pos<SnarkVerifierPoseidonWriter<P>>(); }
