// Poseidon, Poseidon2 and the sponges and challengers built on them, over symbolic field states.
// Oracles: the textbook permutations (unoptimised constants), a literal duplex sponge over an uninterpreted permutation, a reference Grain LFSR.
#include "tachyon/base/buffer/vector_buffer.h"
#include "alg_fields.h"
#include <deque>
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/goldilocks/internal/goldilocks.h"
#include "tachyon/crypto/hashes/sponge/poseidon/poseidon.h"
#include "tachyon/crypto/hashes/sponge/poseidon/poseidon_params.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2_params.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bn254.h"
#include "tachyon/crypto/hashes/sponge/padding_free_sponge.h"
#include "tachyon/crypto/hashes/sponge/truncated_permutation.h"
#include "tachyon/crypto/challenger/duplex_challenger.h"
#include "tachyon/crypto/challenger/hash_challenger.h"
using namespace tachyon::math; using namespace tachyon::crypto; using namespace tachyon;
using F = bn254::Fr; using BB = BabyBear; using V = std::vector<F>;
static void init() { F::Init(); BB::Init(); }
SYM_INIT(init)
template <class T> T sv(const char* p, size_t i) { return symv<T>((p + std::to_string(i)).c_str()); }
template <class T> T pw(const T& b, size_t e) { T r = T::One(); while (e--) r = r * b; return r; }
#ifndef SPONGE
// --- linear layers -------------------------------------------------------------------------------
template <class T, size_t N> void sparse() {
  Vector<T> row(N), col(N - 1), v(N); for (size_t i = 0; i < N; ++i) { row[i] = sv<T>("r", i); v[i] = sv<T>("v", i); if (i) col[i - 1] = sv<T>("c", i); } SparseMDSMatrix<T> m(row, col); Vector<T> w = v; m.Apply(w); T e = T::Zero(); for (size_t i = 0; i < N; ++i) e = e + row[i] * v[i]; sym_assert(w[0] == e, "first entry is the row product");
  for (size_t i = 1; i < N; ++i) sym_assert(w[i] == v[i] + col[i - 1] * v[0], "other entries"); Matrix<T> full = m.Construct(); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) sym_assert(full(i, j) == (i == 0 ? row[j] : j == 0 ? col[i - 1] : i == j ? T::One() : T::Zero()), "Construct"); sym_assert(SparseMDSMatrix<T>::FromMDSMatrix(full) == m, "FromMDSMatrix inverts Construct");
  Vector<T> row2 = row; row2[N - 1] = row2[N - 1] + T::One(); SparseMDSMatrix<T> o(row2, col); Vector<T> col2 = col; col2[0] = col2[0] + T::One(); SparseMDSMatrix<T> o2(row, col2); sym_assert(o != m && o2 != m && m == m, "=="); sym_reached("end"); }
SYM_HARNESS(sparse_mds2) { sparse<F, 2>(); }
SYM_HARNESS(sparse_mds3) { sparse<F, 3>(); }
SYM_HARNESS(sparse_mds5) { sparse<BB, 5>(); }
template <class T> T m4(bool hz, size_t i, size_t j) { static const int h[4][4] = {{5, 7, 1, 3}, {4, 6, 1, 1}, {1, 3, 5, 7}, {1, 1, 4, 6}}, p[4][4] = {{2, 3, 1, 1}, {1, 2, 3, 1}, {1, 1, 2, 3}, {3, 1, 1, 2}}; return T(uint32_t(hz ? h[i][j] : p[i][j])); }
template <class T> T ext(bool hz, size_t w, size_t i, size_t j) { if (w < 4) return T(uint32_t(i == j ? 2 : 1)); if (w == 4) return m4<T>(hz, i, j); T x = m4<T>(hz, i % 4, j % 4); return i / 4 == j / 4 ? x + x : x; }
template <class T, size_t W, bool HZ> void extm() { using M = Poseidon2ExternalMatrix<std::conditional_t<HZ, Poseidon2HorizenExternalMatrix<T>, Poseidon2Plonky3ExternalMatrix<T>>>; Vector<T> v(W); std::vector<T> o; for (size_t i = 0; i < W; ++i) o.push_back(v[i] = sv<T>("v", i)); M::template Apply<W>(v); Matrix<T> c = M::template Construct<W>(W); for (size_t i = 0; i < W; ++i) { T e = T::Zero(); for (size_t j = 0; j < W; ++j) e = e + ext<T>(HZ, W, i, j) * o[j]; sym_assert(v[i] == e, "external layer is its matrix"); for (size_t j = 0; j < W; ++j) sym_assert(c(i, j) == ext<T>(HZ, W, i, j), "Construct"); } sym_reached("end"); }
#define EXT(W) SYM_HARNESS(external_##W) { if (sym_choose(2, "vendor")) extm<BB, W, true>(); else extm<BB, W, false>(); }
EXT(2) EXT(3) EXT(4) EXT(8) EXT(12) EXT(16) EXT(20) EXT(24)
SYM_HARNESS(internal_horizen) { size_t n = sym_choose(5, "n") + 1; Vector<F> v(n), d(n); std::vector<F> o; for (size_t i = 0; i < n; ++i) { o.push_back(v[i] = sv<F>("v", i)); d[i] = sv<F>("d", i); } Poseidon2HorizenInternalMatrix<F>::Apply(v, d); for (size_t i = 0; i < n; ++i) { F e = d[i] * o[i]; for (auto& x : o) e = e + x; sym_assert(v[i] == e, "internal layer is the all-one matrix plus the diagonal"); } sym_reached("end"); }
// --- Grain LFSR ------------------------------------------------------------------------------------
struct Grain { std::deque<int> s; Grain(unsigned nbits, unsigned t, unsigned rf, unsigned rp, bool inv) { auto put = [&](unsigned v, int w) { for (int i = w - 1; i >= 0; --i) s.push_back(v >> i & 1); }; put(1, 2); put(inv ? 1 : 0, 4); put(nbits, 12); put(t, 12); put(rf, 10); put(rp, 10); put((1u << 30) - 1, 30); for (int i = 0; i < 160; ++i) step(); }
  int step() { int b = s[62] ^ s[51] ^ s[38] ^ s[23] ^ s[13] ^ s[0]; s.pop_front(); s.push_back(b); return b; } int bit() { while (true) { int a = step(), b = step(); if (a) return b; } } mpz_class num(unsigned n) { mpz_class r = 0; for (unsigned i = 0; i < n; ++i) r = 2 * r + bit(); return r; } };
template <class T> mpz_class mod() { mpz_class m; if constexpr (T::Config::kModulusBits <= 32) m = T::Config::kModulus; else gmp::WriteLimbs(T::Config::kModulus.limbs, T::kLimbNums, &m); return m; }
template <class T> struct Ref { std::vector<std::vector<T>> ark; Matrix<T> mds; };
template <class T> T fromZ(const mpz_class& z) { if constexpr (T::kModulusBits <= 32) return T(uint32_t(z.get_ui())); else return T::FromMpzClass(z); }
template <class T> void lfsr(unsigned t, unsigned rf, unsigned rp, unsigned skip) {
  PoseidonGrainLFSRConfig c; c.prime_num_bits = T::kModulusBits; c.state_len = t; c.num_full_rounds = rf; c.num_partial_rounds = rp; c.is_sbox_an_inverse = sym_choose(2, "inv"); Matrix<T> ark, mds; FindPoseidonARKAndMDS<T>(c, skip, ark, mds); Grain g(T::kModulusBits, t, rf, rp, c.is_sbox_an_inverse); mpz_class p = mod<T>();
  for (unsigned i = 0; i < rf + rp; ++i) for (unsigned j = 0; j < t; ++j) { mpz_class z; do z = g.num(T::kModulusBits); while (z >= p); sym_assert(ark(i, j) == fromZ<T>(z), "round constants are the LFSR's rejection samples"); } for (unsigned i = 0; i < skip * 2 * t; ++i) g.num(T::kModulusBits); std::vector<T> xs, ys; for (unsigned i = 0; i < 2 * t; ++i) { mpz_class z = g.num(T::kModulusBits) % p; (i < t ? xs : ys).push_back(fromZ<T>(z)); }
  for (unsigned i = 0; i < t; ++i) for (unsigned j = 0; j < t; ++j) sym_assert((mds(i, j) * (xs[i] + ys[j])).IsOne(), "Cauchy matrix"); sym_reached("end"); }
SYM_HARNESS(grain_bn254) { lfsr<F>(3, 8, 57, 0); }
SYM_HARNESS(grain_bn254_skip) { lfsr<F>(2, 4, 3, 2); }
SYM_HARNESS(grain_bb) { lfsr<BB>(4, 8, 22, sym_choose(2, "skip")); }
// --- permutations ------------------------------------------------------------------------------------
template <class P> void poseidon() {
  using T = typename P::Field; constexpr size_t W = P::kWidth, R = P::kFullRounds, Q = P::kPartialRounds; symlimit(1); auto cfg = PoseidonConfig<P>::Create(0); sym_assert(cfg.IsValid(), "IsValid"); PoseidonGrainLFSRConfig c; c.prime_num_bits = T::kModulusBits; c.state_len = W; c.num_full_rounds = R; c.num_partial_rounds = Q; Matrix<T> ark, mds; FindPoseidonARKAndMDS<T>(c, 0, ark, mds);
  PoseidonSponge<P> sp(cfg); SpongeState<P> st; std::vector<T> s; for (size_t i = 0; i < W; ++i) s.push_back(st[i] = sv<T>("s", i)); sp.Permute(st);
  auto box = [](const T& x) { return x.template ConstPow<P::kAlpha>(); };
  for (size_t r = 0; r < R + Q; ++r) { for (size_t i = 0; i < W; ++i) s[i] = s[i] + ark(r, i); bool full = r < R / 2 || r >= R / 2 + Q; for (size_t i = 0; i < (full ? W : 1); ++i) s[i] = box(s[i]); std::vector<T> n(W, T::Zero()); for (size_t i = 0; i < W; ++i) for (size_t j = 0; j < W; ++j) n[i] = n[i] + mds(i, j) * s[j]; s = n; }
  for (size_t i = 0; i < W; ++i) sym_assert(st[i] == s[i], "the optimised permutation is the textbook one"); PoseidonSponge<P> sp2(cfg); sym_assert(sp == sp2, "=="); sp2.config.mds(0, 0) = sp2.config.mds(0, 0) + T::One(); sym_assert(sp != sp2, "another MDS matrix is another permutation"); sp2 = sp; sp2.config.ark(0, 0) = sp2.config.ark(0, 0) + T::One(); sym_assert(sp != sp2, "other constants are another permutation"); sym_reached("end"); }
SYM_HARNESS(poseidon_bn254_3) { poseidon<PoseidonParams<F, 2, 5, 8, 57>>(); }
SYM_HARNESS(poseidon_bn254_5) { poseidon<BN254PoseidonParams5>(); }
SYM_HARNESS(poseidon_bb) { poseidon<PoseidonParams<BB, 3, 7, 8, 22>>(); }
SYM_HARNESS(poseidon_small) { poseidon<PoseidonParams<F, 1, 3, 2, 1>>(); }
SYM_HARNESS(poseidon_short) { poseidon<PoseidonParams<F, 2, 5, 4, 2>>(); }
template <class P> void poseidon2(Poseidon2Sponge<P> sp, bool hz) {
  using T = typename P::Field; constexpr size_t W = P::kWidth, R = P::kFullRounds, Q = P::kPartialRounds; symlimit(1); SpongeState<P> st; std::vector<T> s; for (size_t i = 0; i < W; ++i) s.push_back(st[i] = sv<T>("s", i)); sp.Permute(st); auto& cfg = sp.config; auto d = cfg.internal_diagonal_minus_one;
  Grain g(T::kModulusBits, W, R, Q, false); mpz_class p = mod<T>(); auto samp = [&] { mpz_class z; do z = g.num(T::kModulusBits); while (z >= p); return fromZ<T>(z); }; auto box = [](const T& x) { return x.template ConstPow<P::kAlpha>(); };
  auto mixF = [&] { std::vector<T> n(W, T::Zero()); for (size_t i = 0; i < W; ++i) for (size_t j = 0; j < W; ++j) n[i] = n[i] + ext<T>(hz, W, i, j) * s[j]; s = n; };
  mixF(); for (size_t r = 0; r < R + Q; ++r) { bool full = r < R / 2 || r >= R / 2 + Q; if (full) { for (size_t i = 0; i < W; ++i) s[i] = box(s[i] + samp()); mixF(); } else { s[0] = box(s[0] + samp()); T sum = T::Zero(); for (auto& x : s) sum = sum + x; for (size_t i = 0; i < W; ++i) s[i] = s[i] * d[i] + sum; } }
  for (size_t i = 0; i < W; ++i) sym_assert(st[i] == s[i], "Poseidon2 is its definition"); Poseidon2Sponge<P> sp2(sp); sym_assert(sp == sp2 && !(sp != sp2), "=="); sp2.config.internal_diagonal_minus_one[0] = sp2.config.internal_diagonal_minus_one[0] + T::One(); sym_assert(sp != sp2, "another internal matrix is another permutation"); sym_reached("end"); }
using P2A = Poseidon2Params<Poseidon2Vendor::kHorizen, Poseidon2Vendor::kHorizen, F, 2, 5>;
SYM_HARNESS(poseidon2_bn254) { poseidon2<P2A>(Poseidon2Sponge<P2A>(), true); }
template <Poseidon2Vendor E> using P2B = Poseidon2Params<E, Poseidon2Vendor::kHorizen, BB, 15, 7>;
template <Poseidon2Vendor E> void p2bb() { using P = P2B<E>; std::array<BB, 16> d; for (size_t i = 0; i < 16; ++i) d[i] = BB(uint32_t(i * i + 3)); poseidon2<P>(Poseidon2Sponge<P>(Poseidon2Config<P>::Create(d)), E == Poseidon2Vendor::kHorizen); }
SYM_HARNESS(poseidon2_bb_horizen) { p2bb<Poseidon2Vendor::kHorizen>(); }
SYM_HARNESS(poseidon2_bb_plonky3) { p2bb<Poseidon2Vendor::kPlonky3>(); }
using P2S = Poseidon2Params<Poseidon2Vendor::kPlonky3, Poseidon2Vendor::kPlonky3, BB, 15, 7>;
template <class Cfg> void rtrip(const Cfg& c) { base::Uint8VectorBuffer b; sym_assert(b.Grow(base::EstimateSize(c)) && b.Write(c) && b.Done(), "a config fills its estimated size"); b.set_buffer_offset(0); Cfg d; sym_assert(b.Read(&d), "a config is readable"); sym_assert(b.Done() && d == c, "a config survives serialization"); }
SYM_HARNESS(config_copy) { std::array<uint8_t, 15> sh; for (size_t i = 0; i < 15; ++i) sh[i] = uint8_t(i); std::array<BB, 16> d; for (size_t i = 0; i < 16; ++i) d[i] = BB(uint32_t(i * i + 3)); auto a = Poseidon2Config<P2S>::Create(sh); rtrip(a); sh[3] = 9; sym_assert(Poseidon2Config<P2S>::Create(sh) != a && a == a, "shifts are compared"); rtrip(Poseidon2Config<P2B<Poseidon2Vendor::kHorizen>>::Create(d)); rtrip(PoseidonConfig<PoseidonParams<F, 2, 5, 4, 2>>::Create(0)); sym_reached("end"); }
#else
// --- sponges over an uninterpreted permutation ---------------------------------------------------------
template <size_t R, size_t C> struct Prm { using Field = F; static constexpr size_t kRate = R, kCapacity = C, kWidth = R + C; static constexpr uint32_t kAlpha = 5; };
static void perm(V& s) { V o; for (size_t i = 0; i < s.size(); ++i) o.push_back(symuf<F>(("perm" + std::to_string(i)).c_str(), s)); s = o; }
template <size_t R, size_t C> struct Toy;
namespace tachyon::crypto { template <size_t R, size_t C> struct CryptographicSpongeTraits<Toy<R, C>> { using Params = Prm<R, C>; using F = ::F; }; }
template <size_t R, size_t C> struct Toy : PoseidonSpongeBase<Toy<R, C>> { using Params = Prm<R, C>; using F = ::F; void Permute(SpongeState<Params>& st) const { V s; for (size_t i = 0; i < R + C; ++i) s.push_back(st[i]); perm(s); for (size_t i = 0; i < R + C; ++i) st[i] = s[i]; } };
template <size_t R, size_t C> struct Model { V s = V(R + C, F::Zero()); bool sq = false; size_t idx = 0;
  void absorb1(const F& x) { if (sq) { perm(s); sq = false; idx = 0; } else if (idx == R) { perm(s); idx = 0; } s[C + idx] = s[C + idx] + x; idx++; } F squeeze1() { if (!sq) { perm(s); sq = true; idx = 0; } else if (idx == R) { perm(s); idx = 0; } return s[C + idx++]; } };
template <size_t R, size_t C> void sponge(size_t ops) { // any sequence of absorptions and squeezes is the element by element duplex sponge
  Toy<R, C> t; SpongeState<Prm<R, C>> st; Model<R, C> m; size_t k = 0; for (size_t o = 0; o < ops; ++o) { size_t w = sym_choose(2, "op"), n = w ? sym_choose(2 * R + 2, "n") : 1 + sym_choose(2 * R + 2, "n"); if (w) { V x; for (size_t i = 0; i < n; ++i) x.push_back(sv<F>("x", k++)); bool ok = n & 1 ? t.Absorb(st, x) : t.Absorb(st, absl::MakeConstSpan(x)); sym_assert(ok, "absorb succeeds"); for (auto& e : x) m.absorb1(e); } else { V y = n & 1 ? t.SqueezeNativeFieldElements(st, n) : t.SqueezeFieldElements(st, n); sym_assert(y.size() == n, "squeezed size"); for (auto& e : y) sym_assert(e == m.squeeze1(), "squeezed elements are the sponge's stream"); } }
  for (size_t i = 0; i < R + C; ++i) sym_assert(st[i] == m.s[i], "state"); sym_reached("end"); }
SYM_HARNESS(sponge_1_1) { sponge<1, 1>(3); }
SYM_HARNESS(sponge_2_1) { sponge<2, 1>(3); }
SYM_HARNESS(sponge_3_2) { sponge<3, 2>(2); }
template <size_t R, size_t C, size_t O> void padfree() { Toy<R, C> t; PaddingFreeSponge<Toy<R, C>, R, O> h(t); size_t n = sym_choose(3 * R + 1, "n"); V x; for (size_t i = 0; i < n; ++i) x.push_back(sv<F>("x", i)); auto y = h.Hash(x); V s(R + C, F::Zero()); for (size_t i = 0; i < n; i += R) { for (size_t j = 0; j < R && i + j < n; ++j) s[j] = x[i + j]; perm(s); } for (size_t i = 0; i < O; ++i) sym_assert(y[i] == s[i], "padding-free sponge"); auto z = h.Hash(x); sym_assert(z == y, "hashing has no memory"); sym_reached("end"); }
SYM_HARNESS(padding_free_2) { padfree<2, 2, 2>(); }
SYM_HARNESS(padding_free_4) { padfree<4, 4, 3>(); }
template <size_t K, size_t N, size_t W> void trunc() { Toy<W - 1, 1> t; TruncatedPermutation<Toy<W - 1, 1>, K, N> c(t); std::vector<std::vector<F>> in(N); V s(W, F::Zero()); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < K; ++j) { in[i].push_back(sv<F>("x", i * K + j)); s[i * K + j] = in[i][j]; } auto y = c.Compress(in); perm(s); for (size_t i = 0; i < K; ++i) sym_assert(y[i] == s[i], "truncated permutation"); sym_reached("end"); }
SYM_HARNESS(truncated_2_2) { trunc<2, 2, 4>(); }
SYM_HARNESS(truncated_1_3) { trunc<1, 3, 5>(); }
// challengers: every history of observations and samples
template <size_t R, size_t W> void duplex() { using T = Toy<W - 1, 1>; DuplexChallenger<T, R> c{T()}; V s(W, F::Zero()); std::deque<F> in, out; size_t k = 0, ops = 5; auto dup = [&] { for (size_t i = 0; i < in.size(); ++i) s[i] = in[i]; in.clear(); perm(s); out.assign(s.begin(), s.end()); };
  for (size_t o = 0; o < ops; ++o) { size_t w = sym_choose(4, "op"); if (w == 0) { F x = sv<F>("x", k++); c.Observe(x); out.clear(); in.push_back(x); if (in.size() == R) dup(); } else if (w == 1) { V x; for (int i = 0; i < 3; ++i) x.push_back(sv<F>("x", k++)); c.ObserveContainer(x); for (auto& e : x) { out.clear(); in.push_back(e); if (in.size() == R) dup(); } } else if (w == 2) { if (!in.empty() || out.empty()) dup(); F e = out.back(); out.pop_back(); sym_assert(c.Sample() == e, "challenge"); } else { auto a = c.template SampleArray<2>(); for (auto& v : a) { if (!in.empty() || out.empty()) dup(); F e = out.back(); out.pop_back(); sym_assert(v == e, "challenge array"); } } } sym_reached("end"); }
SYM_HARNESS(duplex_2_3) { duplex<2, 3>(); }
SYM_HARNESS(duplex_4_4) { duplex<4, 4>(); }
struct UfHash { using F = ::F; template <class T> std::array<F, 2> Hash(const T& x) const { V a(std::begin(x), std::end(x)); std::array<F, 2> r; r[0] = symuf<F>(("h0_" + std::to_string(a.size())).c_str(), a); r[1] = symuf<F>(("h1_" + std::to_string(a.size())).c_str(), a); return r; } };
SYM_HARNESS(hash_challenger) { V in, out; size_t k = 0, n0 = sym_choose(3, "init"); for (size_t i = 0; i < n0; ++i) in.push_back(sv<F>("i", i)); HashChallenger<UfHash> c(in, UfHash()); for (int o = 0; o < 5; ++o) { if (sym_choose(2, "op")) { F x = sv<F>("x", k++); c.Observe(x); out.clear(); in.push_back(x); } else { if (out.empty()) { auto h = UfHash().Hash(in); out.assign(h.begin(), h.end()); in = out; } F e = out.back(); out.pop_back(); sym_assert(c.Sample() == e, "challenge is chained from everything observed"); } } sym_reached("end"); }
#endif
