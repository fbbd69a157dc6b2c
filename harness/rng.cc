// Random generators with a stable seed: ChaCha20 (a counter-mode stream over the block function) and xorshift128.
#include "sym.h"
#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/crypto/random/cha_cha20/cha_cha20_rng.h"
#include "tachyon/crypto/random/xor_shift/xor_shift_rng.h"
using namespace tachyon; using namespace tachyon::crypto;
static void start() { for (auto& g : g_in) g.clear(); g_cc = 0; for (auto& b : g_block) sym_make(b, 64, "block"); }
static uint32_t word(const uint8_t* b, size_t i) { return (uint32_t)b[4 * i] | (uint32_t)b[4 * i + 1] << 8 | (uint32_t)b[4 * i + 2] << 16 | (uint32_t)b[4 * i + 3] << 24; }
static void inputs(int run, const uint8_t* seed, size_t blocks) {
  sym_assert(g_in[run].size() == blocks, "a block is computed exactly when the last one is used up");
  static const uint32_t c[4] = {0x61707865, 0x3320646e, 0x79622d32, 0x6b206574};
  for (size_t k = 0; k < g_in[run].size(); ++k) { auto& a = g_in[run][k]; for (int i = 0; i < 4; ++i) sym_assert(a[i] == c[i], "the constants of the block"); for (int i = 0; i < 8; ++i) sym_assert(a[4 + i] == word(seed, i), "the key of the block is the seed"); sym_assert(a[12] == (uint32_t)k, "the counter of the block"); sym_assert(a[13] == 0 && a[14] == 0 && a[15] == 0, "the rest of the block's input"); }
}
SYM_HARNESS(chacha_stream) {
  start(); uint8_t s[32]; sym_make(s, 32, "seed"); ChaCha20RNG r; sym_assert(r.SetSeed(s), "a seed of 32 bytes is accepted");
  size_t n = 1 + sym_choose(50, "n"); for (size_t i = 0; i < n; ++i) { uint32_t v = r.NextUint32(); sym_assert(v == word(g_block[i / 16], i % 16), "the stream is the concatenation of the blocks"); }
  inputs(0, s, (n + 15) / 16); sym_reached("end");
}
SYM_HARNESS(chacha_words64) {
  start(); uint8_t s[32]; sym_make(s, 32, "seed"); ChaCha20RNG r; sym_assert(r.SetSeed(s), "a seed of 32 bytes is accepted"); if (sym_choose(2, "odd")) r.NextUint32(); else { r.NextUint32(); r.NextUint32(); }
  for (size_t i = 0; i < 20; ++i) { size_t at = r.index(); (void)at; }
  size_t k = g_in[0].size(), used = k == 0 ? 0 : r.index(); for (size_t i = 0; i < 20; ++i) { uint64_t v = r.NextUint64(); uint32_t lo = word(g_block[used / 16], used % 16); ++used; uint32_t hi = word(g_block[used / 16], used % 16); ++used; sym_assert(v == ((uint64_t)hi << 32 | lo), "64-bit words take the low half first"); }
  sym_reached("end");
}
// seeding starts the stream of that seed, whatever was drawn before
SYM_HARNESS(chacha_reseed) {
  start(); uint8_t s[32], t[32]; sym_make(s, 32, "seed"); sym_make(t, 32, "seed2"); ChaCha20RNG r; g_cc = 1; sym_assert(r.SetSeed(s), "seeded"); size_t n = sym_choose(20, "n"); for (size_t i = 0; i < n; ++i) r.NextUint32();
  g_cc = 0; sym_assert(r.SetSeed(t), "seeded again"); for (size_t i = 0; i < 20; ++i) sym_assert(r.NextUint32() == word(g_block[i / 16], i % 16), "a seeded generator starts its stream"); inputs(0, t, 2); sym_reached("end");
}
SYM_HARNESS(chacha_state) {
  start(); uint8_t s[32], t[32]; sym_make(s, 32, "seed"); sym_make(t, 32, "seed2"); ChaCha20RNG r, q; sym_assert(r.SetSeed(s) && q.SetSeed(t), "seeded"); size_t n = sym_choose(40, "n"); for (size_t i = 0; i < n; ++i) r.NextUint32();
  g_cc = 1; size_t m = sym_choose(3, "other"); for (size_t i = 0; i < m; ++i) q.NextUint32(); g_cc = 0;
  base::Uint8VectorBuffer b; sym_assert(b.Grow(ChaCha20RNG::kStateSize) && r.WriteToBuffer(b) && b.Done(), "the state has the announced size"); b.set_buffer_offset(0); sym_assert(q.ReadFromBuffer(b), "the state is read back");
  g_in[2] = g_in[0]; for (size_t i = 0; i < 20; ++i) { g_cc = 0; uint32_t u = r.NextUint32(); g_cc = 2; uint32_t v = q.NextUint32(); sym_assert(u == v, "a restored generator continues the stream"); }
  sym_assert(g_in[0].size() == g_in[2].size(), "as many blocks"); for (size_t k = 0; k < g_in[0].size(); ++k) for (int i = 0; i < 16; ++i) sym_assert(g_in[0][k][i] == g_in[2][k][i], "a restored generator computes the same blocks"); sym_reached("end");
}
// a state that no generator wrote never makes it read outside its block
SYM_HARNESS(chacha_foreign_state) {
  start(); uint8_t st[ChaCha20RNG::kStateSize]; sym_make(st, sizeof st, "state"); ChaCha20RNG r; base::ReadOnlyBuffer b(st, sizeof st);
  uint64_t at = 0; for (int i = 0; i < 8; ++i) at |= (uint64_t)st[i] << (8 * i);
  bool ok = r.ReadFromBuffer(b); sym_assert(ok == (at <= 16), "a state is accepted exactly if its position is within the block"); if (!ok) { sym_reached("refused"); return; }
  sym_assert(r.index() <= 16, "the position is within the block"); sym_reached("end");
}
SYM_HARNESS(short_state) {
  start(); auto save = [](const crypto::RNG& g, size_t n) { base::Uint8VectorBuffer b; sym_assert(b.Grow(n) && g.WriteToBuffer(b), "saved"); std::vector<uint8_t> v(n); memcpy(v.data(), b.buffer(), n); return v; };
  bool c = sym_choose(2, "chacha"); ChaCha20RNG r; XORShiftRNG x; r.NextUint32(); x.NextUint32(); crypto::RNG& g = c ? (crypto::RNG&)r : (crypto::RNG&)x; size_t full = c ? ChaCha20RNG::kStateSize : XORShiftRNG::kStateSize;
  auto a = save(g, full); uint8_t st[ChaCha20RNG::kStateSize]; sym_make(st, sizeof st, "state"); if (c) for (int i = 0; i < 8; ++i) st[i] = i == 0 ? 3 : 0; size_t n = sym_choose(full, "n"); base::ReadOnlyBuffer b(st, n);
  sym_assert(!g.ReadFromBuffer(b), "a truncated state is refused"); auto a2 = save(g, full); uint8_t d = 0; for (size_t i = 0; i < full; ++i) d |= a[i] ^ a2[i]; sym_assert(d == 0, "a refused state changes nothing"); sym_reached("end");
}
// the counter of the blocks has 64 bits
SYM_HARNESS(chacha_counter) {
  start(); uint8_t st[ChaCha20RNG::kStateSize] = {0}; sym_make(st + 8, 64, "input"); st[0] = 16; ChaCha20RNG r; base::ReadOnlyBuffer b(st, sizeof st); sym_assert(r.ReadFromBuffer(b), "the state is read");
  for (int i = 0; i < 33; ++i) r.NextUint32();
  if (g_in[0].size() != 3) { sym_assert(false, "three blocks"); return; }
  for (int k = 0; k < 3; ++k) { auto& a = g_in[0][k]; uint64_t c = ((uint64_t)word(st + 8, 13) << 32 | word(st + 8, 12)) + k; sym_assert(a[12] == (uint32_t)c && a[13] == (uint32_t)(c >> 32), "the counter goes up by one with carry"); for (int i = 0; i < 16; ++i) if (i != 12 && i != 13) sym_assert(a[i] == word(st + 8, i), "nothing but the counter changes"); } sym_reached("end");
}
SYM_HARNESS(seed_sizes) {
  start(); ChaCha20RNG r; XORShiftRNG x; uint8_t s[40]; sym_make(s, 40, "seed"); sym_assert(r.SetSeed(absl::Span<const uint8_t>(s, 32)) && x.SetSeed(absl::Span<const uint8_t>(s, 16)), "seeded"); r.NextUint32(); x.NextUint32();
  auto save = [](const crypto::RNG& g, size_t n) { base::Uint8VectorBuffer b; sym_assert(b.Grow(n) && g.WriteToBuffer(b), "saved"); std::vector<uint8_t> v(n); memcpy(v.data(), b.buffer(), n); return v; };
  auto a = save(r, ChaCha20RNG::kStateSize), c = save(x, XORShiftRNG::kStateSize); uint8_t t[40]; sym_make(t, 40, "other"); size_t n = sym_choose(41, "n");
  sym_assert(r.SetSeed(absl::Span<const uint8_t>(t, n)) == (n == 32), "exactly 32 bytes seed ChaCha20"); sym_assert(x.SetSeed(absl::Span<const uint8_t>(t, n)) == (n == 16), "exactly 16 bytes seed xorshift");
  if (n != 32) { auto a2 = save(r, ChaCha20RNG::kStateSize); uint8_t d = 0; for (size_t i = 0; i < a.size(); ++i) d |= a[i] ^ a2[i]; sym_assert(d == 0, "a refused seed changes nothing"); }
  if (n != 16) { auto c2 = save(x, XORShiftRNG::kStateSize); uint8_t d = 0; for (size_t i = 0; i < c.size(); ++i) d |= c[i] ^ c2[i]; sym_assert(d == 0, "a refused seed changes nothing"); }
  sym_reached("end"); }
struct XS { uint32_t x, y, z, w; uint32_t next() { uint32_t t = x ^ (x << 11); x = y; y = z; z = w; w = w ^ (w >> 19) ^ t ^ (t >> 8); return w; } };
SYM_HARNESS(xorshift_stream) {
  uint8_t s[16]; sym_make(s, 16, "seed"); XS ref{word(s, 0), word(s, 1), word(s, 2), word(s, 3)}; sym_assume((ref.x | ref.y | ref.z | ref.w) != 0); XORShiftRNG r; if (sym_choose(2, "drawn")) r.NextUint32(); sym_assert(r.SetSeed(s), "seeded");
  for (int i = 0; i < 12; ++i) sym_assert(r.NextUint32() == ref.next(), "the stream is xorshift128"); uint32_t lo = ref.next(), hi = ref.next(); sym_assert(r.NextUint64() == ((uint64_t)hi << 32 | lo), "64-bit words take the low half first");
  base::Uint8VectorBuffer b; XORShiftRNG q; sym_assert(b.Grow(XORShiftRNG::kStateSize) && r.WriteToBuffer(b) && b.Done(), "the state has the announced size"); b.set_buffer_offset(0); sym_assert(q.ReadFromBuffer(b), "the state is read back");
  for (int i = 0; i < 5; ++i) sym_assert(q.NextUint32() == ref.next(), "a restored generator continues the stream"); sym_reached("end");
}
// no seed makes the generator constant: the state never becomes zero
SYM_HARNESS(xorshift_never_stuck) {
  uint8_t s[16]; sym_make(s, 16, "seed"); XORShiftRNG r; sym_assert(r.SetSeed(s), "seeded"); uint32_t o = 0; for (int i = 0; i < 4; ++i) o |= r.NextUint32(); sym_assert(o != 0, "four words in a row are not all zero"); sym_reached("end");
}
