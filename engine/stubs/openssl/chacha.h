// Stand-in for the patched BoringSSL: ChaCha20's block function, uninterpreted when recorded.
#pragma once
#include <stdint.h>
#include <string.h>
#ifdef SYM_HASH_RECORD
#include "chacha_record.h"
#else
static inline uint32_t cc_rot(uint32_t v, int c) { return v << c | v >> (32 - c); }
static inline void cc_qr(uint32_t* x, int a, int b, int c, int d) { x[a] += x[b]; x[d] = cc_rot(x[d] ^ x[a], 16); x[c] += x[d]; x[b] = cc_rot(x[b] ^ x[c], 12); x[a] += x[b]; x[d] = cc_rot(x[d] ^ x[a], 8); x[c] += x[d]; x[b] = cc_rot(x[b] ^ x[c], 7); }
static inline void chacha_core(uint8_t out[64], const uint32_t in[16]) {
  uint32_t x[16]; memcpy(x, in, 64);
  for (int i = 0; i < 10; ++i) { cc_qr(x, 0, 4, 8, 12); cc_qr(x, 1, 5, 9, 13); cc_qr(x, 2, 6, 10, 14); cc_qr(x, 3, 7, 11, 15); cc_qr(x, 0, 5, 10, 15); cc_qr(x, 1, 6, 11, 12); cc_qr(x, 2, 7, 8, 13); cc_qr(x, 3, 4, 9, 14); }
  for (int i = 0; i < 16; ++i) x[i] += in[i];
  memcpy(out, x, 64);
}
#endif
