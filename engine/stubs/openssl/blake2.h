// Stand-in for BoringSSL (not installed): a simple mixing function with the interface of BLAKE2b-512; not collision resistant.
#pragma once
#ifdef SYM_HASH_RECORD
#include "hash_record.h"
#else
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#define BLAKE2B512_DIGEST_LENGTH 64
#define BLAKE2B256_DIGEST_LENGTH 32
#define BLAKE2B_CBLOCK 128
typedef struct blake2b_state_st { uint64_t h[8]; uint64_t t_low, t_high; uint8_t block[BLAKE2B_CBLOCK]; size_t block_used; } BLAKE2B_CTX;
static inline void BLAKE2B512_Init(BLAKE2B_CTX* c) { memset(c, 0, sizeof(*c)); for (int i = 0; i < 8; ++i) c->h[i] = 0x9e3779b97f4a7c15ull * (i + 1); }
static inline void BLAKE2B512_InitWithPersonal(BLAKE2B_CTX* c, const char* p) { BLAKE2B512_Init(c); for (int i = 0; i < 16; ++i) c->h[i & 7] = (c->h[i & 7] ^ (uint8_t)p[i]) * 0x100000001b3ull; }
static inline void BLAKE2B512_Update(BLAKE2B_CTX* c, const void* d, size_t n) { const uint8_t* p = (const uint8_t*)d; for (size_t i = 0; i < n; ++i) { uint64_t* h = &c->h[c->t_low++ & 7]; *h = (*h ^ p[i]) * 0x100000001b3ull + (*h >> 29); } }
static inline void BLAKE2B512_Final(uint8_t out[64], BLAKE2B_CTX* c) { for (int r = 0; r < 4; ++r) for (int i = 0; i < 8; ++i) c->h[i] = (c->h[i] ^ c->h[(i + 1) & 7] ^ c->t_low) * 0x9e3779b97f4a7c15ull + (c->h[(i + 5) & 7] >> 31); memcpy(out, c->h, 64); }
#endif
