// Recording stand-in for BoringSSL's BLAKE2b-512 and SHA-256: an uninterpreted hash. A run (writer, reader, reference)
// records everything it absorbs; the k-th digest of every run is the same block of symbolic bytes, and the harness
// claims that the runs absorbed the same bytes up to it, which makes that sharing exact for a deterministic hash.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <vector>
// A stream is what one context absorbed since it was set up; its number is kept in the context, so copies share it.
struct HashRec { std::vector<std::vector<uint8_t>> streams, finals; size_t total = 0; size_t open() { streams.emplace_back(); return streams.size() - 1; } };
inline HashRec g_rec[8]; inline int g_run = 0; inline uint8_t g_digest[12][64];
inline void rec_put(uint64_t id, const void* d, size_t n) { auto& r = g_rec[g_run]; auto& s = r.streams[id]; for (size_t i = 0; i < n; ++i) s.push_back(((const uint8_t*)d)[i]); r.total += n; }
inline const uint8_t* rec_final(uint64_t id) { auto& r = g_rec[g_run]; r.finals.push_back(r.streams[id]); return g_digest[r.finals.size() - 1]; }
#define BLAKE2B512_DIGEST_LENGTH 64
#define BLAKE2B256_DIGEST_LENGTH 32
#define BLAKE2B_CBLOCK 128
struct blake2b_state_st { uint64_t h[8]; uint64_t t_low, t_high; uint8_t block[BLAKE2B_CBLOCK]; size_t block_used; };
typedef blake2b_state_st BLAKE2B_CTX;
inline void BLAKE2B512_InitWithPersonal(BLAKE2B_CTX* c, const char* p) { memset(c, 0, sizeof(*c)); c->t_low = g_rec[g_run].open(); rec_put(c->t_low, p, 16); }
inline void BLAKE2B512_Update(BLAKE2B_CTX* c, const void* d, size_t n) { rec_put(c->t_low, d, n); }
inline void BLAKE2B512_Final(uint8_t out[64], BLAKE2B_CTX* c) { memcpy(out, rec_final(c->t_low), 64); }
#define SHA256_DIGEST_LENGTH 32
#define SHA256_CBLOCK 64
struct sha256_state_st { uint32_t h[8]; uint32_t Nl, Nh; uint8_t data[SHA256_CBLOCK]; unsigned num, md_len; };
typedef sha256_state_st SHA256_CTX;
inline int SHA256_Init(SHA256_CTX* c) { memset(c, 0, sizeof(*c)); c->Nl = (uint32_t)g_rec[g_run].open(); return 1; }
inline int SHA256_Update(SHA256_CTX* c, const void* d, size_t n) { rec_put(c->Nl, d, n); return 1; }
inline int SHA256_Final(uint8_t* out, SHA256_CTX* c) { memcpy(out, rec_final(c->Nl), 32); return 1; }
