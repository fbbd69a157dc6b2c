// ChaCha20's block function as an uninterpreted function: the k-th block of a run is block k for every run, and the
// harness claims that the inputs agree.
#pragma once
#include <stdint.h>
#include <string.h>
#include <array>
#include <vector>
inline std::vector<std::array<uint32_t, 16>> g_in[4]; inline int g_cc = 0; inline uint8_t g_block[6][64];
static inline void chacha_core(uint8_t out[64], const uint32_t in[16]) { std::array<uint32_t, 16> a; memcpy(a.data(), in, 64); size_t k = g_in[g_cc].size(); g_in[g_cc].push_back(a); memcpy(out, g_block[k < 6 ? k : 5], 64); }
