// Forced include for the clang build: make feature probes resolve the way the shipped (gcc) build resolves them,
// so that the carry-chain code that is encoded is the code that ships.
#pragma once
#include <immintrin.h>
#include "tachyon/base/compiler_specific.h"
#undef HAS_BUILTIN
#define HAS_BUILTIN(x) SYM_HB_##x
#define SYM_HB___builtin_addc 0
#define SYM_HB___builtin_subc 0
#define SYM_HB___builtin_addcl 0
#define SYM_HB___builtin_subcl 0
#define SYM_HB___builtin_bit_cast 1
#define SYM_HB___builtin_convertvector 0
