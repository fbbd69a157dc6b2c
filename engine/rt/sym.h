// Harness API. The same harness source is compiled (a) by clang with the symbolic pass and linked with the
// symbolic runtime, (b) by g++ exactly as the project is built and linked with replay.cpp (concrete replay).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
extern "C" {
void sym_make(void* p, size_t n, const char* name);      // n fresh symbolic bytes (one variable)
uint64_t sym_choose(uint64_t n, const char* name);       // 0..n-1, enumerated by the engine (forks)
void sym_assume(bool c);
void sym_assert(bool c, const char* msg);
void sym_reached(const char* msg);                       // vacuity witness: some path must get here
uint64_t sym_concretize(uint64_t v);
void sym_arith(int on);                                  // 1: prefer the integer (LIA) encoding for branch queries
void sym_note_skip(const char* why);
int zi_limbs(const void* p, size_t nbytes);
int zi_dec(const char* dec);
int zi_add(int a, int b);
int zi_sub(int a, int b);
int zi_mul(int a, int b);
void zi_assume_lt(int a, int b);
void zi_assert_lt(int a, int b, const char* msg);
void zi_assert_eq(int a, int b, const char* msg);
void zi_assert_cong(int a, int b, const char* m_dec, const char* msg);
void sym_register(const char* name, void (*fn)());
bool sym_replaying();
}
template <class T> inline T sym_value(const char* name) { T t; sym_make(&t, sizeof(T), name); return t; }
struct ZI { int i; ZI(int i) : i(i) {} };
inline ZI Zn(const char* s) { return zi_dec(s); }
inline ZI operator+(ZI a, ZI b) { return zi_add(a.i, b.i); }
inline ZI operator-(ZI a, ZI b) { return zi_sub(a.i, b.i); }
inline ZI operator*(ZI a, ZI b) { return zi_mul(a.i, b.i); }
#define SYM_CAT2(a, b) a##b
#define SYM_CAT(a, b) SYM_CAT2(a, b)
#define SYM_HARNESS(name) static void name(); namespace { struct SYM_CAT(Reg_, name) { SYM_CAT(Reg_, name)() { sym_register(#name, name); } } SYM_CAT(reg_, name); } static void name()
