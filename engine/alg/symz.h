// SymZ: an integer of unbounded size, symbolic under SYM_ALG (linear integer arithmetic), mpz_class otherwise.
#pragma once
#include "sym.h"
#include "third_party/gmp/include/gmpxx.h"
#ifdef SYM_ALG
#include "alg.h"
#endif
struct SymZ {
  mpz_class v = 0; int s = -1;  // s >= 0: symbolic
  SymZ() = default; SymZ(int x) : v(x) {} SymZ(const mpz_class& x) : v(x) {}
  template <class A, class B> SymZ(const __gmp_expr<A, B>& x) : v(x) {}
#ifdef SYM_ALG
  int e() const { return s >= 0 ? s : symz::dec(v.get_str().c_str()); } static SymZ S(int i) { SymZ r; r.s = i; return r; }
#define SYMZ_B(op, f) if (a.s >= 0 || b.s >= 0) return S(f);
#define SYMZ_C(op, c) if (a.s >= 0 || b.s >= 0) return symz::branch(c, a.e(), b.e());
#else
#define SYMZ_B(op, f)
#define SYMZ_C(op, c)
#endif
  friend SymZ operator+(const SymZ& a, const SymZ& b) { SYMZ_B(+, symz::add(a.e(), b.e())) return mpz_class(a.v + b.v); }
  friend SymZ operator-(const SymZ& a, const SymZ& b) { SYMZ_B(-, symz::add(a.e(), symz::neg(b.e()))) return mpz_class(a.v - b.v); }
  friend SymZ operator*(const SymZ& a, const SymZ& b) { SYMZ_B(*, symz::mul(a.e(), b.e())) return mpz_class(a.v * b.v); }
  friend SymZ operator/(const SymZ& a, const SymZ& b) { SYMZ_B(/, b.s < 0 && sgn(b.v) < 0 ? symz::neg(symz::tdiv(a.e(), SymZ(mpz_class(-b.v)).e())) : symz::tdiv(a.e(), b.e())) return mpz_class(a.v / b.v); }
  SymZ operator-() const { const SymZ &a = *this, &b = a; SYMZ_B(-, symz::neg(e())) return mpz_class(-v); }
  SymZ& operator+=(const SymZ& o) { return *this = *this + o; } SymZ& operator-=(const SymZ& o) { return *this = *this - o; } SymZ& operator*=(const SymZ& o) { return *this = *this * o; } SymZ& operator/=(const SymZ& o) { return *this = *this / o; }
  friend bool operator==(const SymZ& a, const SymZ& b) { SYMZ_C(==, 0) return a.v == b.v; } friend bool operator!=(const SymZ& a, const SymZ& b) { return !(a == b); }
  friend bool operator<(const SymZ& a, const SymZ& b) { SYMZ_C(<, 1) return a.v < b.v; } friend bool operator>(const SymZ& a, const SymZ& b) { return b < a; }
  friend bool operator<=(const SymZ& a, const SymZ& b) { SYMZ_C(<=, 2) return a.v <= b.v; } friend bool operator>=(const SymZ& a, const SymZ& b) { return b <= a; }
};
inline SymZ symz_var(const char* name, size_t bytes) {
#ifdef SYM_ALG
  return SymZ::S(symz::var(name, bytes));
#else
  std::string b(bytes, 0); sym_make(b.data(), bytes, name); mpz_class r; mpz_import(r.get_mpz_t(), bytes, -1, 1, 0, 0, b.data()); return r;
#endif
}
inline void symz_assume_lt(const SymZ& a, const SymZ& b) {
#ifdef SYM_ALG
  symz::assume(1, a.e(), b.e());
#else
  sym_assume(a < b);
#endif
}
inline void symz_lt(const SymZ& a, const SymZ& b, const char* m) {
#ifdef SYM_ALG
  symz::claim(1, a.e(), b.e(), m);
#else
  sym_assert(a.v < b.v, m);
#endif
}
inline void symz_cong(const SymZ& a, const SymZ& b, const mpz_class& n, const char* m) {
#ifdef SYM_ALG
  symz::claim_cong(a.e(), b.e(), n.get_str().c_str(), m);
#else
  mpz_class d = a.v - b.v; sym_assert(mpz_divisible_p(d.get_mpz_t(), n.get_mpz_t()), m);
#endif
}
