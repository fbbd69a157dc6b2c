// Engine A: exact arithmetic in the field of rational functions over Z_p, with path conditions.
// A value is  c * prod P_i^e_i  (c in Z_p*, P_i interned primitive polynomials over the symbolic inputs, e_i in Z).
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
namespace alg {
struct Ctx;
using Id = uint64_t;  // index of an interned value; 0 is zero in every field
Ctx* make_ctx(const char* name, const uint64_t* modulus, size_t n);
Id konst(Ctx*, const uint64_t* canonical, size_t n);
Id from_mont(Ctx*, const uint64_t* v, size_t n, unsigned rbits);
Id var(Ctx*, const char* name);
Id rnd(Ctx*);                       // pseudo-random constant (seeded)
Id uf(Ctx*, const char* f, const Id* a, size_t n);  // uninterpreted function application (hash stand-in)
Id add(Ctx*, Id, Id); Id neg(Ctx*, Id); Id mul(Ctx*, Id, Id); Id inv(Ctx*, Id);
bool is_zero(Ctx*, Id);             // may fork the path
bool eq(Ctx*, Id, Id);              // may fork the path
bool less(Ctx*, Id, Id);            // total order of the constants; of symbolic values: a consistent one, forks
bool is_const(Id);
void to_limbs(Ctx*, Id, uint64_t* out, size_t n);  // symbolic values are concretized (reported)
std::string str(Ctx*, Id);
void set_limit(size_t terms);       // expansion limit before a product becomes an opaque atom
}
namespace symz { int var(const char* name, size_t bytes); int dec(const char*); int add(int, int); int mul(int, int); int neg(int); int tdiv(int, int); bool branch(int op, int a, int b); void assume(int op, int a, int b); void claim(int op, int a, int b, const char* msg); void claim_cong(int a, int b, const char* m, const char* msg); }  // op: 0 ==, 1 <, 2 <=
