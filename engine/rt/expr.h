// Hash-consed bit-vector expression DAG.
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <functional>
#include <string>
#include <unordered_map>
#include <vector>
typedef uint32_t S;  // node handle; 0 = "concrete / no expression"
enum Op : uint8_t { O_NONE, O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_ITE,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE };
struct Node {
  Op op; uint32_t bits; S a, b, c; uint64_t imm;
  uint32_t epoch; uint64_t v; mpz_class* w;  // concrete value in the current run (w when bits > 64)
  uint32_t depthc;
};
extern std::vector<Node> N_;
extern uint32_t g_epoch;
inline Node& nd(S s) { return N_[s]; }
S mkConst(const mpz_class& v, uint32_t bits);
S mkConst64(uint64_t v, uint32_t bits);
S mkVar(const std::string& name, uint32_t bits);
S mk(Op op, uint32_t bits, S a, S b = 0, S c = 0, uint64_t imm = 0);
S mkExtract(S a, uint32_t lo, uint32_t bits);
S mkConcat(S hi, S lo);
S mkZext(S a, uint32_t bits);
S mkSext(S a, uint32_t bits);
S mkNot(S a);   // bitwise not
S mkIte(S c, S a, S b);
bool isConst(S s);
mpz_class constVal(S s);
mpz_class evalNode(S s);           // value in the current run (memoized per epoch)
uint64_t eval64(S s);
// evaluation under an arbitrary assignment (var index -> value)
struct Evaluator {
  const std::vector<mpz_class>* in; std::unordered_map<S, mpz_class> memo;
  mpz_class eval(S s);
};
extern std::vector<std::string> g_varNames; extern std::vector<uint32_t> g_varBits; extern std::vector<S> g_varNode;
extern std::vector<mpz_class> g_varVal;   // current run input
int varIndex(const std::string& name, uint32_t bits);
mpz_class fromBytes(const void* p, size_t n);
void toBytes(const mpz_class& v, void* p, size_t n);
std::string dump(S s, int depth = 4);
uint64_t countNodes(S s);
