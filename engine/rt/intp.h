// Integer (linear-arithmetic) abstraction of the bit-vector DAG: every node becomes an
// exact integer polynomial over atoms; wrap-around becomes explicit floor-division atoms.
#pragma once
#include "expr.h"
#include <map>
typedef std::vector<int> Mono;                 // sorted atom ids
typedef std::map<Mono, mpz_class> Poly;
struct IV { Poly p; mpz_class lo, hi; };
enum ConKind { C_GE0, C_EQ0, C_NE0 };
struct Con { bool guarded; Poly guard; Poly p; ConKind k; };
struct ZNode { int kind; S bv; int a, b; mpz_class v; };  // 0 const 1 bv 2 add 3 sub 4 mul
extern std::vector<ZNode> Z_;
mpz_class ziEval(int z);
mpz_class ziEvalWith(int z, Evaluator& ev);
struct IGoal { int kind; S bv; bool out; int a, b; mpz_class m; };  // kind 0: bv literal; 1: a<b; 2: a==b; 3: a≡b mod m ; (kind+10: negated)
enum Res { R_UNSAT, R_SAT, R_UNKNOWN };
// Is (facts ∧ ¬goal) unsatisfiable in the integer abstraction?
Res intProve(const std::vector<IGoal>& facts, const IGoal& goal, unsigned timeout_ms);
// Substitution of some inputs by constants (makes products linear, hence exact); model returned in `model`.
Res intSolveWith(const std::vector<IGoal>& facts, const IGoal& goal, const std::map<int, mpz_class>& subst, unsigned timeout_ms, std::vector<mpz_class>& model);
extern double g_intTime; extern uint64_t g_intQueries;
extern bool g_realOnly;  // sym_arith(2): decide integer queries by the rational relaxation only, and treat wide products by constants as opaque for bit-blasting
