// R1CS: linear combinations, constraint systems (inlined and outlined), the reduction to quadratic arithmetic programs, and Groth16 over the toy pairing group; every assignment, coefficient and secret symbolic.
#include "toy_pairing.h"
#include "tachyon/math/elliptic_curves/msm/fixed_base_msm.h"
namespace tachyon::math { // multiples of the base (E2 decides the real one)
template <class C> struct ToyFixed { F b; void Reset(size_t, const AffinePoint<C>& p) { b = p.v; } template <class S, class O> bool Run(const S& s, O* o) { if (std::size(s) != std::size(*o)) return false; for (size_t i = 0; i < std::size(s); ++i) (*o)[i].v = b * s[i]; return true; } };
template <> class FixedBaseMSM<AffinePoint<toy::G1>> : public ToyFixed<toy::G1> {}; template <> class FixedBaseMSM<AffinePoint<toy::G2>> : public ToyFixed<toy::G2> {};
}
#include "tachyon/zk/r1cs/constraint_system/quadratic_arithmetic_program.h"
#include "tachyon/zk/r1cs/constraint_system/variable.cc"
#include "tachyon/zk/r1cs/groth16/prove.h"
#include "tachyon/zk/r1cs/groth16/verify.h"
using namespace tachyon::zk::r1cs;
using LC = LinearCombination<F>; using T = Term<F>; using CS = ConstraintSystem<F>;
static void init() { F::Init(); }
SYM_INIT(init)
// ---- linear combinations: a coefficient for every variable
static const std::vector<Variable> kVars{Variable::One(), Variable::Instance(1), Variable::Instance(2), Variable::Witness(0), Variable::Witness(1), Variable::Witness(3), Variable::SymbolicLinearCombination(0), Variable::SymbolicLinearCombination(2), Variable::Witness(2)};
static F co(const LC& l, const Variable& v) { F r = F::Zero(); for (auto& t : l.terms()) if (t.variable == v) r += t.coefficient; return r; }
static void sorted(const LC& l, const char* m) { for (size_t i = 1; i < l.terms().size(); ++i) sym_assert(l.terms()[i - 1].variable < l.terms()[i].variable, m); sym_assert(l.IsSorted(), m); }
static LC some(size_t vars, const char* n) { std::vector<T> t; for (size_t i = 0; i < vars; ++i) if (sym_choose(2, "has")) t.push_back({sv(n), kVars[i]}); return LC(std::move(t)); }
static void same(const LC& l, const std::function<F(const Variable&)>& f, const char* m) { for (auto& v : kVars) sym_assert(co(l, v) == f(v), m); sorted(l, m); }
SYM_HARNESS(lc_sum) { LC a = some(4, "a"), b = some(4, "b"); F s = sv("s"); same(a + b, [&](auto& v) { return co(a, v) + co(b, v); }, "sum"); same(a - b, [&](auto& v) { return co(a, v) - co(b, v); }, "difference"); LC c = a; c += b; same(c, [&](auto& v) { return co(a, v) + co(b, v); }, "sum in place"); c = a; c -= b; same(c, [&](auto& v) { return co(a, v) - co(b, v); }, "difference in place"); same(a * s, [&](auto& v) { return co(a, v) * s; }, "multiple"); same(-a, [&](auto& v) { return -co(a, v); }, "negative"); c = a; c.NegateInPlace(); same(c, [&](auto& v) { return -co(a, v); }, "negative in place"); sym_reached("done"); }
static void term(size_t size) { std::vector<size_t> vars{0, 1, 2, 3, 4, 8, 5, 6, 7}; size_t skip = sym_choose(size + 1, "skip"); std::vector<T> t; for (size_t i = 0; i <= size; ++i) if (i != skip) t.push_back({sv("a"), kVars[vars[i]]}); LC a(std::move(t)); T x(sv("x"), kVars[vars[sym_choose(size + 1, "variable")]]); auto f = [&](auto& v) { return co(a, v) + (v == x.variable ? x.coefficient : F::Zero()); }; same(a + x, f, "a term added"); LC c = a; c += x; same(c, f, "a term added in place"); same(a - x, [&](auto& v) { return co(a, v) - (v == x.variable ? x.coefficient : F::Zero()); }, "a term subtracted"); same(a + x.variable, [&](auto& v) { return co(a, v) + (v == x.variable ? F::One() : F::Zero()); }, "a variable added"); sym_reached("done"); }
SYM_HARNESS(lc_term) { term(sym_choose(9, "size")); }
SYM_HARNESS(lc_deduplicate) { std::vector<T> t; size_t n = sym_choose(6, "n"); for (size_t i = 0; i < n; ++i) t.push_back({sv("a"), kVars[sym_choose(3, "variable") * 3]}); LC a(t), b = LC::CreateDeduplicated(t); same(b, [&](auto& v) { return co(a, v); }, "the coefficients of a variable are added"); sym_reached("done"); }
SYM_HARNESS(variables) { std::vector<Variable> all = kVars; all.push_back(Variable::Zero()); const Variable &a = all[sym_choose(all.size(), "a")], &b = all[sym_choose(all.size(), "b")]; auto rank = [](const Variable& v) { return std::make_pair(int(v.type()), v.index()); }; sym_assert((a < b) == (rank(a) < rank(b)) && (a <= b) == (rank(a) <= rank(b)) && (a > b) == (rank(a) > rank(b)) && (a >= b) == (rank(a) >= rank(b)) && (a == b) == (rank(a) == rank(b)) && (a != b) == (rank(a) != rank(b)), "ordered by kind and index"); auto i = a.GetIndex(5); bool has = a.IsOne() || a.IsInstance() || a.IsWitness(); sym_assert(i.has_value() == has && (!has || *i == (a.IsOne() ? 0 : a.IsInstance() ? a.index() : 5 + a.index())), "column"); sym_reached("done"); }
// ---- circuits
struct Wit { F x, y, u, v; V k; };  // instances x, y; witnesses u, v
struct Ref { V a, b, c; };          // what each constraint's three sides evaluate to
enum { kPlain, kNested, kWide, kKinds };
// the constraints, and what they say
static Ref build(CS& cs, int kind, const Wit& w) {
  Variable x = cs.CreateInstanceVariable([&] { return w.x; }), u = cs.CreateWitnessVariable([&] { return w.u; }), y = cs.CreateInstanceVariable([&] { return w.y; }), v = cs.CreateWitnessVariable([&] { return w.v; }), one = cs.CreateOne(), zero = cs.CreateZero(); const V& k = w.k; Ref r; auto add = [&](const LC& a, const LC& b, const LC& c, F p, F q, F s) { cs.EnforceConstraint(a, b, c); r.a.push_back(p); r.b.push_back(q); r.c.push_back(s); };
  if (kind == kPlain) { add(LC() + u, LC() + v, LC() + x, w.u, w.v, w.x); add(LC() + T(k[0], u) + T(k[1], one), LC() + v + zero, LC() + y, k[0] * w.u + k[1], w.v, w.y); }
  if (kind == kNested) { Variable l0 = cs.CreateLinearCombination(LC() + u + T(k[0], v)); F f0 = w.u + k[0] * w.v; Variable l1 = cs.CreateLinearCombination(LC() + T(k[1], l0) + l0 + one); F f1 = k[1] * f0 + f0 + F::One(); Variable l2 = cs.CreateLinearCombination(LC() + l0 + x); F f2 = f0 + w.x; add(LC() + l1, LC() + u, LC() + T(k[2], l2) + y, f1, w.u, k[2] * f2 + w.y); add(LC() + l2 + T(-F::One(), l0), LC() + one, LC() + l0, w.x, F::One(), f0); }
  if (kind == kWide) { Variable l = cs.CreateLinearCombination(LC() + u + T(k[0], v) + T(k[1], one) + T(k[2], x) + y); F f = w.u + k[0] * w.v + k[1] + k[2] * w.x + w.y; add(LC() + l, LC() + l, LC() + T(k[0], l) + u, f, f, k[0] * f + w.u); Variable m = cs.CreateLinearCombination(LC() + l + T(k[1], l) + v + u); F g = f + k[1] * f + w.v + w.u; add(LC() + m, LC() + u, LC() + l, g, w.u, f); add(LC() + m, LC() + m, LC() + m, g, g, g); add(LC() + l, LC() + v, LC() + m, f, w.v, g); }
  return r;
}
static Wit wit() { return {sv("x"), sv("y"), sv("u"), sv("v"), svv(3, "k")}; }
static F dot(const std::vector<Cell<F>>& row, const V& z) { F r = F::Zero(); for (auto& c : row) r += c.coefficient * z.at(c.index); return r; }
static V full(const CS& cs) { V z = cs.instance_assignments(); for (auto& w : cs.witness_assignments()) z.push_back(w); return z; }
static void system(bool weight, int kind) {
  Wit w = wit(); if (kind == kWide) w.k = {F(3), F(5), F(7)}; if (sym_choose(2, "a zero coefficient")) w.k[0] = F::Zero(); CS cs; cs.set_optimization_goal(weight ? OptimizationGoal::kWeight : OptimizationGoal::kConstraints); Ref r = build(cs, kind, w); size_t n = r.a.size(); bool sat = true; for (size_t i = 0; i < n; ++i) sat = sat && r.a[i] * r.b[i] == r.c[i];
  sym_assert(cs.num_constraints() == n && cs.num_instance_variables() == 3 && cs.num_witness_variables() == 2, "counted"); sym_assert(cs.IsSatisfied() == sat, "satisfied exactly if every constraint is"); cs.Finalize(); sym_assert(cs.IsSatisfied() == sat, "still so after it is finalised"); auto m = cs.ToMatrices(); sym_assert(m.has_value(), "matrices"); V z = full(cs); sym_assert(z.size() == cs.num_instance_variables() + cs.num_witness_variables() && m->num_constraints == cs.num_constraints() && m->num_instance_variables == 3 && m->num_witness_variables == cs.num_witness_variables(), "as many assignments as variables"); sym_assert(z[0] == F::One() && z[1] == w.x && z[2] == w.y && z[3] == w.u && z[4] == w.v, "the assignments");
  for (size_t i = 0; i < n; ++i) { sym_assert(dot(m->a[i], z) == r.a[i], "left side"); sym_assert(dot(m->b[i], z) == r.b[i], "right side"); sym_assert(dot(m->c[i], z) == r.c[i], "product"); } for (size_t i = n; i < cs.num_constraints(); ++i) sym_assert(dot(m->a[i], z) * dot(m->b[i], z) == dot(m->c[i], z), "an outlined combination is its variable"); if (!weight) sym_assert(cs.num_constraints() == n, "nothing added");
  V z2 = z; for (size_t i = 5; i < z.size(); ++i) z2[i] += sv("other"); bool ok = true, eq = true; for (size_t i = n; i < cs.num_constraints(); ++i) ok = ok && dot(m->a[i], z2) * dot(m->b[i], z2) == dot(m->c[i], z2); for (size_t i = 5; i < z.size(); ++i) eq = eq && z2[i] == z[i]; sym_assert(ok == eq, "and can be nothing else");
  CS st; st.set_optimization_goal(weight ? OptimizationGoal::kWeight : OptimizationGoal::kConstraints); st.set_mode(SynthesisMode::Setup()); (void)build(st, kind, w); st.Finalize(); auto q = st.ToMatrices(); sym_assert(q.has_value() && q->a == m->a && q->b == m->b && q->c == m->c && st.num_witness_variables() == cs.num_witness_variables(), "the setup makes the same matrices"); sym_reached(sat ? "satisfied" : "not satisfied");
}
SYM_HARNESS(system_inline) { system(false, sym_choose(2, "circuit")); }
SYM_HARNESS(system_outline) { system(true, sym_choose(2, "circuit")); }
SYM_HARNESS(system_inline_wide) { system(false, kWide); }
SYM_HARNESS(system_outline_wide) { system(true, kWide); }
// ---- the reduction
constexpr size_t kMax = 15; using Domain = tachyon::math::UnivariateEvaluationDomain<F, kMax>; using QAP = QuadraticArithmeticProgram<F>;
struct Circ : Circuit<F> { int kind; Wit w; void Synthesize(CS& cs) const override { (void)build(cs, kind, w); } };
static F pick(size_t i) { return F(uint64_t{0x9e3779b97f4a7c15} * (i + 3) + i * i * 77); }
SYM_HARNESS(reduction) {
  int kind = sym_choose(kKinds, "circuit"); Wit w = wit(); w.k = {F(3), F(5), F(7)}; CS cs; (void)build(cs, kind, w); cs.Finalize(); auto d = Domain::Create(cs.num_constraints() + cs.num_instance_variables()); F x = sv("point"), t = F::One(); for (size_t i = 0; i < d->size(); ++i) t *= x - d->GetElement(i); sym_assume(!t.IsZero()); auto q = QAP::InstanceMap(d.get(), cs, x); sym_assert(q.t_x == t, "vanishing polynomial"); sym_assert(q.num_constraints == cs.num_constraints() && q.num_instance_variables == 3 && q.num_witness_variables == 2 && q.num_qap_variables == 4 && q.a.size() == 5 && q.b.size() == 5 && q.c.size() == 5, "sizes"); auto m = cs.ToMatrices(); V z = full(cs), l; for (size_t i = 0; i < d->size(); ++i) { F wi = d->GetElement(i), o = F::One(); for (size_t j = 0; j < d->size(); ++j) if (j != i) o *= (x - d->GetElement(j)) * *(wi - d->GetElement(j)).Inverse(); l.push_back(o); }
  auto cell = [&](const std::vector<Cell<F>>& r, size_t v) { F s = F::Zero(); for (auto& c : r) if (c.index == v) s += c.coefficient; return s; }; for (size_t v = 0; v < 5; ++v) { F a = v < 3 ? l[cs.num_constraints() + v] : F::Zero(), b = F::Zero(), c = F::Zero(); for (size_t i = 0; i < cs.num_constraints(); ++i) { a += l[i] * cell(m->a[i], v); b += l[i] * cell(m->b[i], v); c += l[i] * cell(m->c[i], v); } sym_assert(q.a[v] == a, "a"); sym_assert(q.b[v] == b, "b"); sym_assert(q.c[v] == c, "c"); }
  sym_reached("done");
}
SYM_HARNESS(quotient) {  // h's evaluations on the coset are (ab - c) / t for any assignment, satisfying or not
  int kind = sym_choose(kKinds, "circuit"); Wit w = wit(); w.k = {F(3), F(5), F(7)}; CS cs; (void)build(cs, kind, w); cs.Finalize(); auto d = Domain::Create(cs.num_constraints() + cs.num_instance_variables()); size_t n = d->size(); auto r = QAP::WitnessMap(d.get(), cs); V z = full(cs); sym_assert(r.full_assignments.size() == z.size(), "assignments"); for (size_t i = 0; i < z.size(); ++i) sym_assert(r.full_assignments[i] == z[i], "assignment"); auto m = cs.ToMatrices(); F g = F::FromMontgomery(F::Config::kSubgroupGenerator);
  auto at = [&](F x) { F a = F::Zero(), b = F::Zero(), c = F::Zero(); for (size_t i = 0; i < n; ++i) { F o = F::One(); for (size_t j = 0; j < n; ++j) if (j != i) o *= (x - d->GetElement(j)) * *(d->GetElement(i) - d->GetElement(j)).Inverse(); if (i < cs.num_constraints()) { a += o * dot(m->a[i], z); b += o * dot(m->b[i], z); c += o * dot(m->c[i], z); } else if (i < cs.num_constraints() + 3) a += o * z[i - cs.num_constraints()]; } F t = F::One(); for (size_t i = 0; i < n; ++i) t *= x - d->GetElement(i); return (a * b - c) * *t.Inverse(); };
  sym_assert(r.h.size() <= n, "degree"); for (size_t i = 0; i < n; ++i) { F x = g * d->GetElement(i); sym_assert(ev(r.h, x) == at(x), "the quotient's value"); } F x = sv("point"), dl = sv("d"), t = sv("t"); V h = QAP::ComputeHQuery(d.get(), t, x, dl); sym_assert(h.size() == n - 1, "size of the query"); F p = F::One(); for (auto& e : h) { sym_assert(e == p * t * dl, "power of the point"); p *= x; } sym_reached("done");
}
// ---- Groth16
using namespace tachyon::zk::r1cs::groth16;

struct Keys { ProvingKey<toy::Curve> pk; PreparedVerifyingKey<toy::Curve> pvk; F x, al, be, ga, de; V l; /* beta a_i + alpha b_i + c_i */ F a, b; /* sum of z_i a_i, z_i b_i */ };
static void setup(const Circ& c, bool symbolic, Keys* k) {
  k->al = sv("alpha"); k->be = sv("beta"); k->ga = symbolic ? sv("gamma") : pick(1); k->de = symbolic ? sv("delta") : pick(2); sym_assume(!k->ga.IsZero()); sym_assume(!k->de.IsZero()); ToxicWaste<toy::Curve> tw(k->al, k->be, k->ga, k->de, F::Zero(), A1(F::One()), A2(F::One())); bool ok = k->pk.Load<kMax, QAP>(tw, c); sym_assert(ok, "keys"); k->x = tw.x(); auto& vk = k->pk.verifying_key(); k->pvk = sym_choose(2, "moved") ? VerifyingKey<toy::Curve>(vk).ToPreparedVerifyingKey() : vk.ToPreparedVerifyingKey();
  CS cs; (void)build(cs, c.kind, c.w); cs.Finalize(); auto d = Domain::Create(cs.num_constraints() + cs.num_instance_variables()); auto q = QAP::InstanceMap(d.get(), cs, k->x); V z = full(cs); k->a = k->b = F::Zero(); k->l.clear(); for (size_t i = 0; i < z.size(); ++i) { k->l.push_back(k->be * q.a[i] + k->al * q.b[i] + q.c[i]); k->a += z[i] * q.a[i]; k->b += z[i] * q.b[i]; }
}
static Circ solved(int kind, bool symk) {
  Circ c; c.kind = kind; Wit& w = c.w; w = {F::Zero(), F::Zero(), sv("u"), sv("v"), symk ? svv(3, "k") : V{F(3), F(5), F(7)}}; const V& k = w.k; if (kind == kPlain) { w.x = w.u * w.v; w.y = (k[0] * w.u + k[1]) * w.v; } if (kind == kNested) { F f0 = w.u + k[0] * w.v; w.x = f0; w.y = (k[1] * f0 + f0 + F::One()) * w.u - k[2] * (f0 + f0); }
  if (kind == kWide) { F f = pick(7), fi = *f.Inverse(); w.u = f; w.v = fi; w.k[0] = f - F::One(); w.k[1] = (F::One() - fi - f) * fi - F::One(); w.x = sv("x"); w.y = f - w.u - w.k[0] * w.v - w.k[1] - w.k[2] * w.x; }
  return c;
}
static bool check(const Keys& k, const Proof<toy::Curve>& p, const V& in) { return VerifyProof(k.pvk, p, in); }
static Proof<toy::Curve> prove(const Circ& c, const Keys& k, F r, F s) { return CreateProofWithReduction<kMax, QAP>(c, k.pk, r, s); }
SYM_HARNESS(groth16_honest) {  // what is honestly proved is accepted
  Circ c = solved(sym_choose(kKinds, "circuit"), false); Keys k; setup(c, true, &k); V in{c.w.x, c.w.y}; size_t how = sym_choose(5, "how"); F r = sv("r"), s = sv("s"); if (how == 1) r = F::Zero(); if (how == 2) s = F::Zero();
  if (how < 3) { auto p = prove(c, k, r, s); sym_assert(p.a().v == k.al + k.a + r * k.de, "A is blinded by r"); sym_assert(p.b().v == k.be + k.b + s * k.de, "B is blinded by s"); sym_assert(check(k, p, in), "accepted"); auto q = ReRandomizeProof(k.pk.verifying_key(), p); sym_assert(check(k, q, in), "accepted after it is randomised again"); }
  else if (how == 3) { auto p = CreateProofWithReductionNoZK<kMax, QAP>(c, k.pk); sym_assert(p.a().v == k.al + k.a && p.b().v == k.be + k.b, "not blinded"); sym_assert(check(k, p, in), "accepted when not blinded"); }
  else { auto p = CreateProofWithReductionZK<kMax, QAP>(c, k.pk); F da = (p.a().v - k.al - k.a) * *k.de.Inverse(), db = (p.b().v - k.be - k.b) * *k.de.Inverse(); sym_assert(!da.IsZero() && !db.IsZero() && da != db, "blinded by two values"); sym_assert(check(k, p, in), "accepted when blinded by random values"); }
  sym_reached("done");
}
SYM_HARNESS(groth16_keys) {
  Circ c = solved(sym_choose(kKinds, "circuit"), true); Keys k; setup(c, true, &k); const auto& pk = k.pk; const auto& vk = pk.verifying_key(); sym_assert(vk.alpha_g1().v == k.al && vk.beta_g2().v == k.be && vk.gamma_g2().v == k.ga && vk.delta_g2().v == k.de && pk.beta_g1().v == k.be && pk.delta_g1().v == k.de, "the secrets' points"); sym_assert(vk.l_g1_query().size() == 3 && pk.l_g1_query().size() == k.l.size() - 3, "instances go to the verifier, witnesses to the prover"); for (size_t i = 0; i < 3; ++i) sym_assert(vk.l_g1_query()[i].v * k.ga == k.l[i], "an instance's point"); for (size_t i = 3; i < k.l.size(); ++i) sym_assert(pk.l_g1_query()[i - 3].v * k.de == k.l[i], "a witness's point"); sym_assert(k.pvk.alpha_g1_beta_g2().v == k.al * k.be && k.pvk.gamma_neg_g2().v == -k.ga && k.pvk.delta_neg_g2().v == -k.de, "prepared"); sym_reached("done");
}
SYM_HARNESS(groth16_input) {  // and for these instances only
  Circ c = solved(sym_choose(kKinds, "circuit"), false); Keys k; setup(c, false, &k); auto p = prove(c, k, sv("r"), sv("s")); F x = sv("other x"), y = sv("other y"); bool zero = ((x - c.w.x) * k.l[1] + (y - c.w.y) * k.l[2]).IsZero(); sym_assert(check(k, p, {x, y}) == zero, "accepted for what adds up to the same, only"); sym_assert(!check(k, p, {c.w.x}) && !check(k, p, {c.w.x, c.w.y, F::Zero()}) && !check(k, p, {}), "refused with too few or too many instances"); sym_reached(zero ? "same" : "other");
}
SYM_HARNESS(groth16_other) {
  Circ c = solved(sym_choose(2, "circuit"), false); Keys k; setup(c, false, &k); auto p = prove(c, k, sv("r"), sv("s")); F d = sv("d"); sym_assume(!d.IsZero()); size_t which = sym_choose(3, "which"); V in{c.w.x, c.w.y}; using P = Proof<toy::Curve>; P q = which == 0 ? P(A1(p.a().v + d), A2(p.b().v), A1(p.c().v)) : which == 1 ? P(A1(p.a().v), A2(p.b().v + d), A1(p.c().v)) : P(A1(p.a().v), A2(p.b().v), A1(p.c().v + d));
  sym_assert(check(k, q, in) == (which == 0 ? p.b().v.IsZero() : which == 1 ? p.a().v.IsZero() : false), "another proof is accepted only where the equation holds"); sym_reached("done");
}
SYM_HARNESS(groth16_unsatisfied) {  // an assignment which breaks a constraint is refused under one of two keys' points
  Circ c; c.kind = sym_choose(2, "circuit"); c.w = wit(); c.w.k = {F(3), F(5), F(7)}; V in{c.w.x, c.w.y}; CS cs; Ref r = build(cs, c.kind, c.w); bool sat = true; for (size_t i = 0; i < r.a.size(); ++i) sat = sat && r.a[i] * r.b[i] == r.c[i]; Keys k[2]; bool both = true; for (auto& e : k) { setup(c, false, &e); both = both && check(e, prove(c, e, sv("r"), sv("s")), in); } sym_assert(k[0].x != k[1].x, "another point"); sym_assert(both == sat, "accepted exactly if satisfied"); sym_reached(sat ? "satisfied" : "not satisfied");
}
