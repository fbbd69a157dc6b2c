// Plonk expressions: every evaluator of an expression computes the polynomial it writes down, for symbolic cells, challenges and constants; replacing and combining selectors keeps what they select.
// Oracle: refeval (plonk_ref.h), written over the expression's structure alone.
#include "alg_fields.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
using F = tachyon::math::bn254::Fr;
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "tachyon/zk/plonk/constraint_system/selector_compressor.h"
#include "tachyon/zk/plonk/expressions/compress_expression.h"
#include "tachyon/zk/plonk/expressions/evaluator/identifier.h"
#include "tachyon/zk/plonk/expressions/evaluator/selector_replacer.h"
#include "tachyon/zk/plonk/expressions/evaluator/simple_selector_extractor.h"
#include "tachyon/zk/plonk/expressions/evaluator/simple_selector_finder.h"
#include "tachyon/zk/plonk/expressions/expression_factory.h"
#include "tachyon/zk/plonk/expressions/proving_evaluator.h"
#include "tachyon/zk/plonk/expressions/verifying_evaluator.h"
#include "tachyon/zk/plonk/vanishing/graph_evaluator.h"
#include "plonk_ref.h"
using namespace tachyon; using namespace tachyon::zk; using namespace tachyon::zk::plonk;
static F sv(const char* n) { return symv<F>(n); }
using V = std::vector<F>; using EX = std::unique_ptr<Expression<F>>; using X = plonk::ExpressionFactory<F>;
constexpr size_t kN = 4; using Domain = math::UnivariateEvaluationDomain<F, kN - 1>; using Evals = Domain::Evals;
static void init() { F::Init(); }
SYM_INIT(init)
// ---- expressions chosen piece by piece
struct Leaf { int kind; size_t i; int rot; };  // 0 constant, 1 fixed, 2 advice, 3 instance, 4 challenge, 5 selector (simple), 6 selector (complex)
static const std::vector<Leaf> kLeaves{{0, 0, 0}, {0, 1, 0}, {0, 2, 0}, {0, 3, 0}, {1, 0, 0}, {1, 1, -1}, {2, 0, 1}, {2, 1, 0}, {3, 0, -2}, {3, 1, 3}, {4, 1, 0}}, kFew{{2, 0, 0}, {2, 0, 1}, {2, 1, 0}, {1, 0, 0}, {0, 3, 0}}, kSel{{5, 0, 0}, {5, 1, 0}, {6, 2, 0}, {2, 0, 1}, {0, 2, 0}};
static std::vector<std::pair<int, std::pair<size_t, int>>> queries;  // (kind, column, rotation) in the order first asked for, per kind
static size_t query(int kind, size_t col, int rot) { size_t n = 0; for (auto& q : queries) if (q.first == kind) { if (q.second == std::make_pair(col, rot)) return n; ++n; } queries.push_back({kind, {col, rot}}); return n; }
static F konst; static F scales[4];
static EX leaf(const Leaf& l) {
  switch (l.kind) {
    case 0: return X::Constant(l.i == 3 ? konst : F(l.i)); case 1: return X::Fixed({query(1, l.i, l.rot), Rotation(l.rot), FixedColumnKey(l.i)}); case 2: return X::Advice({query(2, l.i, l.rot), Rotation(l.rot), AdviceColumnKey(l.i)});
    case 3: return X::Instance({query(3, l.i, l.rot), Rotation(l.rot), InstanceColumnKey(l.i)}); case 4: return X::Challenge(Challenge(l.i, kFirstPhase)); case 5: return X::Selector(Selector::Simple(l.i)); default: return X::Selector(Selector::Complex(l.i)); }
}
static EX any(const std::vector<Leaf>& ls, int depth, int force = -1) {
  if (depth == 0) return leaf(ls[sym_choose(ls.size(), "leaf")]);
  int k = force >= 0 ? force : sym_choose(5, "op"); switch (k) {
    case 0: return any(ls, 0); case 1: return X::Negated(any(ls, depth - 1)); case 2: { EX a = any(ls, depth - 1); EX b = any(ls, 0); return std::move(a) + std::move(b); } case 3: { EX a = any(ls, depth - 1); EX b = any(ls, 0); return std::move(a) * std::move(b); }
    case 4: return X::Scaled(any(ls, depth - 1), scales[sym_choose(4, "scale")]);
    case 5: { EX a = any(ls, 0); EX b = any(ls, depth - 1); return std::move(a) + std::move(b); } case 6: { EX a = any(ls, 0); EX b = any(ls, depth - 1); return std::move(a) * std::move(b); } case 7: { EX a = any(ls, depth - 1); EX b = any(ls, 0); return std::move(a) - std::move(b); }
    default: { EX a = any(ls, 0); EX b = any(ls, depth - 1); return a - b; } }
}
struct Tab { std::vector<Evals> fix, adv, ins; V ch; Tab() { for (auto* t : {&fix, &adv, &ins}) for (int c = 0; c < 2; ++c) { V v; for (size_t i = 0; i < kN; ++i) v.push_back(sv("cell")); t->push_back(Evals(v)); } ch = {sv("ch"), sv("ch")}; } MultiPhaseRefTable<Evals> ref() const { return {absl::MakeConstSpan(fix), absl::MakeConstSpan(adv), absl::MakeConstSpan(ins), absl::MakeConstSpan(ch)}; } };
struct At { const Tab& t; int idx, scale; V sl; F get(const std::vector<Evals>& e, size_t c, int r) const { return e[c][((idx + r * scale) % int(kN) + kN) % kN]; } F adv(size_t c, int r) const { return get(t.adv, c, r); } F fix(size_t c, int r) const { return get(t.fix, c, r); } F ins(size_t c, int r) const { return get(t.ins, c, r); } F sel(size_t i) const { return sl.at(i); } F chal(size_t i) const { return t.ch.at(i); } };
static size_t degree(const Expression<F>* e) { using T = ExpressionType; switch (e->type()) { case T::kConstant: case T::kChallenge: return 0; case T::kNegated: return degree(e->ToNegated()->expr()); case T::kSum: return std::max(degree(e->ToSum()->left()), degree(e->ToSum()->right())); case T::kProduct: return degree(e->ToProduct()->left()) + degree(e->ToProduct()->right()); case T::kScaled: return degree(e->ToScaled()->expr()); default: return 1; } }
static void fresh() { queries.clear(); konst = sv("k"); scales[0] = F::Zero(); scales[1] = F::One(); scales[2] = F(7); scales[3] = sv("scale"); }
// the value a graph gives to some expressions, combined as the lookups combine them
static F graph(const std::vector<const Expression<F>*>& es, const Tab& t, int idx, int scale, const F& th) {
  GraphEvaluator<F> g; std::vector<ValueSource> parts; for (auto* e : es) parts.push_back(g.AddExpression(e)); g.AddCalculation(Calculation::Horner(ValueSource::ZeroConstant(), parts, ValueSource::Theta()));
  auto table = t.ref(); F z = F::Zero(); EvaluationInput<Evals> in(g.CreateInitialIntermediates(), g.CreateEmptyRotations(), table, th, z, z, z, kN); return g.Evaluate(in, idx, scale, F(99));
}
static void eval(int op) {
  fresh(); EX e = any(kLeaves, 2, op); Tab t; int scale = 1 + sym_choose(2, "scaled"), idx = 1; At at{t, idx, scale, {}}; F want = refeval<F>(e.get(), at); auto table = t.ref();
  ProvingEvaluator<Evals> pe(idx, kN, scale, table); sym_assert(e->Evaluate(&pe) == want, "the prover's value"); F th = sv("theta"); sym_assert(graph({e.get()}, t, idx, scale, th) == want, "the graph's value");
  MultiPhaseEvaluations<F> d; V q[4]; for (auto& k : queries) q[k.first].push_back(k.first == 1 ? at.fix(k.second.first, k.second.second) : k.first == 2 ? at.adv(k.second.first, k.second.second) : at.ins(k.second.first, k.second.second)); d = MultiPhaseEvaluations<F>(q[1], q[2], q[3], t.ch); VerifyingEvaluator<F> ve(d); sym_assert(e->Evaluate(&ve) == want, "the verifier's value");
  EX c = e->Clone(); sym_assert(*c == *e, "a clone is equal"); sym_assert(refeval<F>(c.get(), at) == want, "a clone has the same value"); sym_assert(e->Degree() == degree(e.get()), "degree"); sym_reached("done");
}
#define EV(n, op) SYM_HARNESS(eval_##n) { eval(op); }
EV(neg, 1) EV(sum, 2) EV(product, 3) EV(scaled, 4) EV(sum_right, 5) EV(product_right, 6) EV(difference, 7) EV(difference_right, 8)
// expressions that share parts
static void pair(int op) { fresh(); EX a = any(kFew, 1, op), b = any(kFew, 1); Tab t; At at{t, 2, 1, {}}; F th = sv("theta"); sym_assert(graph({a.get(), b.get()}, t, 2, 1, th) == refeval<F>(a.get(), at) * th + refeval<F>(b.get(), at), "two expressions in one graph"); EX s = a->Clone() * b->Clone(); sym_assert(graph({s.get()}, t, 2, 1, th) == refeval<F>(a.get(), at) * refeval<F>(b.get(), at), "their product"); sym_reached("done"); }
SYM_HARNESS(pair_neg) { pair(1); }
SYM_HARNESS(pair_sum) { pair(2); }
SYM_HARNESS(pair_product) { pair(3); }
SYM_HARNESS(pair_scaled) { pair(4); }
SYM_HARNESS(compress) { fresh(); size_t n = sym_choose(4, "n"); std::vector<EX> es; for (size_t i = 0; i < n; ++i) es.push_back(any(i ? std::vector<Leaf>{kFew[1], kFew[4]} : kFew, i ? 0 : 1)); Tab t; F th = sv("theta"); auto d = Domain::Create(kN); ProvingEvaluator<Evals> pe(0, kN, 1, t.ref()); Evals r = CompressExpressions(d.get(), es, th, pe); for (size_t i = 0; i < kN; ++i) { At at{t, int(i), 1, {}}; F w = F::Zero(); for (auto& e : es) w = w * th + refeval<F>(e.get(), at); sym_assert(r[i] == w, "combined by powers of theta"); } sym_reached("done"); }
// equality and identifiers
static std::string key(const Expression<F>* e, const std::vector<std::pair<F, std::string>>& ks) {
  using T = ExpressionType; auto cst = [&](const F& v) { for (auto& k : ks) if (k.first == v) return k.second; sym_assert(false, "a constant of another value"); return std::string(); }; auto q = [](const char* n, const auto& q) { return n + std::to_string(q.column().index()) + "@" + std::to_string(q.rotation().value()); };
  switch (e->type()) { case T::kConstant: return cst(e->ToConstant()->value()); case T::kNegated: return "n(" + key(e->ToNegated()->expr(), ks) + ")"; case T::kSum: return "s(" + key(e->ToSum()->left(), ks) + "," + key(e->ToSum()->right(), ks) + ")"; case T::kProduct: return "p(" + key(e->ToProduct()->left(), ks) + "," + key(e->ToProduct()->right(), ks) + ")"; case T::kScaled: return "c(" + key(e->ToScaled()->expr(), ks) + "," + cst(e->ToScaled()->scale()) + ")";
    case T::kFixed: return q("f", e->ToFixed()->query()); case T::kAdvice: return q("a", e->ToAdvice()->query()); case T::kInstance: return q("i", e->ToInstance()->query()); case T::kSelector: return (e->ToSelector()->selector().is_simple() ? "S" : "C") + std::to_string(e->ToSelector()->selector().index()); case T::kChallenge: return "h" + std::to_string(e->ToChallenge()->challenge().index()); default: return "?"; }
}
static const std::vector<Leaf> kKinds{{0, 1, 0}, {0, 2, 0}, {1, 0, 0}, {2, 0, 0}, {2, 0, 1}, {2, 1, 0}, {3, 0, 0}, {4, 0, 0}, {4, 1, 0}};
static void same(int op) { fresh(); scales[3] = F(2); scales[0] = F(1); EX a = any(kKinds, 1, op), b = any(kKinds, 1); std::vector<std::pair<F, std::string>> ks{{F(1), "1"}, {F(2), "2"}, {F(7), "7"}}; bool eq = key(a.get(), ks) == key(b.get(), ks); sym_assert((*a == *b) == eq, "equal exactly if written alike"); sym_assert((*a != *b) != eq, "different otherwise"); sym_assert((GetIdentifier(a.get()) == GetIdentifier(b.get())) == eq, "the identifier tells expressions apart"); sym_reached(eq ? "equal" : "different"); }
SYM_HARNESS(same_leaf) { same(0); }
SYM_HARNESS(same_neg) { same(1); }
SYM_HARNESS(same_sum) { same(2); }
SYM_HARNESS(same_product) { same(3); }
SYM_HARNESS(same_scaled) { same(4); }
SYM_HARNESS(same_constants) { F a = sv("a"), b = sv("b"); EX x = X::Constant(a), y = X::Constant(b); bool eq = a == b; sym_assert((*x == *y) == eq, "constants"); EX s = X::Scaled(leaf({2, 0, 0}), a), t = X::Scaled(leaf({2, 0, 0}), b); sym_assert((*s == *t) == eq, "scales"); sym_reached(eq ? "equal" : "different"); }
SYM_HARNESS(same_selectors) { std::vector<Leaf> l{{5, 0, 0}, {5, 1, 0}, {6, 0, 0}, {6, 1, 0}}; size_t i = sym_choose(4, "a"), j = sym_choose(4, "b"); EX a = leaf(l[i]), b = leaf(l[j]); sym_assert((*a == *b) == (i == j), "selectors"); sym_assert((GetIdentifier(a.get()) == GetIdentifier(b.get())) == (i % 2 == j % 2), "a selector's index identifies it"); sym_reached("done"); }
// selectors
static size_t simples(const Expression<F>* e, size_t* which) { using T = ExpressionType; switch (e->type()) { case T::kSelector: if (!e->ToSelector()->selector().is_simple()) return 0; *which = e->ToSelector()->selector().index(); return 1; case T::kNegated: return simples(e->ToNegated()->expr(), which); case T::kSum: return simples(e->ToSum()->left(), which) + simples(e->ToSum()->right(), which); case T::kProduct: return simples(e->ToProduct()->left(), which) + simples(e->ToProduct()->right(), which); case T::kScaled: return simples(e->ToScaled()->expr(), which); default: return 0; } }
static void selectors(int op) { fresh(); EX e = any(kSel, 2, op); Tab t; At at{t, 1, 1, {}}; size_t w = 9, n = simples(e.get(), &w); SimpleSelectorFinder<F> f; sym_assert(f.Evaluate(e.get()) == (n > 0), "a simple selector is found exactly if there is one"); if (n < 2) { auto s = ExtractSimpleSelector(e.get()); sym_assert(s.has_value() == (n == 1), "extracted exactly if there is one"); if (n == 1 && s) sym_assert(s->index() == w && s->is_simple(), "the one there is"); }
  EX r0 = leaf(kFew[3]) * leaf(kFew[0]), r1 = X::Constant(F(5)), r2 = leaf(kFew[3]); std::vector<base::Ref<const Expression<F>>> rep{base::Ref<const Expression<F>>(r0.get()), base::Ref<const Expression<F>>(r1.get()), base::Ref<const Expression<F>>(r2.get())}; At full{t, 1, 1, {refeval<F>(r0.get(), at), refeval<F>(r1.get(), at), refeval<F>(r2.get(), at)}}; EX s = ReplaceSelectors(e.get(), rep, false); sym_assert(refeval<F>(s.get(), at) == refeval<F>(e.get(), full), "replacing a selector evaluates to its replacement"); size_t u; sym_assert(simples(s.get(), &u) == 0, "no selector is left"); sym_reached(n == 0 ? "none" : n == 1 ? "one" : "more"); }
#define SE(n, op) SYM_HARNESS(selectors_##n) { selectors(op); }
SE(neg, 1) SE(sum, 2) SE(product, 3) SE(scaled, 4) SE(sum_right, 5) SE(product_right, 6)
template <size_t S, size_t R> static void combine(std::vector<size_t> degs, std::vector<size_t> maxs) {
  std::vector<std::vector<bool>> act(S, std::vector<bool>(R)); for (auto& a : act) for (size_t i = 0; i < R; ++i) a[i] = sym_choose(2, "on"); std::vector<size_t> dg; for (size_t i = 0; i < S; ++i) dg.push_back(degs[sym_choose(degs.size(), "degree")]); size_t mx = maxs[sym_choose(maxs.size(), "max")]; size_t cols = 0;
  SelectorCompressor<F> c; c.Process(act, dg, mx, [&cols] { ++cols; return X::Fixed({cols - 1, Rotation(0), FixedColumnKey(cols - 1)}); }); auto& ca = c.combination_assignments(); sym_assert(ca.size() == cols, "one assignment per column"); sym_assert(c.selector_assignments().size() == S, "every selector is replaced"); std::vector<int> seen(S); struct Row { const std::vector<V>& ca; size_t r; F fix(size_t c, int) const { return ca.at(c).at(r); } F adv(size_t, int) const { return F::Zero(); } F ins(size_t, int) const { return F::Zero(); } F sel(size_t) const { return F::Zero(); } F chal(size_t) const { return F::Zero(); } };
  for (auto& s : c.selector_assignments()) { size_t i = s.selector_index(); sym_assert(i < S && !seen[i]++, "once"); sym_assert(s.combination_index() < cols, "its combination"); for (size_t r = 0; r < R; ++r) { F v = refeval<F>(s.expression(), Row{ca, r}); sym_assert(v.IsZero() != act[i][r], "non-zero exactly where the selector is on"); if (dg[i] == 0) sym_assert(v == (act[i][r] ? F::One() : F::Zero()), "a complex selector keeps its value"); } if (dg[i]) sym_assert(s.expression()->Degree() + dg[i] - 1 <= mx, "within the degree allowed"); else sym_assert(s.expression()->Degree() == 1, "a column of its own"); }
  sym_reached("done");
}
SYM_HARNESS(combine_3) { combine<3, 2>({0, 2, 3}, {3, 4, 6}); }
SYM_HARNESS(combine_4) { combine<4, 2>({2, 3}, {3, 4, 5}); }
SYM_HARNESS(combine_5) { combine<5, 1>({1, 2}, {2, 3, 4, 7}); }
