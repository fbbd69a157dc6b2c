// The Plonk prover and verifier end to end: circuits built through the floor planner, keys, proof and verification, over the toy pairing group.
// Witness cells and instance values of gates, and the change made to one element of the proof, are symbolic.  Oracle: the circuit's constraints, written out.
#include "toy_pairing.h"
#include "tachyon/zk/plonk/halo2/prime_field_conversion.h"
namespace tachyon::zk::plonk::halo2 { template <> inline F FromUint512<F>(uint64_t l[8]) { return F(l[0] >> 1); } }
#include "tachyon/crypto/random/xor_shift/xor_shift_rng.h"
#include "tachyon/zk/base/commitments/gwc_extension.h"
#include "tachyon/zk/base/commitments/shplonk_extension.h"
#include "tachyon/zk/lookup/halo2/scheme.h"
#include "tachyon/zk/lookup/log_derivative_halo2/scheme.h"
#include "tachyon/zk/plonk/halo2/prover.h"
#include "tachyon/zk/plonk/halo2/proving_scheme.h"
#include "tachyon/zk/plonk/halo2/pinned_verifying_key.h"
#include "tachyon/zk/plonk/keys/proving_key.h"
#include "tachyon/zk/plonk/constraint_system/circuit.h"
#include "tachyon/zk/plonk/layout/floor_planner/simple_floor_planner.h"
#include "tachyon/zk/plonk/layout/floor_planner/v1/v1_floor_planner.h"
using namespace tachyon::zk; using namespace tachyon::zk::plonk;
constexpr size_t kN = 16; constexpr size_t kD = kN - 1, kXD = kN * 8 - 1;
using SX = SHPlonkExtension<toy::Curve, kD, kXD, A1>; using GX = GWCExtension<toy::Curve, kD, kXD, A1>;
static const auto kH = lookup::Type::kHalo2, kL = lookup::Type::kLogDerivativeHalo2;
template <class PCS, lookup::Type T> using PSx = halo2::ProvingScheme<halo2::Vendor::kScroll, T, PCS>;
// one circuit with every kind of constraint
enum { GATE = 1, COPY = 2, LOOKUP = 4, SHUFFLE = 8, PHASE = 16, CONST = 32, TABLES = 64 };
struct Data { V a, b, c, h, d, u, z, x, y, l, s, t, k, err; };  // columns of the witness, from row 0
struct Cfg { using Field = F; AdviceColumnKey a, b, c, h, d, u, z, x, y, l, s, t, p; FixedColumnKey f, k, q; InstanceColumnKey i; Selector g = Selector::Simple(0), sl = Selector::Complex(0); LookupTableColumn tb, t1, t2; Challenge ch{0, kFirstPhase}; Cfg Clone() const { return *this; } };
using EX = std::unique_ptr<Expression<F>>;
template <int K, template <typename> class FP> struct Circ : Circuit<Cfg> {
  using FloorPlanner = FP<Circ<K, FP>>; Data w; bool blank = false;
  std::unique_ptr<Circuit<Cfg>> WithoutWitness() const override { auto r = std::make_unique<Circ>(); r->blank = true; r->w = w; return r; }
  static Cfg Configure(ConstraintSystem<F>& m) {
    Cfg o; const Rotation c0 = Rotation::Cur(), n = Rotation::Next(), p = Rotation::Prev();
    if (K & GATE) {
      o.a = m.CreateAdviceColumn(); o.b = m.CreateAdviceColumn(); o.c = m.CreateAdviceColumn(); o.h = m.CreateAdviceColumn(); o.f = m.CreateFixedColumn(); o.i = m.CreateInstanceColumn(); o.g = m.CreateSimpleSelector();
      m.CreateGate("mul", [&](VirtualCells<F>& v) { EX a = v.QueryAdvice(o.a, c0), b = v.QueryAdvice(o.b, n), c = v.QueryAdvice(o.c, c0), f = v.QueryFixed(o.f, c0), i = v.QueryInstance(o.i, c0), s = v.QuerySelector(o.g); EX s2 = s->Clone(), a2 = a->Clone(), c2 = c->Clone(); std::vector<Constraint<F>> r; r.emplace_back(std::move(s) * (std::move(a) * std::move(b) + std::move(f) - std::move(c))); r.emplace_back(std::move(s2) * (std::move(c2) - std::move(i) * F(3) - (-std::move(a2)))); return r; });
      m.CreateGate("fourth", [&](VirtualCells<F>& v) { EX a = v.QueryAdvice(o.a, n), h = v.QueryAdvice(o.h, p), s = v.QuerySelector(o.g); EX a2 = a->Clone() * a->Clone(); EX a4 = a2->Clone() * a2->Clone(); std::vector<Constraint<F>> r; r.emplace_back(std::move(s) * (std::move(a4) - std::move(h))); return r; });
    }
    if (K & (COPY | CONST)) { o.x = m.CreateAdviceColumn(); o.y = m.CreateAdviceColumn(); m.EnableEquality(o.x); m.EnableEquality(o.y); if (K & CONST) { o.k = m.CreateFixedColumn(); m.EnableConstant(o.k); } if (!(K & GATE)) { o.i = m.CreateInstanceColumn(); m.EnableEquality(o.i); } }
    if (K & LOOKUP) { o.l = m.CreateAdviceColumn(); o.sl = m.CreateComplexSelector(); o.tb = m.CreateLookupTableColumn(); m.Lookup("range", [&](VirtualCells<F>& v) { EX l = v.QueryAdvice(o.l, c0), s = v.QuerySelector(o.sl); lookup::Pairs<EX, LookupTableColumn> r; r.emplace_back(std::move(s) * std::move(l), o.tb); return r; }); }
    if (K & TABLES) {  // two tables more, one of them of pairs, each looked up twice and more
      o.u = m.CreateAdviceColumn(); o.z = m.CreateAdviceColumn(); o.t1 = m.CreateLookupTableColumn(); o.t2 = m.CreateLookupTableColumn();
      for (int k = 0; k < 2; ++k) { m.Lookup("u" + std::to_string(k), [&](VirtualCells<F>& v) { lookup::Pairs<EX, LookupTableColumn> r; r.emplace_back(v.QueryAdvice(o.u, k ? n : c0), o.t1); return r; }); m.Lookup("z" + std::to_string(k), [&](VirtualCells<F>& v) { lookup::Pairs<EX, LookupTableColumn> r; r.emplace_back(v.QueryAdvice(o.z, k ? n : c0), o.t1); r.emplace_back(v.QueryAdvice(o.z, c0) * F(k + 1) - v.QueryAdvice(o.z, c0) * F(k), o.t2); return r; }); }
    }
    if (K & SHUFFLE) { o.s = m.CreateAdviceColumn(); o.t = m.CreateAdviceColumn(); m.Shuffle("perm", [&](VirtualCells<F>& v) { shuffle::Pairs<EX> r; r.emplace_back(v.QueryAdvice(o.s, c0), v.QueryAdvice(o.t, c0)); return r; }); }
    if (K & PHASE) {
      o.d = m.CreateAdviceColumn(); o.q = m.CreateFixedColumn(); o.ch = m.CreateChallengeUsableAfter(kFirstPhase); o.p = m.CreateAdviceColumn(kSecondPhase);
      m.CreateGate("chal", [&](VirtualCells<F>& v) { EX d = v.QueryAdvice(o.d, c0), q = v.QueryAdvice(o.p, c0), prev = v.QueryAdvice(o.d, p), f = v.QueryFixed(o.q, c0); EX ch = v.QueryChallenge(o.ch); std::vector<Constraint<F>> r; r.emplace_back(std::move(f) * (std::move(q) - std::move(d) * std::move(ch) - std::move(prev))); return r; });
    }
    return o;
  }
  Value<F> val(const V& v, size_t i) const { return blank ? Value<F>::Unknown() : Value<F>::Known(v[i]); }
  void Synthesize(Cfg&& o, Layouter<F>* l) const override {
    if (K & GATE) l->AssignRegion("mul", [&](Region<F>& r) { for (size_t i = 0; i + 1 < w.b.size(); ++i) { o.g.Enable(r, i + 1); r.AssignFixed("f", o.f, i + 1, [&] { return Value<F>::Known(w.k[i]); }); r.AssignAdvice("a", o.a, i + 1, [&] { return val(w.a, i); }); r.AssignAdvice("c", o.c, i + 1, [&] { return val(w.c, i); }); } for (size_t i = 0; i < w.h.size(); ++i) r.AssignAdvice("h", o.h, i, [&] { return val(w.h, i); }); for (size_t i = 0; i < w.b.size(); ++i) r.AssignAdvice("b", o.b, i + 1, [&] { return val(w.b, i); }); });
    if (K & (COPY | CONST)) {
      std::vector<AssignedCell<F>> xs, ys;
      l->AssignRegion("x", [&](Region<F>& r) { xs.clear(); for (size_t i = 0; i < w.x.size(); ++i) xs.push_back(r.AssignAdvice("x", o.x, i, [&] { return val(w.x, i); })); });
      l->AssignRegion("y", [&](Region<F>& r) { ys.clear(); for (size_t i = 0; i < w.y.size(); ++i) ys.push_back(r.AssignAdvice("y", o.y, i, [&] { return val(w.y, i); })); if (K & COPY) { r.ConstrainEqual(xs[0].cell(), ys[1].cell()); r.ConstrainEqual(ys[1].cell(), ys[2].cell()); r.ConstrainEqual(xs[1].cell(), xs[2].cell()); r.ConstrainEqual(xs[1].cell(), xs[2].cell()); } if (K & CONST) r.ConstrainConstant(ys[0].cell(), math::RationalField<F>(F(17))); });
      if ((K & COPY) && !(K & GATE)) l->ConstrainInstance(xs[1].cell(), o.i, 1);
    }
    if (K & LOOKUP) {
      l->AssignLookupTable("t", [&](LookupTable<F>& t) { for (size_t i = 0; i < 4; ++i) if (!t.AssignCell("t", o.tb, i, [&] { return Value<F>::Known(F(i * i)); })) return false; return true; });
      l->AssignRegion("l", [&](Region<F>& r) { for (size_t i = 0; i < w.l.size(); ++i) { o.sl.Enable(r, i); r.AssignAdvice("l", o.l, i, [&] { return val(w.l, i); }); } });
    }
    if (K & TABLES) { l->AssignLookupTable("t1", [&](LookupTable<F>& t) { for (size_t i = 0; i < 6; ++i) if (!t.AssignCell("t1", o.t1, i, [&] { return Value<F>::Known(i < 4 ? F(i * 100) : F(i == 4 ? 0 : 200)); }) || !t.AssignCell("t2", o.t2, i, [&] { return Value<F>::Known(i < 4 ? F(i * 100) : F(i == 4 ? 200 : 0)); })) return false; return true; }); l->AssignRegion("uz", [&](Region<F>& r) { for (size_t i = 0; i < w.u.size(); ++i) { r.AssignAdvice("u", o.u, i, [&] { return val(w.u, i); }); r.AssignAdvice("z", o.z, i, [&] { return val(w.z, i); }); } }); }
    if (K & SHUFFLE) l->AssignRegion("s", [&](Region<F>& r) { for (size_t i = 0; i < w.s.size(); ++i) { r.AssignAdvice("s", o.s, i, [&] { return val(w.s, i); }); r.AssignAdvice("t", o.t, i, [&] { return val(w.t, i); }); } });
    if (K & PHASE) { Value<F> c = l->GetChallenge(o.ch); l->AssignRegion("p", [&](Region<F>& r) { for (size_t i = 0; i < w.d.size(); ++i) { r.AssignAdvice("d", o.d, i, [&] { return val(w.d, i); }); if (i) { r.AssignFixed("q", o.q, i, [&] { return Value<F>::Known(F(1)); }); r.AssignAdvice("p", o.p, i, [&] { return blank || c.IsNone() ? Value<F>::Unknown() : Value<F>::Known(w.d[i] * c.value() + w.d[i - 1] + (w.err.empty() ? F(0) : w.err[i])); }); } } }); }
  }
};
static void init() { F::Init(); }
SYM_INIT(init)
static F chal(size_t i) { return F(uint64_t{0x9e3779b97f4a7c15} * (i + 3) + i * i * 77); }
template <class PS, class C> struct Run {
  using PCS = typename PS::PCS; using Evals = typename PCS::Evals; V proof, seenp; Wr* w; size_t nch = 0, from = 99; std::vector<size_t> at; std::vector<std::vector<Evals>> inst; ProvingKey<PS> pk; std::unique_ptr<halo2::Prover<PS>> p; std::unique_ptr<halo2::Verifier<PS>> v; Rd* r;
  static Evals col(V x) { return Evals(std::move(x)); }
  void prove(std::vector<C> cs, std::vector<std::vector<V>> in, bool split = false) {
    auto ww = std::make_unique<Wr>(); w = ww.get(); for (size_t i = 0; i < 40; ++i) w->ch.push_back(chal(i < from ? i : i + 100));
    p = std::make_unique<halo2::Prover<PS>>(halo2::Prover<PS>::Create(PCS(), std::move(ww), [] { auto g = std::make_unique<XORShiftRNG>(); uint8_t seed[] = {0x59, 0x62, 0xbe, 0x5d, 0x76, 0x3d, 0x31, 0x8d, 0x17, 0xdb, 0x37, 0x32, 0x54, 0x06, 0xbc, 0xe5}; (void)g->SetSeed(absl::Span<const uint8_t>(seed, 16)); return g; }(), 0));
    p->set_domain(PCS::Domain::Create(kN)); bool ok = p->pcs().UnsafeSetup(kN, F(123457)); sym_assert(ok, "setup");
    if (split) { VerifyingKey<F, A1> vk; ok = vk.Load(p.get(), cs[0], PS::kLookupType); sym_assert(ok, "verifying key"); ok = pk.LoadWithVerifyingKey(p.get(), cs[0], std::move(vk)); } else ok = pk.Load(p.get(), cs[0]);
    sym_assert(ok, "proving key"); std::vector<std::vector<Evals>> iv; for (auto& x : in) { iv.emplace_back(); for (auto& y : x) { iv.back().push_back(col(y)); } } p->CreateProof(pk, std::move(iv), cs); proof = w->out; at = w->at; seenp = w->seen; nch = w->k;
    auto rr = std::make_unique<Rd>(); r = rr.get(); v = std::make_unique<halo2::Verifier<PS>>(p->ToVerifier(std::move(rr)));
  }
  bool verify(const V& pr, const std::vector<std::vector<V>>& in) { r->ch = w->ch; r->k = 0; r->r = 0; r->seen.clear(); r->in = pr; std::vector<std::vector<Evals>> iv; for (auto& x : in) { iv.emplace_back(); for (auto& y : x) iv.back().push_back(col(y)); } return v->VerifyProof(pk.verifying_key(), iv); }
};
#ifndef PCSX
#define PCSX SX
#define LT kL
#endif
using P = PSx<PCSX, LT>; using VV = std::vector<V>;
template <int K> using Cs = Circ<K, SimpleFloorPlanner>; template <int K> using Cv = Circ<K, V1FloorPlanner>;
static F third(F x) { return x * *F(3).Inverse(); }
static void hs(Data& w) { w.h.clear(); for (size_t i = 0; i < 3; ++i) { F a = i < 2 ? w.a[i + 1] : F::Zero(); w.h.push_back(a * a * a * a); } }
static Data data(int K, size_t o = 0) {  // a witness that satisfies everything
  Data w; if (K & GATE) { w.a = {F(2 + o), F(11), F(0)}; w.b = {F(3), F(6 + o), F(5), F(9)}; w.k = {F(7), F(8), F(21)}; for (size_t i = 0; i < 3; ++i) w.c.push_back(w.a[i] * w.b[i + 1] + w.k[i]); hs(w); }
  if (K & (COPY | CONST)) { w.x = {F(101 + o), F(102), F(102)}; w.y = {F(17), F(101 + o), F(101 + o)}; } if (K & LOOKUP) w.l = {F(4), F(9), F(4), F(o ? 1 : 0)}; if (K & TABLES) { w.u = {F(100), F(300), F(100 + 100 * o)}; w.z = {F(0), F(200), F(0)}; } if (K & SHUFFLE) { w.s = {F(31), F(32), F(33 + o)}; w.t = {F(33 + o), F(31), F(32)}; } if (K & PHASE) w.d = {F(41), F(42), F(43 + o)}; return w; }
static VV inst(int K, const Data& w) { VV r; if (K & GATE) { r.push_back({F(5)}); for (size_t i = 0; i < 3; ++i) r.back().push_back(third(w.c[i] + w.a[i])); } else if (K & (COPY | CONST)) r.push_back({F(7), w.x[1]}); return r; }
constexpr int kAll = GATE | COPY | CONST | LOOKUP | SHUFFLE | PHASE | TABLES;
#ifndef FORMULA
template <class C> static void honest(Run<P, C>& r, const std::vector<VV>& in, const char* m) { bool ok = r.verify(r.proof, in); sym_assert(ok, m); sym_assert(r.r->r == r.proof.size(), "the whole proof is read"); sym_assert(r.nch <= r.r->k && r.r->k <= r.nch + 1, "as many challenges, but for one once the proof is read"); sym_assert(r.seenp.size() <= r.r->seen.size() && r.r->seen.size() <= r.seenp.size() + 1, "the transcripts absorb equally much"); for (size_t i = 0; i < r.seenp.size(); ++i) sym_assert(r.seenp[i] == r.r->seen[i], "the transcripts absorb the same"); }
// A statement that does not hold is refused by all but a few challenges: what one set of challenges lets through, another one must refuse.
template <int K> static void refused(const Data& w, const VV& in, const F& e, const char* m) { bool ok = true; for (size_t t = 0; ok && t < 2; ++t) { Run<P, Cs<K>> r; r.from = t ? 0 : 99; Cs<K> c; c.w = w; r.prove({c}, {in}); ok = r.verify(r.proof, {in}); } sym_assert(ok == e.IsZero(), m); sym_reached(ok ? "accept" : "reject"); }
#ifndef LIGHT
// honest proofs, one cell of the witness symbolic
SYM_HARNESS(gate_complete) { constexpr int K = GATE | PHASE; Data w = data(K); F e = sv("e"); switch (sym_choose(4, "cell")) { case 0: w.a[1] = e; break; case 1: w.b[1] = e; break; case 2: w.k[2] = e; break; default: w.d[1] = e; } for (size_t i = 0; i < 3; ++i) w.c[i] = w.a[i] * w.b[i + 1] + w.k[i]; hs(w); Run<P, Cs<K>> r; Cs<K> c; c.w = w; std::vector<VV> in{inst(K, w)}; r.prove({c}, in); honest(r, in, "an honest proof is accepted"); sym_reached("end"); }
SYM_HARNESS(gate_sound) { constexpr int K = GATE | PHASE; Data w = data(K); VV in = inst(K, w); F e = sv("e"); switch (sym_choose(5, "cell")) { case 0: w.c[1] += e; break; case 1: w.b[2] += e; break; case 2: in[0][2] += e; break; case 3: w.h[sym_choose(3, "row")] += e; break; default: w.err = {F(0), F(0), e}; break; } refused<K>(w, in, e, "accepted exactly if the gates hold"); }
SYM_HARNESS(instance_sound) { constexpr int K = GATE | PHASE; Data w = data(K); VV in = inst(K, w); Run<P, Cs<K>> r; Cs<K> c; c.w = w; r.prove({c}, {in}); F e = sv("e"); in[0][sym_choose(4, "row")] += e; bool ok = r.verify(r.proof, {in}); sym_assert(ok == e.IsZero(), "accepted exactly for the instance proved"); sym_reached(ok ? "accept" : "reject"); }
static void copies(size_t cell) { constexpr int K = COPY | CONST; Data w = data(K); VV in = inst(K, w); F e = sv("e"); switch (cell) { case 0: w.x[0] += e; break; case 1: w.y[1] += e; break; case 2: w.y[0] += e; break; case 3: w.x[2] += e; break; case 4: in[0][1] += e; break; default: w.y[2] += e; } refused<K>(w, in, e, "accepted exactly if copied cells agree"); }
SYM_HARNESS(copy_sound0) { copies(0); }
SYM_HARNESS(copy_sound1) { copies(1); }
SYM_HARNESS(copy_sound2) { copies(2); }
SYM_HARNESS(copy_sound3) { copies(3); }
SYM_HARNESS(copy_sound4) { copies(4); }
SYM_HARNESS(copy_sound5) { copies(5); }
SYM_HARNESS(shuffle_sound) { constexpr int K = SHUFFLE; Data w = data(K); F e = sv("e"); w.t[sym_choose(3, "cell")] += e; refused<K>(w, {}, e, "accepted exactly for a permutation"); }
#endif
// everything at once: two circuits, each element of the proof changed in turn
template <template <int> class C, int K> static void all(bool tamper) { Run<P, C<K>> r; C<K> c, d; c.w = data(K); d.w = data(K, 1); std::vector<VV> in{inst(K, c.w), inst(K, d.w)}; r.prove({c, d}, in, sym_choose(2, "split")); if (!tamper) { honest(r, in, "an honest proof is accepted"); sym_reached("end"); return; } size_t i = sym_choose(r.proof.size(), "element"); F e = sv("e"); V p = r.proof; p[i] += e; bool ok = r.verify(p, in); if (ok) { Run<P, C<K>> q; q.from = r.at[i]; q.prove({c, d}, in); p = q.proof; p[i] += e; ok = q.verify(p, in); } sym_assert(ok == e.IsZero(), "a changed proof is rejected"); sym_reached(ok ? "accept" : "reject"); }
SYM_HARNESS(all_simple) { all<Cs, kAll>(false); }
SYM_HARNESS(all_v1) { all<Cv, kAll>(false); }
SYM_HARNESS(tamper) { all<Cs, kAll>(true); }
#endif
#ifdef FORMULA
// The verifier alone: every element of the proof and every challenge but x symbolic; the commitment scheme records what it is asked to check.
#include "plonk_ref.h"
struct Op { F c, x, y; }; static std::vector<Op> ops; static bool opened;
template <bool QI> struct Spy;
namespace tachyon::zk { template <bool QI> struct UnivariatePolynomialCommitmentSchemeExtensionTraits<Spy<QI>> { constexpr static size_t kMaxExtendedDegree = kXD, kMaxExtendedSize = kXD + 1; }; }
namespace tachyon::crypto { template <bool QI> struct VectorCommitmentSchemeTraits<Spy<QI>> { using Field = F; using Commitment = A1; constexpr static size_t kMaxSize = kD + 1; constexpr static bool kIsTransparent = false, kSupportsBatchMode = false; }; }
template <class E> static F sum(const E& e) { F r = F::Zero(); size_t i = 0; for (auto& x : e) r += x * F(++i * i + 5); return r; }
template <bool QI> struct Spy : UnivariatePolynomialCommitmentSchemeExtension<Spy<QI>> {
  constexpr static bool kQueryInstance = QI; using Base = UnivariatePolynomialCommitmentSchemeExtension<Spy<QI>>; size_t N() const { return kN; } const char* Name() { return "spy"; }
  [[nodiscard]] bool DoUnsafeSetup(size_t) { return true; } template <class C> [[nodiscard]] bool DoCommit(const C& c, A1* o) const { o->v = F::Zero(); return true; } template <class C> [[nodiscard]] bool DoCommitLagrange(const C& c, A1* o) const { if constexpr (std::is_same_v<C, typename Base::Evals>) o->v = sum(c.evaluations()); else o->v = sum(c); return true; }
  template <class C, class P> [[nodiscard]] bool DoVerifyOpeningProof(const C& o, P*) const { for (auto& x : o) ops.push_back({x.poly_oracle->v, x.point, x.opening}); return opened; }
};
namespace tachyon::zk::plonk { struct Peek {}; template <> class CircuitTest<Peek, Peek> { public: template <class Vf, class K, class I, class Pr> static bool go(Vf& v, const K& k, const I& i, Pr* p, F* h) { return v.VerifyProofForTesting(k, i, p, h); } }; }
struct At { const ConstraintSystem<F>& cs; const V &a, &f, &i, &c; F adv(size_t n, int r) const { return get(cs.advice_queries(), a, n, r); } F fix(size_t n, int r) const { return get(cs.fixed_queries(), f, n, r); } F ins(size_t n, int r) const { return get(cs.instance_queries(), i, n, r); } F sel(size_t) const { sym_assert(false, "selectors have been replaced"); return F::Zero(); } F chal(size_t n) const { return c.at(n); }
  template <class Q> static F get(const Q& q, const V& e, size_t n, int r) { for (size_t k = 0; k < q.size(); ++k) if (q[k].column().index() == n && q[k].rotation().value() == r) return e.at(k); sym_assert(false, "a cell that isn't opened"); return F::Zero(); } };
template <bool QI, int K> static void formula() {
  using PS = PSx<Spy<QI>, LT>; using Evals = typename Spy<QI>::Evals; Run<P, Cs<K>> run; Cs<K> ca, cb; ca.w = data(K); cb.w = data(K, 1); std::vector<VV> in{inst(K, ca.w), inst(K, cb.w)}; run.prove({ca, cb}, in); const auto& vk = run.pk.verifying_key(); const ConstraintSystem<F>& cs = vk.constraint_system();
  Spy<QI> pcs; auto rr = std::make_unique<Rd>(); Rd* r = rr.get(); halo2::Verifier<PS> v(std::move(pcs), std::move(rr)); v.set_domain(Spy<QI>::Domain::Create(kN)); v.set_extended_domain(Spy<QI>::ExtendedDomain::Create(kN * 4));
  for (size_t i = 0; i < 400; ++i) r->in.push_back(sv("p")); size_t nc = cs.num_challenges(); for (size_t i = 0; i < nc + 4; ++i) r->ch.push_back(sv("ch")); F x = chal(50); r->ch.push_back(x);
  for (auto& a : in) for (auto& b : a) for (auto& c : b) c = sv("instance"); std::vector<std::vector<Evals>> iv; for (auto& a : in) { iv.emplace_back(); for (auto& b : a) iv.back().push_back(Evals(V(b))); }
  if constexpr (LT == kL) { // the denominators of the lookups aren't zero: where the values are in the proof is taken from a run on numbers
    V in0 = r->in; for (size_t i = 0; i < r->in.size(); ++i) r->in[i] = F(1000 + i); typename halo2::Verifier<PS>::Proof p0; F h0; std::vector<std::vector<Evals>> i0; for (auto& a : in) { i0.emplace_back(); for (auto& b : a) { V z; for (size_t i = 0; i < b.size(); ++i) z.push_back(F(7 + i)); i0.back().push_back(Evals(z)); } }
    V c0 = r->ch; for (size_t i = 0; i < c0.size(); ++i) r->ch[i] = chal(60 + i); (void)CircuitTest<Peek, Peek>::go(v, vk, i0, &p0, &h0); ops.clear(); r->in = in0; r->ch = c0; r->r = 0; r->k = 0; r->seen.clear();
    auto sy = [&](const V& a) { V o; for (auto& e : a) { size_t k = 0; while (k < in0.size() && F(1000 + k) != e) ++k; o.push_back(in0.at(k)); } return o; }; V pc(c0.begin(), c0.begin() + nc), fe = sy(p0.fixed_evals);
    for (size_t c = 0; c < 2; ++c) { V ae = sy(p0.advice_evals_vec[c]), ie; At at{cs, ae, fe, ie, pc}; auto nz = [&](const std::vector<EX>& es) { F q = F::Zero(); for (auto& e : es) q = q * c0[nc] + refeval<F>(e.get(), at); sym_assume(!(q + c0[nc + 1]).IsZero()); }; for (auto& l : cs.lookups()) { nz(l.table_expressions()); for (auto& e : l.inputs_expressions()) nz(e); } } }
  ops.clear(); opened = sym_choose(2, "opened"); typename halo2::Verifier<PS>::Proof p; F h; bool ok = CircuitTest<Peek, Peek>::go(v, vk, iv, &p, &h); sym_assert(ok == opened, "accepted exactly if the openings are");
  // challenges in order; the values between
  size_t k = 0; for (size_t i = 0; i < nc; ++i) sym_assert(p.challenges[i] == r->ch[k++], "challenge"); F th = r->ch[k++], be = r->ch[k++], ga = r->ch[k++], y = r->ch[k++]; sym_assert(r->k == nc + 5, "five challenges and those of the circuit");
  F w = F::Zero(); (void)F::GetRootOfUnity(kN, &w); F xn = x.Pow(kN); auto lag = [&](int64_t i) { F wi = w.Pow((i + kN) % kN); return wi * (xn - F::One()) * *(F(kN) * (x - wi)).Inverse(); }; size_t bf = cs.ComputeBlindingFactors(); F l0 = lag(0), ll = lag(-1 - int64_t(bf)), lb = F::Zero(); for (size_t i = 1; i <= bf; ++i) lb += lag(-int64_t(i)); F act = F::One() - ll - lb;
  F acc = F::Zero(); auto push = [&](const F& e) { acc = acc * y + e; }; size_t di = 0; std::vector<Op> want; auto op = [&](const A1& c, F pt, F e) { want.push_back({c.v, pt, e}); }; F xnext = x * w, xprev = x * *w.Inverse(), xlast = x * w.Pow(kN - 1 - bf); (void)di;
  size_t chunk = cs.ComputePermutationChunkLen(), np = cs.permutation().columns().size(); sym_assert(chunk + 2 <= cs.ComputeDegree(), "a chunk's constraint is within the degree");
  for (size_t c = 0; c < 2; ++c) {
    // instance evaluations
    V ie; if constexpr (!QI) { for (auto& q : cs.instance_queries()) { F e = F::Zero(); const V& col = in[c][q.column().index()]; for (size_t j = 0; j < col.size(); ++j) e += col[j] * lag(int64_t(j) - q.rotation().value()); ie.push_back(e); } sym_assert(ie.size() == p.instance_evals_vec[c].size(), "one evaluation per instance query"); for (size_t j = 0; j < ie.size(); ++j) sym_assert(ie[j] == p.instance_evals_vec[c][j], "instance evaluation"); } else ie = p.instance_evals_vec[c];
    At at{cs, p.advice_evals_vec[c], p.fixed_evals, ie, p.challenges};
    if (K & GATE) { F s = at.fix(cs.selector_map()[0].index(), 0); push(s * (at.adv(0, 0) * at.adv(1, 1) + at.fix(0, 0) - at.adv(2, 0))); push(s * (at.adv(2, 0) - at.ins(0, 0) * F(3) + at.adv(0, 0))); F a = at.adv(0, 1); push(s * (a * a * a * a - at.adv(3, -1))); }
    if (K & PHASE) { auto& qs = cs.gates().back().polys(); push(refeval<F>(qs[0].get(), at)); }
    if (np) { auto& z = p.permutation_product_evals_vec[c]; auto& zn = p.permutation_product_next_evals_vec[c]; auto& zl = p.permutation_product_last_evals_vec[c]; size_t nz = (np + chunk - 1) / chunk; sym_assert(z.size() == nz && zn.size() == nz && p.permutation_product_commitments_vec[c].size() == nz && zl.size() == nz, "one product per chunk"); push(l0 * (F::One() - z[0])); push(ll * (z.back() * z.back() - z.back())); for (size_t j = 1; j < nz; ++j) push(l0 * (z[j] - *zl[j - 1])); F d = F::One();
      for (size_t j = 0; j < nz; ++j) { F a = zn[j], b = z[j]; for (size_t q = j * chunk; q < np && q < (j + 1) * chunk; ++q) { auto& col = cs.permutation().columns()[q]; F e = col.type() == ColumnType::kAdvice ? at.adv(col.index(), 0) : col.type() == ColumnType::kFixed ? at.fix(col.index(), 0) : at.ins(col.index(), 0); a *= e + be * p.common_permutation_evals[q] + ga; b *= e + be * d * x + ga; d *= GetDelta<F>(); } push(act * (a - b)); } }
    auto comp = [&](const std::vector<EX>& es) { F r = F::Zero(); for (auto& e : es) r = r * th + refeval<F>(e.get(), at); return r; };
    for (size_t j = 0; j < cs.lookups().size(); ++j) { auto& a = cs.lookups()[j]; F t = comp(a.table_expressions());
      if constexpr (LT == kH) { F z = p.lookup_product_evals_vec[c][j], zn = p.lookup_product_next_evals_vec[c][j], pa = p.lookup_permuted_input_evals_vec[c][j], pp = p.lookup_permuted_input_prev_evals_vec[c][j], pt = p.lookup_permuted_table_evals_vec[c][j]; sym_assert(a.inputs_expressions().size() == 1, "one input per argument"); F f = comp(a.inputs_expressions()[0]); push(l0 * (F::One() - z)); push(ll * (z * z - z)); push(act * (zn * (pa + be) * (pt + ga) - z * (f + be) * (t + ga))); push(l0 * (pa - pt)); push(act * (pa - pt) * (pa - pp)); }
      else { F z = p.lookup_sum_evals_vec[c][j], zn = p.lookup_sum_next_evals_vec[c][j], m = p.lookup_m_evals_vec[c][j]; V f; for (auto& e : a.inputs_expressions()) f.push_back(comp(e) + be); F pr = F::One(), su = F::Zero(); for (size_t q = 0; q < f.size(); ++q) { pr *= f[q]; F o = F::One(); for (size_t u = 0; u < f.size(); ++u) if (u != q) o *= f[u]; su += o; } F ta = t + be; push(l0 * z); push(ll * z); push(act * (ta * pr * (zn - z) - (ta * su - m * pr))); } }
    for (size_t j = 0; j < cs.shuffles().size(); ++j) { auto& a = cs.shuffles()[j]; F z = p.shuffle_product_evals_vec[c][j], zn = p.shuffle_product_next_evals_vec[c][j]; push(l0 * (F::One() - z)); push(ll * (z * z - z)); push(act * (zn * (comp(a.shuffle_expressions()) + ga) - z * (comp(a.input_expressions()) + ga))); }
    // what is to be opened
    if constexpr (QI) for (size_t q = 0; q < cs.instance_queries().size(); ++q) { auto& g = cs.instance_queries()[q]; V col = in[c][g.column().index()]; col.resize(kN, F::Zero()); op(A1(sum(col)), x * w.Pow((g.rotation().value() + kN) % kN), ie[q]); }
    for (size_t q = 0; q < cs.advice_queries().size(); ++q) { auto& g = cs.advice_queries()[q]; op(p.advices_commitments_vec[c][g.column().index()], x * w.Pow((g.rotation().value() + kN) % kN), p.advice_evals_vec[c][q]); }
    { auto& pc = p.permutation_product_commitments_vec[c]; for (size_t j = 0; j < pc.size(); ++j) { op(pc[j], x, p.permutation_product_evals_vec[c][j]); op(pc[j], xnext, p.permutation_product_next_evals_vec[c][j]); } for (size_t j = pc.size(); j-- > 1;) op(pc[j - 1], xlast, *p.permutation_product_last_evals_vec[c][j - 1]); }
    for (size_t j = 0; j < cs.lookups().size(); ++j) { if constexpr (LT == kH) { op(p.lookup_product_commitments_vec[c][j], x, p.lookup_product_evals_vec[c][j]); auto& q = p.lookup_permuted_commitments_vec[c][j]; op(q.input(), x, p.lookup_permuted_input_evals_vec[c][j]); op(q.table(), x, p.lookup_permuted_table_evals_vec[c][j]); op(q.input(), xprev, p.lookup_permuted_input_prev_evals_vec[c][j]); op(p.lookup_product_commitments_vec[c][j], xnext, p.lookup_product_next_evals_vec[c][j]); } else { op(p.lookup_sum_commitments_vec[c][j], x, p.lookup_sum_evals_vec[c][j]); op(p.lookup_sum_commitments_vec[c][j], xnext, p.lookup_sum_next_evals_vec[c][j]); op(p.lookup_m_poly_commitments_vec[c][j], x, p.lookup_m_evals_vec[c][j]); } }
    for (size_t j = 0; j < cs.shuffles().size(); ++j) { op(p.shuffle_product_commitments_vec[c][j], x, p.shuffle_product_evals_vec[c][j]); op(p.shuffle_product_commitments_vec[c][j], xnext, p.shuffle_product_next_evals_vec[c][j]); }
  }
  sym_assert(h * (xn - F::One()) == acc, "the quotient is the combination of all the constraints over the vanishing polynomial");
  for (size_t q = 0; q < cs.fixed_queries().size(); ++q) { auto& g = cs.fixed_queries()[q]; op(vk.fixed_commitments()[g.column().index()], x * w.Pow((g.rotation().value() + kN) % kN), p.fixed_evals[q]); }
  for (size_t q = 0; q < np; ++q) op(vk.permutation_verifying_key().commitments()[q], x, p.common_permutation_evals[q]); F hc = F::Zero(); for (size_t q = p.vanishing_h_poly_commitments.size(); q-- > 0;) hc = hc * xn + p.vanishing_h_poly_commitments[q].v; sym_assert(p.vanishing_h_poly_commitments.size() == cs.ComputeDegree() - 1, "as many pieces as the degree needs"); op(A1(hc), x, h); op(p.vanishing_random_poly_commitment, x, p.vanishing_random_eval);
  sym_assert(ops.size() == want.size(), "as many openings"); for (size_t q = 0; q < ops.size() && q < want.size(); ++q) { sym_assert(ops[q].c == want[q].c, "opened commitment"); sym_assert(ops[q].x == want[q].x, "opened point"); sym_assert(ops[q].y == want[q].y, "opened value"); }
  // each lookup of the circuit is in one argument, with its own table
  if (K & (LOOKUP | TABLES)) { At at{cs, p.advice_evals_vec[0], p.fixed_evals, p.instance_evals_vec[0], p.challenges}; F a = sv("a"), b = sv("b"), t = sv("t"), got = F::One(), exp = F::One(); auto comp = [&](const std::vector<EX>& es) { F r = F::Zero(); for (auto& e : es) r = r * t + refeval<F>(e.get(), at); return r; }; for (auto& g : cs.lookups()) for (auto& e : g.inputs_expressions()) got *= a + b * comp(e) + comp(g.table_expressions());
    Cfg o; { ConstraintSystem<F> m; m.set_lookup_type(LT); o = Cs<K>::Configure(m); } auto tb = [&](const LookupTableColumn& l) { return at.fix(l.column().index(), 0); };
    if (K & LOOKUP) exp *= a + b * at.fix(cs.selector_map()[o.sl.index()].index(), 0) * at.adv(o.l.index(), 0) + tb(o.tb); if (K & TABLES) for (int k = 0; k < 2; ++k) { exp *= a + b * at.adv(o.u.index(), k) + tb(o.t1); exp *= a + b * (at.adv(o.z.index(), k) * t + at.adv(o.z.index(), 0)) + (tb(o.t1) * t + tb(o.t2)); } sym_assert(got == exp, "the arguments are the lookups asked for"); }
  sym_reached(ok ? "accept" : "reject");
}
SYM_HARNESS(formula_gate) { formula<false, GATE | PHASE>(); }
SYM_HARNESS(formula_copy) { formula<false, COPY | CONST>(); }
SYM_HARNESS(formula_lookup) { formula<false, LOOKUP | TABLES>(); }
SYM_HARNESS(formula_all) { formula<false, kAll & ~TABLES>(); }
SYM_HARNESS(formula_query_instance) { formula<true, kAll & ~TABLES>(); }
#endif
