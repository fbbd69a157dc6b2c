// FRI over an ideal commitment to matrices (a commitment is the matrices) and challenges the harness draws.  Oracles: Lagrange
// interpolation over the domain, the folding p(x), p(-x) -> p_e(x^2) + beta p_o(x^2), the vanishing polynomial of a coset.
#include "alg_fields.h"
#include <memory>
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/packed_field_traits_forward.h"
#include "tachyon/math/finite_fields/extension_field_traits_forward.h"
#include "tachyon/math/finite_fields/extended_packed_field_traits_forward.h"
namespace tachyon::math {  // packed rows: two lanes of the symbolic field (the packed fields themselves are F4's)
struct PK { static constexpr size_t N = 2; BabyBear v[2] = {BabyBear::Zero(), BabyBear::Zero()}; template <class C> static PK From(C c) { PK r; for (size_t i = 0; i < N; ++i) r.v[i] = c(i); return r; } const BabyBear& operator[](size_t i) const { return v[i]; } BabyBear& operator[](size_t i) { return v[i]; }
  static PK Broadcast(const BabyBear& x) { PK r; r.v[0] = r.v[1] = x; return r; } PK& operator*=(const PK& o) { v[0] *= o.v[0]; v[1] *= o.v[1]; return *this; } PK& operator+=(const PK& o) { v[0] += o.v[0]; v[1] += o.v[1]; return *this; } PK operator-(const PK& o) const { PK r; r.v[0] = v[0] - o.v[0]; r.v[1] = v[1] - o.v[1]; return r; } };
template <> struct PackedFieldTraits<BabyBear> { using PackedField = PK; };
template <> struct FiniteFieldTraits<PK> { using PrimeField = BabyBear; };
}
#include "tachyon/math/finite_fields/baby_bear/internal/baby_bear4.h"
namespace tachyon::math {
struct QK { PK c[4]; static QK Zero() { return {}; } PK& operator[](size_t i) { return c[i]; } const PK& operator[](size_t i) const { return c[i]; } QK& operator+=(const QK& o) { for (int i = 0; i < 4; ++i) c[i] += o.c[i]; return *this; } QK operator*(const PK& p) const { QK r = *this; for (int i = 0; i < 4; ++i) r.c[i] *= p; return r; }
  QK operator*(const QK& o) const { QK r; for (size_t l = 0; l < PK::N; ++l) { BabyBear4 p = BabyBear4(c[0][l], c[1][l], c[2][l], c[3][l]) * BabyBear4(o[0][l], o[1][l], o[2][l], o[3][l]); for (int i = 0; i < 4; ++i) r.c[i][l] = p[i]; } return r; } };
template <> struct ExtendedPackedFieldTraits<BabyBear4> { constexpr static bool kIsExtendedPackedField = false; using ExtendedPackedField = QK; };
}
#include "tachyon/crypto/commitments/mixed_matrix_commitment_scheme.h"
#include "tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h"
#include "tachyon/crypto/commitments/fri/two_adic_fri.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "tachyon/crypto/commitments/fri/simple_fri.h"
using namespace tachyon; using namespace tachyon::math; using namespace tachyon::crypto;
using F = BabyBear; using E4 = BabyBear4; using V = std::vector<F>; using Ix = Eigen::Index; using Dom = TwoAdicMultiplicativeCoset<F>;
static F sv(const char* n) { return symv<F>(n); }
static E4 se(const char* n) { return E4(sv(n), sv(n), sv(n), sv(n)); }
static F one() { return F::One(); }
static F gen(size_t n) { F w = F::Zero(); (void)F::GetRootOfUnity(n, &w); return w; }
static F shift() { return F::FromMontgomery(F::Config::kSubgroupGenerator); }
static size_t rev(size_t i, size_t bits) { size_t r = 0; for (size_t k = 0; k < bits; ++k) r |= ((i >> k) & 1) << (bits - 1 - k); return r; }
// --- the ideal commitment
template <class T> struct Ideal;
template <class T> struct ICommit { std::shared_ptr<std::vector<RowMajorMatrix<T>>> m; };
template <class T> struct IData { std::shared_ptr<std::vector<RowMajorMatrix<T>>> m; std::vector<Eigen::Map<const RowMajorMatrix<T>>> maps; };
struct IProof { bool operator==(const IProof&) const { return true; } bool operator!=(const IProof&) const { return false; } };
namespace tachyon::crypto { template <class T> struct MixedMatrixCommitmentSchemeTraits<Ideal<T>> { using Field = T; using Commitment = ICommit<T>; using ProverData = IData<T>; using Proof = IProof; }; }
template <class T> struct Ideal final : MixedMatrixCommitmentScheme<Ideal<T>> { using Field = T; using Commitment = ICommit<T>; using ProverData = IData<T>; using Proof = IProof;
  bool DoCommit(std::vector<Eigen::Map<const RowMajorMatrix<T>>>&&, Commitment*, ProverData*) const { return false; }
  bool DoCommitOwned(std::vector<RowMajorMatrix<T>>&& ms, Commitment* c, ProverData* d) const { d->m = std::make_shared<std::vector<RowMajorMatrix<T>>>(std::move(ms)); c->m = d->m; for (auto& x : *d->m) d->maps.emplace_back(x.data(), x.rows(), x.cols()); return true; }
  const std::vector<Eigen::Map<const RowMajorMatrix<T>>>& DoGetMatrices(const ProverData& d) const { return d.maps; }
  static size_t high(const std::vector<RowMajorMatrix<T>>& m) { size_t h = 0; for (auto& x : m) h = std::max<size_t>(h, x.rows()); return h; }
  bool DoCreateOpeningProof(size_t i, const ProverData& d, std::vector<std::vector<T>>* o, Proof*) const { size_t h = high(*d.m); sym_assert(i < h, "a row of the committed matrices is opened"); o->clear(); for (auto& x : *d.m) { size_t r = i / (h / x.rows()); std::vector<T> v; for (Ix c = 0; c < x.cols(); ++c) v.push_back(x(r, c)); o->push_back(v); } return true; }
  bool DoVerifyOpeningProof(const Commitment& c, absl::Span<const Dimensions> dims, size_t i, absl::Span<const std::vector<T>> o, const Proof&) const { size_t h = high(*c.m); sym_assert(dims.size() == c.m->size() && o.size() == dims.size(), "every committed matrix is opened"); sym_assert(i < h, "a row of the committed matrices is checked");
    for (size_t k = 0; k < dims.size(); ++k) { auto& x = (*c.m)[k]; sym_assert(dims[k].height == (size_t)x.rows(), "the heights of the committed matrices are checked"); size_t r = i / (h / x.rows()); if (o[k].size() != (size_t)x.cols()) return false; for (Ix q = 0; q < x.cols(); ++q) if (o[k][q] != x(r, q)) return false; } return true; } };
// --- challenges handed out by the harness, observations written down
struct Chal { std::vector<E4> ext; size_t next = 0; std::vector<size_t> idx; size_t nexti = 0; F wit = F::Zero(); std::vector<const void*> log; std::vector<E4> seen; std::vector<int> order;
  template <class T> void ObserveContainer(const ICommit<T>& c) { log.push_back(c.m.get()); order.push_back(1); }
  void ObserveContainer(const E4& e) { seen.push_back(e); order.push_back(2); }
  template <class T> T SampleExtElement() { order.push_back(3); return ext.at(next++); }
  F Grind(size_t, std::optional<F> = std::nullopt) { order.push_back(4); return wit; }
  bool CheckWitness(size_t, const F& w) { order.push_back(4); return w == wit; }
  uint32_t SampleBits(uint32_t b) { order.push_back(5); return idx.at(nexti++) & ((size_t{1} << b) - 1); } };
using PCS = TwoAdicFRI<E4, Ideal<F>, Ideal<E4>, Chal>;
static E4 cst(uint32_t s) { return E4(F(s * 7919 + 3), F(s * 104729 + 17), F(s * 31 + 5), F(s * 1299709 + 11)); }
// the polynomial with the values |v| on shift^.. domain {off w^i}, at z
static E4 interp(const V& v, F off, E4 z) { size_t n = v.size(); F w = gen(n); V x(n, F::Zero()); x[0] = off; for (size_t i = 1; i < n; ++i) x[i] = x[i - 1] * w; E4 s = E4::Zero();
  for (size_t i = 0; i < n; ++i) { E4 t = E4(v[i]); for (size_t j = 0; j < n; ++j) if (j != i) t = t * (z - E4(x[j])) * E4(*(x[i] - x[j]).Inverse()); s = s + t; } return s; }
// shapes: rounds x matrices (log rows, cols, #points)
struct Sh { uint32_t lr; size_t c; std::vector<int> pts; F off; };
static void whole(std::vector<std::vector<Sh>> sh, uint32_t blow, size_t queries, bool symch) {
  Chal ch; size_t folds = 0; for (auto& r : sh) for (auto& s : r) folds = std::max<size_t>(folds, s.lr);
  for (size_t i = 0; i <= folds; ++i) ch.ext.push_back(symch ? E4(sv("challenge"), F::Zero(), F::Zero(), F::Zero()) : cst(i + 1)); for (size_t q = 0; q < queries; ++q) ch.idx.push_back(sym_choose(1 << (folds + blow), "index"));
  Chal vch = ch; PCS pcs(Ideal<F>{}, FRIConfig<Ideal<E4>>{blow, queries, 0, Ideal<E4>{}});
  std::vector<ICommit<F>> commits; std::vector<std::unique_ptr<IData<F>>> data; PCS::OpeningPoints pts; std::vector<std::vector<Dom>> doms; std::vector<std::vector<std::vector<V>>> cols; // the trace, by column
  for (auto& r : sh) { std::vector<Dom> d; std::vector<RowMajorMatrix<F>> m; PCS::OpeningPointsForRound p; std::vector<std::vector<V>> cr;
    for (auto& s : r) { size_t n = size_t{1} << s.lr; d.push_back(Dom(s.lr, s.off)); RowMajorMatrix<F> x(n, s.c); std::vector<V> cm(s.c, V(n, F::Zero())); for (size_t i = 0; i < n; ++i) for (size_t c = 0; c < s.c; ++c) { x(i, c) = sv("trace"); cm[c][i] = x(i, c); } m.push_back(std::move(x)); std::vector<E4> ps; for (int k : s.pts) ps.push_back(cst(40 + k)); p.push_back(ps); cr.push_back(cm); }
    ICommit<F> c; auto pd = std::make_unique<IData<F>>(); sym_assert(pcs.Commit(d, m, &c, pd.get()), "matrices are committed to"); commits.push_back(c); data.push_back(std::move(pd)); doms.push_back(std::move(d)); pts.push_back(p); cols.push_back(cr); }
  PCS::OpenedValues opened; PCS::FRIProof proof; sym_assert(pcs.CreateOpeningProof(data, pts, ch, &opened, &proof), "an opening proof is made");
  bool vals = opened.size() == sh.size();
  for (size_t r = 0; vals && r < sh.size(); ++r) { vals = vals && opened[r].size() == sh[r].size(); for (size_t m = 0; vals && m < sh[r].size(); ++m) { vals = vals && opened[r][m].size() == sh[r][m].pts.size(); for (size_t p = 0; vals && p < sh[r][m].pts.size(); ++p) { vals = vals && opened[r][m][p].size() == sh[r][m].c; for (size_t c = 0; vals && c < sh[r][m].c; ++c) sym_assert(opened[r][m][p][c] == interp(cols[r][m][c], sh[r][m].off, pts[r][m][p]), "an opened value is the value of the committed polynomial"); } } }
  sym_assert(vals, "every matrix is opened at every point asked for");
  sym_assert(proof.commit_phase_commits.size() == folds && proof.query_proofs.size() == queries, "one commitment per folding and one answer per query");
  Chal w = vch; sym_assert(pcs.VerifyOpeningProof(commits, doms, pts, opened, proof, w), "an honest opening is accepted");
  sym_assert(w.order == ch.order && w.log == ch.log, "prover and verifier run the same transcript"); bool same = w.seen.size() == ch.seen.size(); for (size_t i = 0; same && i < w.seen.size(); ++i) same = w.seen[i] == ch.seen[i]; sym_assert(same, "prover and verifier observe the same values");
  if (!symch) { // any wrong value, or a wrong final value, is refused (the challenges are fixed and not zero)
    size_t k = sym_choose(2, "lie"); F d = sv("lie"); sym_assume(!d.IsZero());
    if (k == 0) { PCS::OpenedValues o = opened; size_t r = sym_choose(o.size(), "round"), m = sym_choose(o[r].size(), "matrix"), p = sym_choose(o[r][m].size(), "point"), c = sym_choose(o[r][m][p].size(), "column"); o[r][m][p][c] += E4(d); Chal x = vch; sym_assert(!pcs.VerifyOpeningProof(commits, doms, pts, o, proof, x), "a wrong opened value is refused"); }
    else { PCS::FRIProof q = proof; q.final_eval += E4(d); Chal x = vch; sym_assert(!pcs.VerifyOpeningProof(commits, doms, pts, opened, q, x), "a wrong final value is refused"); q = proof; q.pow_witness += d; Chal y = vch; sym_assert(!pcs.VerifyOpeningProof(commits, doms, pts, opened, q, y), "a wrong proof of work is refused"); q = proof; q.query_proofs.pop_back(); Chal z = vch; sym_assert(!pcs.VerifyOpeningProof(commits, doms, pts, opened, q, z), "a missing query is refused"); q = proof; q.commit_phase_commits.pop_back(); Chal u = vch; sym_assert(!pcs.VerifyOpeningProof(commits, doms, pts, opened, q, u), "a missing folding is refused");
      for (int k = 0; k < 6; ++k) { PCS::OpenedValues o2 = opened; if (k == 0) o2.pop_back(); else if (k == 1) o2[0].pop_back(); else if (k == 2) o2[0][0].pop_back(); else if (k == 3) o2.push_back(o2[0]); else if (k == 4) o2[0].push_back(o2[0][0]); else o2[0][0].push_back(o2[0][0][0]); Chal x2 = vch; sym_assert(!pcs.VerifyOpeningProof(commits, doms, pts, o2, proof, x2), k < 3 ? "missing opened values are refused" : "additional opened values are refused"); }
      q = proof; q.query_proofs[0].input_proof.pop_back(); Chal t = vch; sym_assert(!pcs.VerifyOpeningProof(commits, doms, pts, opened, q, t), "a missing round is refused"); PCS::OpenedValues o = opened; o[0][0][0].pop_back(); Chal s = vch; sym_assert(!pcs.VerifyOpeningProof(commits, doms, pts, o, proof, s), "a missing opened value is refused");
      q = proof; q.query_proofs[0].commit_phase_openings[0].sibling_value += E4(d); Chal r = vch; sym_assert(!pcs.VerifyOpeningProof(commits, doms, pts, opened, q, r), "a wrong sibling is refused"); q = proof; q.query_proofs[0].input_proof[0].opened_values[0][0] += d; Chal l = vch; sym_assert(!pcs.VerifyOpeningProof(commits, doms, pts, opened, q, l), "a wrong row is refused"); } }
  sym_reached("end"); }
SYM_HARNESS(fri_small) { size_t k = sym_choose(4, "shape"); whole({{{uint32_t(k % 2 + 1), k / 2 + 1, {1}, one()}}}, 1, 1, false); }
SYM_HARNESS(fri_blow2) { whole({{{2, 1, {1, 2}, one()}}}, 2, 1, false); }
SYM_HARNESS(fri_heights) { whole({{{2, 2, {1, 2}, one()}, {1, 1, {1}, one()}}}, 1, 1, false); }
SYM_HARNESS(fri_rounds) { whole({{{1, 1, {1}, one()}}, {{2, 1, {1, 3}, one()}, {2, 2, {3}, one()}}}, 1, 1, false); }
SYM_HARNESS(fri_coset) { whole({{{2, 2, {1}, shift()}, {1, 1, {1, 2}, shift() * shift()}}}, 1, 1, false); }
SYM_HARNESS(fri_deep) { whole({{{3, 3, {1, 2}, one()}, {1, 2, {2}, one()}}}, 1, 1, false); }
SYM_HARNESS(fri_queries) { whole({{{1, 1, {1}, one()}}}, 1, 2, false); }
SYM_HARNESS(fri_challenges) { size_t k = sym_choose(2, "shape"); whole({{{uint32_t(k + 1), 2 - k, {1}, one()}}}, 1, 1, true); }
// --- folding
SYM_HARNESS(fold) { uint32_t lg = sym_choose(4, "log"); size_t n = size_t{1} << lg; E4 beta = se("beta"); RowMajorMatrix<E4> m(n, 2); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < 2; ++j) m(i, j) = E4(sv("v"), F::Zero(), sv("v"), F::Zero());
  std::vector<E4> f = FoldMatrix(beta, m); sym_assert(f.size() == n, "folding halves"); F w = gen(2 * n), half = *F(2).Inverse();
  for (size_t i = 0; i < n; ++i) { F x = w.Pow(rev(i, lg)); E4 e = (m(i, 0) + m(i, 1)) * E4(half), o = (m(i, 0) - m(i, 1)) * E4(half) * E4(*x.Inverse()); sym_assert(f[i] == e + beta * o, "a fold is even part plus beta times odd part"); sym_assert(FoldRow(i, lg, beta, {m(i, 0), m(i, 1)}) == f[i], "folding a row agrees with folding the matrix"); } sym_reached("end"); }
// --- cosets
static E4 vanish(const Dom& d, E4 z) { E4 r = E4::One(); F x = d.domain()->offset(); for (size_t i = 0; i < d.domain()->size(); ++i) { r = r * (z - E4(x)); x = x * d.domain()->group_gen(); } return r; }
SYM_HARNESS(coset_zp) { uint32_t lg = sym_choose(4, "log"); F s = sym_choose(2, "shifted") ? sv("shift") : one(); sym_assume(!s.IsZero()); Dom d(lg, s); E4 z(sv("z"), F::Zero(), F::Zero(), F::Zero()); sym_assert(d.GetZpAtPoint(z) * E4(s.Pow(size_t{1} << lg)) == vanish(d, z), "Zp vanishes exactly on the coset"); sym_assert(d.GetNextPoint(z) == z * E4(d.domain()->group_gen()), "the next point is one generator on");
  size_t m = 1 + sym_choose(9, "min"); Dom j = d.CreateDisjointDomain(m); sym_assert(j.domain()->size() >= m && j.domain()->size() / 2 < m, "a disjoint domain is the smallest that fits"); sym_assert(j.domain()->offset() == s * shift(), "a disjoint domain is shifted by the generator"); sym_reached("end"); }
SYM_HARNESS(coset_split) { uint32_t lg = sym_choose(4, "log"); uint32_t lc = sym_choose(lg + 1, "chunks"); F s = sv("shift"); sym_assume(!s.IsZero()); Dom d(lg, s); auto p = d.SplitDomains(size_t{1} << lc); size_t k = size_t{1} << lc, n = size_t{1} << lg; sym_assert(p.size() == k, "as many parts as asked for"); bool ok = true; for (size_t i = 0; i < k; ++i) { ok = ok && p[i].domain()->size() == n / k; for (size_t j = 0; ok && j < n / k; ++j) ok = p[i].domain()->GetElement(j) == d.domain()->GetElement(i + j * k); } sym_assert(ok, "the parts partition the coset, every k-th element"); sym_reached("end"); }
SYM_HARNESS(coset_point) { uint32_t lg = sym_choose(4, "log"); F s = sym_choose(2, "shifted") ? shift() : one(); Dom d(lg, s); F z = sv("z"); E4 ez(z, F::Zero(), F::Zero(), F::Zero()); F g = d.domain()->group_gen(), sl = g.Pow((size_t{1} << lg) - 1); F x = s; for (size_t i = 0; i < (size_t{1} << lg); ++i) { sym_assume(!(z - x).IsZero()); x = x * g; }
  auto l = d.GetSelectorsAtPoint(ez); E4 u = ez * E4(*s.Inverse()), zp = d.GetZpAtPoint(ez); sym_assert(l.first_row * (u - E4::One()) == zp, "the first row's selector at a point"); sym_assert(l.last_row * (u - E4(sl)) == zp, "the last row's selector at a point"); sym_assert(l.transition == u - E4(sl), "the transition's selector at a point"); sym_assert(l.inv_zeroifier * zp == E4::One(), "the inverse of the vanishing polynomial at a point"); sym_reached("end"); }
SYM_HARNESS(coset_coset) { uint32_t lg = sym_choose(3, "log"), up = sym_choose(3, "rate"); Dom d(lg, one()); F s = shift() * F(1 + sym_choose(2, "s")); Dom c(lg + up, s); auto l = d.GetSelectorsOnCoset(c); size_t n = size_t{1} << (lg + up); sym_assert(l.first_row.size() == n && l.last_row.size() == n && l.transition.size() == n && l.inv_zeroifier.size() == n, "one selector per point of the coset"); F x = s; bool ok = true;
  for (size_t i = 0; i < n; ++i) { auto p = d.GetSelectorsAtPoint(E4(x)); ok = ok && E4(l.first_row[i]) == p.first_row && E4(l.last_row[i]) == p.last_row && E4(l.transition[i]) == p.transition && E4(l.inv_zeroifier[i]) == p.inv_zeroifier; x = x * c.domain()->group_gen(); } sym_assert(ok, "the selectors on a coset are those at its points"); sym_reached("end"); }
// --- SimpleFRI: one Merkle tree (uninterpreted hash; a leaf is its own hash) per layer
namespace sim { using F = bn254::Fr; using V = std::vector<F>; static F sv(const char* n) { return symv<F>(n); } static F one() { return F::One(); } static F gen(size_t n) { F w = F::Zero(); (void)F::GetRootOfUnity(n, &w); return w; }
struct Hasher : BinaryMerkleHasher<F, F> { F ComputeLeafHash(const F& l) const override { return l; } F ComputeParentHash(const F& a, const F& b) const override { return symuf<F>("node", {a, b}); } };
struct Layer : BinaryMerkleTreeStorage<F> { V h; void Allocate(size_t n) override { h.assign(n, F::Zero()); } size_t GetSize() const override { return h.size(); } const F& GetHash(size_t i) const override { return h.at(i); } void SetHash(size_t i, const F& x) override { h.at(i) = x; } };
struct Layers : SimpleFRIStorage<F> { std::vector<Layer> l; void Allocate(size_t n) override { l.resize(n); } BinaryMerkleTreeStorage<F>* GetLayer(size_t i) override { return &l.at(i); } };
struct Wr : TranscriptWriterImpl<F, true> { V ch, out, seen; size_t k = 0; std::vector<int> order; F SqueezeChallenge() override { order.push_back(2); return ch.at(k++); } bool WriteToTranscript(const F& v) override { order.push_back(1); seen.push_back(v); return true; } bool DoWriteToProof(const F& v) override { out.push_back(v); return true; } };
struct Rd : TranscriptReaderImpl<F, true> { V ch, in, seen; size_t k = 0; mutable size_t r = 0; std::vector<int> order; F SqueezeChallenge() override { order.push_back(2); return ch.at(k++); } bool WriteToTranscript(const F& v) override { order.push_back(1); seen.push_back(v); return true; } bool DoReadFromProof(F* v) const override { if (r >= in.size()) return false; *v = in[r++]; return true; } };
template <uint32_t K> static void simple() { constexpr size_t N = size_t{1} << K; using S = SimpleFRI<F, N - 1>; auto dom = S::Domain::Create(N); Layers st; Hasher h; S s(dom.get(), &st, &h);
  size_t deg = sym_choose(N + 1, "coefficients"); V c; for (size_t i = 0; i < deg; ++i) c.push_back(sv("c")); if (deg) sym_assume(!c.back().IsZero()); typename S::Poly p{UnivariateDenseCoefficients<F, N - 1>{V(c)}};
  Wr w; for (size_t i = 0; i < K; ++i) w.ch.push_back(sv("beta")); if (!s.Commit(p, &w)) { V cur = c; cur.resize(N, F::Zero()); bool zero = false; for (uint32_t k = 0; k < K && !zero; ++k) { bool z = true; for (auto& x : cur) z = z && x.IsZero(); zero = z; V nx; for (size_t i = 0; i < cur.size(); i += 2) nx.push_back(cur[i] + w.ch[k] * cur[i + 1]); cur = nx; } sym_assert(zero, "only a polynomial that folds to zero is not committed to"); return; } sym_assert(w.out.size() == K + 1, "one root per layer and the constant");
  // the layers hold the evaluations of the successive foldings
  V cur = c; cur.resize(N, F::Zero()); for (uint32_t k = 0; k < K; ++k) { size_t n = N >> k; F g = gen(n), x = one(); for (size_t i = 0; i < n; ++i) { F e = F::Zero(), pw = one(); for (auto& a : cur) { e = e + a * pw; pw = pw * x; } sym_assert(st.l[k].h[n - 1 + i] == e, "a layer holds the evaluations of the folded polynomial"); x = x * g; } V nx; for (size_t i = 0; i < cur.size(); i += 2) nx.push_back(cur[i] + w.ch[k] * cur[i + 1]); cur = nx; } sym_assert(w.out[K] == cur[0], "the last value is the last folding");
  size_t q = sym_choose(2 * N, "index"); SimpleFRIProof<F> pr; sym_assert(s.CreateOpeningProof(q, &pr), "an opening proof is made"); auto rd = [&] { Rd r; r.ch = w.ch; r.in = w.out; return r; };
  { Rd r = rd(); sym_assert(s.VerifyOpeningProof(r, q, pr), "an honest opening is accepted"); bool eq = r.order == w.order && r.seen.size() == w.seen.size(); for (size_t i = 0; eq && i < r.seen.size(); ++i) eq = r.seen[i] == w.seen[i]; sym_assert(eq, "prover and verifier run the same transcript"); }
  size_t q2 = sym_choose(2 * N, "other"); { Rd r = rd(); sym_assert(s.VerifyOpeningProof(r, q2, pr) == (q % N == q2 % N), "an opening is accepted at its own index only"); }
  F d = sv("lie"); sym_assume(!d.IsZero()); { Rd r = rd(); r.in[K] = r.in[K] + d; sym_assert(!s.VerifyOpeningProof(r, q, pr), "a wrong constant is refused"); } if (K > 1) { SimpleFRIProof<F> p2 = pr; p2.evaluations.back() = p2.evaluations.back() + d; Rd r = rd(); sym_assert(!s.VerifyOpeningProof(r, q, p2) , "a wrong evaluation is refused"); } sym_reached("end"); }
}
SYM_HARNESS(simple_1) { sim::simple<1>(); }
SYM_HARNESS(simple_2) { sim::simple<2>(); }
SYM_HARNESS(simple_3) { sim::simple<3>(); }
static void init() { E4::Init(); bn254::Fr::Init(); }
SYM_INIT(init)
