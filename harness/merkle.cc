// Merkle trees over uninterpreted hash functions (hence over every hash function). Oracle: the tree written recursively.
#include "alg_fields.h"
#include <array>
#include "tachyon/math/finite_fields/packed_field_traits_forward.h"
#include "tachyon/math/finite_fields/extension_field_traits_forward.h"
namespace tachyon::math {  // packed rows: two lanes of the symbolic field
struct PK { static constexpr size_t N = 2; BabyBear v[2]; template <class C> static PK From(C c) { PK r; for (size_t i = 0; i < N; ++i) r.v[i] = c(i); return r; } const BabyBear& operator[](size_t i) const { return v[i]; } BabyBear& operator[](size_t i) { return v[i]; } };
template <> struct PackedFieldTraits<BabyBear> { using PackedField = PK; };
template <> struct FiniteFieldTraits<PK> { using PrimeField = BabyBear; };
}
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h"
#include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/extension_field_merkle_tree_mmcs.h"
#include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h"
using namespace tachyon; using namespace tachyon::math; using namespace tachyon::crypto;
using F = BabyBear; using V = std::vector<F>; using Ix = Eigen::Index;
static F sv(const char* n) { return symv<F>(n); }
static F h2(const char* n, const V& v) { return symuf<F>((std::string(n) + "_" + std::to_string(v.size())).c_str(), v); }
// --- binary tree
struct Hasher : BinaryMerkleHasher<F, F> { F ComputeLeafHash(const F& l) const override { return h2("leaf", {l}); } F ComputeParentHash(const F& a, const F& b) const override { return h2("node", {a, b}); } };
struct Store : BinaryMerkleTreeStorage<F> { V h; std::vector<bool> set; void Allocate(size_t n) override { h.assign(n, F::Zero()); set.assign(n, false); } size_t GetSize() const override { return h.size(); }
  const F& GetHash(size_t i) const override { sym_assert(i < h.size(), "only nodes of the tree are read"); sym_assert(set[i], "a node is read after it was written"); return h[i]; } void SetHash(size_t i, const F& x) override { sym_assert(i < h.size(), "only nodes of the tree are written"); set[i] = true; h[i] = x; } };
using BT = BinaryMerkleTree<F, F, 16>;
static F broot(const V& l) { Hasher h; V a; for (auto& x : l) a.push_back(h.ComputeLeafHash(x)); while (a.size() > 1) { V b; for (size_t i = 0; i < a.size(); i += 2) b.push_back(h.ComputeParentHash(a[i], a[i + 1])); a = b; } return a[0]; }
SYM_HARNESS(binary_tree) {
  size_t n = size_t(1) << sym_choose(5, "log"); V leaves; for (size_t i = 0; i < n; ++i) leaves.push_back(sv("l")); Store s; Hasher h; BT t(&s, &h); if (size_t p = sym_choose(5, "par")) t.set_leaves_size_for_parallelization(size_t(1) << p); F root = F::Zero(); sym_assert(t.Commit(leaves, &root), "commit"); sym_assert(root == broot(leaves), "the root is the hash tree of the leaves");
  size_t i = sym_choose(n, "index"); BinaryMerkleProof<F> p; sym_assert(t.CreateOpeningProof(i, &p), "open"); sym_assert((size_t(1) << p.paths.size()) == n, "one hash per level"); F lh = h.ComputeLeafHash(leaves[i]); sym_assert(t.VerifyOpeningProof(root, lh, p), "an honest proof is accepted"); F other = root + F::One(); sym_assert(!t.VerifyOpeningProof(other, lh, p), "another root is refused");
  for (size_t d = 0; d < p.paths.size(); ++d) sym_assert(p.paths[d].left == bool(i >> d & 1), "the path tells the leaf's position"); sym_reached("end"); }
SYM_HARNESS(binary_verify) { // any proof whatsoever: accepted exactly when the hashes lead to the root
  Store s; Hasher h; BT t(&s, &h); size_t d = sym_choose(5, "depth"); BinaryMerkleProof<F> p; F leaf = sv("leaf"), root = sv("root"), x = leaf; for (size_t i = 0; i < d; ++i) { BinaryMerklePath<F> q; q.left = sym_choose(2, "left"); q.hash = sv("h"); x = q.left ? h.ComputeParentHash(q.hash, x) : h.ComputeParentHash(x, q.hash); p.paths.push_back(q); }
  bool ok = t.VerifyOpeningProof(root, leaf, p); sym_assert(ok == (x == root), "a proof is accepted exactly when it hashes to the root"); BinaryMerkleProof<F> q = p; sym_assert(q == p && !(q != p), "=="); if (d) { q.paths[d - 1].hash = q.paths[d - 1].hash + F::One(); sym_assert(q != p, "!="); q = p; q.paths[0].left = !q.paths[0].left; sym_assert(q != p, "the side is compared"); } sym_reached("end"); }
SYM_HARNESS(binary_refuse) { size_t n = sym_choose(34, "n"); V l(n, F::One()); Store s; Hasher h; BT t(&s, &h); F root = F::Zero(); bool ok = t.Commit(l, &root); sym_assert(ok == (n >= 1 && n <= 16 && !(n & (n - 1))), "exactly the power-of-two sizes up to the maximum are committed to"); sym_reached("end"); }
// --- mixed matrices
using D = std::array<F, 2>; using PD = std::array<PK, 2>;
struct H { D Hash(const V& v) const { return {h2("h0", v), h2("h1", v)}; } };
struct PH { PD Hash(const std::vector<PK>& v) const { PD r; for (size_t l = 0; l < PK::N; ++l) { V a; for (auto& x : v) a.push_back(x[l]); D d = H().Hash(a); for (size_t k = 0; k < 2; ++k) r[k][l] = d[k]; } return r; } };
static D cmp(const D& a, const D& b) { V v{a[0], a[1], b[0], b[1]}; return {h2("c0", v), h2("c1", v)}; }
struct C { template <class T> D Compress(const T& t) const { return cmp(t[0], t[1]); } };
struct PC { template <class T> PD Compress(const T& t) const { PD r; for (size_t l = 0; l < PK::N; ++l) { D a{t[0][0][l], t[0][1][l]}, b{t[1][0][l], t[1][1][l]}, d = cmp(a, b); for (size_t k = 0; k < 2; ++k) r[k][l] = d[k]; } return r; } };
template <class E> V limbs(const E& e) { if constexpr (std::is_same_v<E, F>) return {e}; else { V r; for (size_t i = 0; i < 4; ++i) r.push_back(e[i]); return r; } }
template <class E> E elem(const char* n) { if constexpr (std::is_same_v<E, F>) return sv(n); else { F a = sv(n), b = sv(n), c = sv(n), d = sv(n); return E(a, b, c, d); } }
template <class E> using M = RowMajorMatrix<E>;
static size_t ceil2(size_t n) { size_t r = 1; while (r < n) r *= 2; return r; }
template <class E> struct Spec { const std::vector<M<E>>& m; size_t top; explicit Spec(const std::vector<M<E>>& m) : m(m), top(0) { for (auto& x : m) if (size_t(x.rows()) > top) top = x.rows(); }
  D rows(size_t rows, size_t i) { V v; for (auto& x : m) if (size_t(x.rows()) == rows) for (Ix c = 0; c < x.cols(); ++c) for (auto& l : limbs<E>(x(i, c))) v.push_back(l); return H().Hash(v); }
  size_t at(size_t size) { for (auto& x : m) if (ceil2(x.rows()) == size) return x.rows(); return 0; }
  D node(size_t size, size_t i) { size_t r = at(size); if (size == ceil2(top)) return i < r ? rows(r, i) : D{F::Zero(), F::Zero()}; D d = cmp(node(size * 2, 2 * i), node(size * 2, 2 * i + 1)); if (!r) return d; return cmp(d, i < r ? rows(r, i) : D{F::Zero(), F::Zero()}); } };
struct Shape { std::vector<std::array<Ix, 2>> d; };
static const Shape shapes[] = {{{{1, 1}}}, {{{2, 1}}}, {{{4, 2}}}, {{{3, 1}}}, {{{5, 1}}}, {{{8, 1}}}, {{{4, 1}, {2, 1}}}, {{{2, 2}, {4, 1}}}, {{{1, 1}, {4, 1}}}, {{{4, 1}, {4, 2}}}, {{{2, 1}, {4, 2}, {2, 1}}}, {{{4, 1}, {1, 2}, {2, 1}}}, {{{8, 1}, {2, 1}}}, {{{5, 1}, {3, 1}}}, {{{3, 1}, {5, 1}, {1, 1}}}, {{{8, 1}, {3, 1}, {3, 2}, {1, 1}}}, {{{7, 1}, {7, 1}, {4, 1}}}, {{{6, 1}, {2, 3}, {1, 1}}}, {{{4, 1}, {8, 1}, {1, 1}, {2, 1}}}};
template <class E> void mmcs(size_t from, size_t to) {
  const Shape& sh = shapes[from + sym_choose(to - from, "shape")]; std::vector<M<E>> m; std::vector<Dimensions> dims; for (auto& d : sh.d) { M<E> x(d[0], d[1]); for (Ix i = 0; i < d[0]; ++i) for (Ix j = 0; j < d[1]; ++j) x(i, j) = elem<E>("m"); m.push_back(x); dims.push_back({size_t(d[1]), size_t(d[0])}); }
  using T = FieldMerkleTreeMMCS<E, H, PH, C, PC, 2>; T t(H{}, PH{}, C{}, PC{}); D com = {F::Zero(), F::Zero()}; typename T::ProverData pd; bool own = sym_choose(2, "owned"); auto copy = m; if (own) sym_assert(t.CommitOwned(std::move(copy), &com, &pd), "commit"); else { std::vector<Eigen::Map<const M<E>>> maps; for (auto& x : m) maps.push_back(Eigen::Map<const M<E>>(x.data(), x.rows(), x.cols())); sym_assert(t.Commit(std::move(maps), &com, &pd), "commit"); }
  Spec<E> s(m); D root = s.node(1, 0); sym_assert(com == root, "the commitment is the hash tree of the rows"); sym_assert(t.GetMatrices(pd).size() == m.size(), "matrices"); for (size_t k = 0; k < m.size(); ++k) sym_assert(t.GetMatrices(pd)[k] == m[k], "the matrices are kept in order");
  size_t idx = sym_choose(s.top, "index"); for (auto& x : m) { size_t r = idx; for (size_t z = ceil2(s.top); z > ceil2(x.rows()); z /= 2) r /= 2; if (r >= size_t(x.rows())) { sym_reached("padding"); return; } }
  std::vector<std::vector<E>> op; std::vector<D> proof; sym_assert(t.CreateOpeningProof(idx, pd, &op, &proof), "open"); sym_assert(op.size() == m.size(), "one row per matrix"); size_t lv = 0; for (size_t z = ceil2(s.top), i = idx; z > 1; z /= 2, i /= 2) { sym_assert(lv < proof.size() && proof[lv] == s.node(z, i ^ 1), "sibling"); ++lv; } sym_assert(lv == proof.size(), "one sibling per level");
  for (size_t k = 0; k < m.size(); ++k) { size_t r = idx; for (size_t z = ceil2(s.top); z > ceil2(m[k].rows()); z /= 2) r /= 2; sym_assert(op[k].size() == size_t(m[k].cols()), "row width"); for (Ix c = 0; c < m[k].cols(); ++c) sym_assert(op[k][c] == m[k](r, c), "the opened row is the committed row"); }
  sym_assert(t.VerifyOpeningProof(com, dims, idx, op, proof), "an honest opening is accepted"); sym_assert(!t.VerifyOpeningProof({com[0], com[1] + F::One()}, dims, idx, op, proof), "another commitment is refused"); sym_reached("end"); }
SYM_HARNESS(mmcs_0) { mmcs<F>(0, 6); }
SYM_HARNESS(mmcs_1) { mmcs<F>(6, 13); }
SYM_HARNESS(mmcs_2) { mmcs<F>(13, 19); }
SYM_HARNESS(mmcs_ext) { mmcs<BabyBear4>(3, 14); }
SYM_HARNESS(mmcs_verify) { // any opening whatsoever: accepted exactly when it hashes to the commitment
  const Shape& sh = shapes[sym_choose(19, "shape")]; std::vector<Dimensions> dims; std::vector<V> op; size_t top = 0; for (auto& d : sh.d) { dims.push_back({size_t(d[1]), size_t(d[0])}); V r; for (Ix j = 0; j < d[1]; ++j) r.push_back(sv("o")); op.push_back(r); if (size_t(d[0]) > top) top = d[0]; }
  std::vector<D> proof; for (size_t z = ceil2(top); z > 1; z /= 2) proof.push_back({sv("p"), sv("p")}); D com = {sv("com"), sv("com")}; size_t idx = sym_choose(ceil2(top), "index"); FieldMerkleTreeMMCS<F, H, PH, C, PC, 2> t(H{}, PH{}, C{}, PC{}); bool ok = t.VerifyOpeningProof(com, dims, idx, op, proof);
  auto inj = [&](size_t z, D& d, bool first) { V v; bool any = false; std::vector<size_t> hs; for (size_t k = 0; k < dims.size(); ++k) if (ceil2(dims[k].height) == z) { any = true; for (auto& x : op[k]) v.push_back(x); } if (any) d = first ? H().Hash(v) : cmp(d, H().Hash(v)); }; D d; size_t i = idx, z = ceil2(top); inj(z, d, true); for (auto& p : proof) { d = i & 1 ? cmp(p, d) : cmp(d, p); i /= 2; z /= 2; inj(z, d, false); }
  bool eq = d[0] == com[0] && d[1] == com[1]; sym_assert(ok == eq, "an opening is accepted exactly when it hashes to the commitment"); sym_reached("end"); }
