// Dense and sparse matrices over a symbolic field. Oracle: index arithmetic written out.
#include "alg_fields.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/packed_field_traits_forward.h"
namespace tachyon::math {  // packed rows: two lanes of the symbolic field
struct PK { static constexpr size_t N = 3; BabyBear v[3]; template <class C> static PK From(C c) { PK r; for (size_t i = 0; i < N; ++i) r.v[i] = c(i); return r; } const BabyBear& operator[](size_t i) const { return v[i]; } };
template <> struct PackedFieldTraits<BabyBear> { using PackedField = PK; };
template <> struct FiniteFieldTraits<PK> { using PrimeField = BabyBear; };
}
#include "tachyon/math/matrix/matrix_types.h"
#include "third_party/eigen3/Eigen/LU"
#include "tachyon/math/matrix/matrix_operations.h"
#include "tachyon/math/matrix/matrix_utils.h"
#include "tachyon/math/matrix/sparse/sparse_matrix.h"
using namespace tachyon::math; using namespace tachyon; using F = bn254::Fr; using Ix = Eigen::Index;
static void init() { F::Init(); BabyBear::Init(); }
SYM_INIT(init)
template <class G = F> G sv(const char* p, size_t i, size_t j) { return symv<G>((std::string(p) + std::to_string(i) + "_" + std::to_string(j)).c_str()); }
template <class Mt> Mt mat(const char* n, Ix r, Ix c) { using G = typename Mt::Scalar; Mt m(r, c); for (Ix i = 0; i < r; ++i) for (Ix j = 0; j < c; ++j) m(i, j) = sv<G>(n, i, j); return m; }
template <class A, class B> void mulmm() {
  Ix r = 1 + sym_choose(3, "r"), k = 1 + sym_choose(3, "k"), c = 1 + sym_choose(3, "c"); A a = mat<A>("a", r, k); B b = mat<B>("b", k, c);
  for (int w = 0; w < 2; ++w) { auto m = w ? MulMatMat(a, b) : MulMatMatSerial(a, b); sym_assert(m.rows() == r && m.cols() == c, "product shape"); for (Ix i = 0; i < r; ++i) for (Ix j = 0; j < c; ++j) { F s = F::Zero(); for (Ix t = 0; t < k; ++t) s += a(i, t) * b(t, j); sym_assert(m(i, j) == s, "matrix product"); } }
  sym_reached("end");
}
SYM_HARNESS(mul_mat_mat_cc) { mulmm<Matrix<F>, Matrix<F>>(); }
SYM_HARNESS(mul_mat_mat_rc) { mulmm<RowMajorMatrix<F>, ColMajorMatrix<F>>(); }
SYM_HARNESS(mul_mat_vec) {
  Ix r = 1 + sym_choose(4, "r"), k = 1 + sym_choose(4, "k"); Matrix<F> a = mat<Matrix<F>>("a", r, k); RowMajorMatrix<F> v = mat<RowMajorMatrix<F>>("v", 2, k); Matrix<F> vc = v.transpose(); Vector<F> x = vc.col(1);
  auto ok = [&](const Vector<F>& y) { sym_assert(y.size() == r, "result length is the number of rows"); for (Ix i = 0; i < r; ++i) { F s = F::Zero(); for (Ix t = 0; t < k; ++t) s += a(i, t) * v(1, t); sym_assert(y[i] == s, "matrix times vector"); } };
  ok(MulMatVec(a, x)); ok(MulMatVecSerial(a, x)); ok(MulMatVec(a, v.row(1))); ok(MulMatVecSerial(a, v.row(1))); ok(MulMatVec(a, vc.col(1))); ok(MulMatVecSerial(a, vc.col(1)));
  sym_reached("end");
}
SYM_HARNESS(circulant) {
  Ix n = 1 + sym_choose(5, "n"); Vector<F> v(n); for (Ix i = 0; i < n; ++i) v[i] = sv("v", i, 0); Matrix<F> c = MakeCirculant(v); sym_assert(c.rows() == n && c.cols() == n, "circulant shape"); for (Ix i = 0; i < n; ++i) for (Ix j = 0; j < n; ++j) sym_assert(c((i + j) % n, j) == v[i], "each column is the previous one rotated down"); sym_reached("end");
}
SYM_HARNESS(inverse) {
  Ix n = 1 + sym_choose(3, "n"); Matrix<F> a = mat<Matrix<F>>("a", n, n); if (n == 3) { a(0, 1) = F(1); a(1, 2) = F(2); a(2, 0) = F::Zero(); a(2, 2) = F(3); a(0, 2) = F::Zero(); } F d = a.determinant();
  F e = n == 1 ? a(0, 0) : n == 2 ? a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0) : a(0, 0) * (a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1)) - a(0, 1) * (a(1, 0) * a(2, 2) - a(1, 2) * a(2, 0)) + a(0, 2) * (a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0));
  sym_assert(d == e, "determinant"); if (d.IsZero()) { sym_reached("singular"); return; } Matrix<F> i = a.inverse(); Matrix<F> p = a * i; for (Ix r = 0; r < n; ++r) for (Ix c = 0; c < n; ++c) sym_assert(p(r, c) == (r == c ? F::One() : F::Zero()), "A * A^-1 = I"); sym_reached("end");
}
SYM_HARNESS(pack) {
  Ix r = 1 + sym_choose(4, "r"), c = sym_choose(8, "c"); using Mt = RowMajorMatrix<BabyBear>; Mt m = mat<Mt>("m", r, c); Ix w = sym_choose(r, "row");
  auto h = PackRowHorizontallyPadded(m.row(w)); sym_assert(h.size() == size_t(c + 2) / 3, "packed row length"); for (size_t i = 0; i < h.size() * 3; ++i) sym_assert(h[i / 3][i % 3] == (i < size_t(c) ? m(w, i) : BabyBear::Zero()), "packed row is the row padded with zeros");
  auto v = PackRowVertically<PK>(m, w); sym_assert(v.size() == size_t(c), "packed columns"); for (Ix i = 0; i < c; ++i) for (Ix k = 0; k < 3; ++k) sym_assert(v[i][k] == m((w + k) % r, i), "packed columns wrap around the rows"); sym_reached("end");
}
SYM_HARNESS(split) {
  Ix r = 1 + sym_choose(5, "r"), k = 1 + sym_choose(5, "k"); sym_assume(k <= r); using Mt = RowMajorMatrix<F>; Mt m = mat<Mt>("m", r, 2); auto p = SplitMat(k, m); sym_assert(Ix(p.size()) == k, "number of parts"); for (Ix i = 0; i < k; ++i) { sym_assert(p[i].rows() == r - k + 1 && p[i].cols() == 2, "part shape"); for (Ix a = 0; a < p[i].rows(); ++a) for (Ix b = 0; b < 2; ++b) sym_assert(p[i](a, b) == m(i + a, b), "part contents"); }
  auto v = Map(m); for (Ix i = 0; i < r; ++i) for (Ix j = 0; j < 2; ++j) sym_assert(v(i, j) == m(i, j), "Map views the matrix"); sym_reached("end");
}
// sparse matrices: a 3x3 support pattern, symbolic non-zero values
using ELL = ELLSparseMatrix<F>; using CSR = CSRSparseMatrix<F>;
SYM_HARNESS(sparse) {
  static const unsigned pats[] = {0, 1, 0x100, 0x1ff, 0x0e0, 0x049, 0x111, 0x0c1, 0x02c, 0x1c0, 0x007, 0x092}; unsigned p = pats[sym_choose(12, "pattern")]; std::vector<ELL::Elements> rows(3); CSR::Elements es; std::vector<size_t> ptr{0}; F a[3][3]; size_t nz = 0, mc = 0;
  for (size_t i = 0; i < 3; ++i) { for (size_t j = 0; j < 3; ++j) { a[i][j] = F::Zero(); if (p >> (3 * i + j) & 1) { a[i][j] = sv("a", i, j); rows[i].push_back({j, a[i][j]}); es.push_back({j, a[i][j]}); ++nz; mc = std::max(mc, j + 1); } } ptr.push_back(es.size()); }
  ELL e(rows); CSR c(es, ptr); auto isell = [&](const ELL& x, const char* m) { auto d = x.GetData(); auto ix = x.GetColumnIndices(); sym_assert(d.size() == 3 && ix.size() == 3, m); for (size_t i = 0; i < 3; ++i) { sym_assert(d[i].size() == rows[i].size() && ix[i].size() == rows[i].size(), m); for (size_t k = 0; k < d[i].size(); ++k) sym_assert(ix[i][k] == rows[i][k].index && d[i][k] == rows[i][k].value, m); } sym_assert(x == e && !(x != e), m); };
  auto iscsr = [&](const CSR& x, const char* m) { auto d = x.GetData(); auto ix = x.GetColumnIndices(); sym_assert(d.size() == nz && ix.size() == nz && x.row_ptrs() == ptr, m); for (size_t k = 0; k < nz; ++k) sym_assert(ix[k] == es[k].index && d[k] == es[k].value, m); sym_assert(x == c && !(x != c), m); };
  isell(e, "ELL"); iscsr(c, "CSR"); iscsr(e.ToCSR(), "ELL to CSR"); isell(c.ToELL(), "CSR to ELL"); iscsr(CSR::FromELL(e), "CSR from ELL"); isell(ELL::FromCSR(c), "ELL from CSR");
  sym_assert(e.MaxRows() == 3 && c.MaxRows() == 3, "MaxRows"); sym_assert(e.NonZeros() == nz && c.NonZeros() == nz, "NonZeros"); sym_assert(e.MaxCols() == mc && c.MaxCols() == mc, "MaxCols"); sym_assert(e.IsSorted() && c.IsSorted(), "IsSorted");
  auto m1 = e.ToEigenSparseMatrix(), m2 = c.ToEigenSparseMatrix(); for (auto* m : {&m1, &m2}) { sym_assert(size_t(m->rows()) == 3 && size_t(m->cols()) == mc, "Eigen shape"); for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < mc; ++j) sym_assert(m->coeff(i, j) == a[i][j], "Eigen contents"); isell(ELL::FromEigenSparseMatrix(*m), "ELL from Eigen"); iscsr(CSR::FromEigenSparseMatrix(*m), "CSR from Eigen"); }
  // unsorted input
  std::vector<ELL::Elements> r2 = rows; for (auto& r : r2) std::reverse(r.begin(), r.end()); ELL u(r2); bool srt = true; for (auto& r : rows) srt = srt && r.size() < 2; sym_assert(u.IsSorted() == srt, "IsSorted"); u.Sort(); isell(u, "Sort"); CSR::Elements e2; for (auto& r : r2) for (auto& x : r) e2.push_back({x.index, x.value}); CSR w(e2, ptr); sym_assert(w.IsSorted() == srt, "IsSorted"); w.Sort(); iscsr(w, "Sort");
  F z = sv("z", 0, 0); if (nz) { CSR::Elements e3 = es; e3[0].value = z; CSR o(e3, ptr); sym_assert((o == c) == (z == es[0].value), "CSR equality"); auto r3 = rows; for (auto& r : r3) if (!r.empty()) { r[0].value = z; break; } sym_assert((ELL(r3) == e) == (z == es[0].value), "ELL equality"); } sym_reached("end");
}
