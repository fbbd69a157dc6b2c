// Polynomial commitments in a pairing group written additively: a point s G is the symbolic field element s, e(aG, bH) = ab.
// tau, coefficients, blinds and challenges are symbolic; evaluation points are distinct constants (the code orders them).  Oracle: the pairing equations in the field.
#include "toy_pairing.h"
static constexpr size_t N = 8; using SH = SHPlonk<toy::Curve, N - 1, A1>; using GW = GWC<toy::Curve, N - 1, A1>; using Poly = SH::Poly;
static Poly poly(const V& c) { return Poly(UnivariateDenseCoefficients<F, N - 1>(c, true)); }
// --- the commitments
static F lag(size_t n, size_t i, F tau) { F w = F::Zero(); (void)F::GetRootOfUnity(n, &w); F r = F::One(), wi = w.Pow(i); for (size_t j = 0; j < n; ++j) if (j != i) r = r * (tau - w.Pow(j)) * *(wi - w.Pow(j)).Inverse(); return r; }
template <class C> static void commits() { size_t n = size_t{1} << sym_choose(4, "log"); F tau = sv("tau"); { F w = F::Zero(); (void)F::GetRootOfUnity(n, &w); F x = F::One(); for (size_t i = 0; i < n; ++i) { sym_assume(!(tau - x).IsZero()); x = x * w; } } KZG<A1, N - 1, C> k; sym_assert(k.UnsafeSetup(n, tau), "set up"); sym_assert(k.N() == n, "N"); F p = F::One(); bool ok = k.g1_powers_of_tau().size() == n && k.g1_powers_of_tau_lagrange().size() == n; sym_assert(ok, "one power and one Lagrange point per coefficient"); for (size_t i = 0; i < n; ++i) { sym_assert(k.g1_powers_of_tau()[i].v == p, "powers of tau"); sym_assert(k.g1_powers_of_tau_lagrange()[i].v == lag(n, i, tau), "Lagrange basis at tau"); p = p * tau; }
  size_t m = sym_choose(n + 2, "size"); V c = svv(m, "c"); C out(F(99)), lo(F(98)); bool a = k.Commit(c, &out), b = k.CommitLagrange(c, &lo); sym_assert(a == (m <= n) && b == (m <= n), "vectors that fit are committed to"); if (a) { F e = F::Zero(); for (size_t i = 0; i < m; ++i) e = e + c[i] * lag(n, i, tau); sym_assert(out.v == ev(c, tau), "a commitment is the value at tau"); sym_assert(lo.v == e, "a Lagrange commitment is the value at tau of the polynomial with those values"); }
  BatchCommitmentState st(true, 2); k.ResizeBatchCommitments(2); V d = svv(n, "d"); sym_assert(k.Commit(d, st, 1) && k.CommitLagrange(d, st, 0), "batch"); auto bc = k.GetBatchCommitments(st); F e = F::Zero(); for (size_t i = 0; i < n; ++i) e = e + d[i] * lag(n, i, tau); sym_assert(bc.size() == 2 && bc[1].v == ev(d, tau) && bc[0].v == e, "a batch holds the commitments in order"); sym_assert(!st.batch_mode && st.batch_count == 0, "a batch is over once read"); sym_reached("end"); }
SYM_HARNESS(kzg_affine) { commits<A1>(); }
SYM_HARNESS(kzg_xyzz) { commits<PointXYZZ<toy::G1>>(); }
SYM_HARNESS(kzg_jacobian) { commits<JacobianPoint<toy::G1>>(); }
SYM_HARNESS(kzg_downsize) { F tau = sv("tau"); KZG<A1, N - 1, A1> k; { F w = F::Zero(); (void)F::GetRootOfUnity(8, &w); F x = F::One(); for (size_t i = 0; i < 8; ++i) { sym_assume(!(tau - x).IsZero()); x = x * w; } } (void)k.UnsafeSetup(8, tau); size_t l = sym_choose(5, "log"); size_t n = size_t{1} << l; bool ok = k.Downsize(n); sym_assert(ok == (n < 8), "only a smaller size is taken"); if (!ok) n = 8; sym_assert(k.N() == n, "N"); V c = svv(n, "c"); A1 o; sym_assert(k.Commit(c, &o) && o.v == ev(c, tau), "a commitment after downsizing"); sym_reached("end"); }
SYM_HARNESS(kzg_downsize_lagrange) { F tau = sv("tau"); KZG<A1, N - 1, A1> k; { F w = F::Zero(); (void)F::GetRootOfUnity(8, &w); F x = F::One(); for (size_t i = 0; i < 8; ++i) { sym_assume(!(tau - x).IsZero()); x = x * w; } } (void)k.UnsafeSetup(8, tau); sym_assert(k.Downsize(4), "downsized"); V c = svv(4, "c"); A1 o; F e = F::Zero(); for (size_t i = 0; i < 4; ++i) e = e + c[i] * lag(4, i, tau); bool r = k.CommitLagrange(c, &o) && o.v == e; sym_assert(r, "a Lagrange commitment after downsizing"); sym_reached("end"); }
// --- openings: patterns of (polynomial, point)
static F pt(size_t i) { return F(uint64_t{i} * i * 1000003 + 5 * i + 3); }
struct Pat { std::vector<size_t> degs; std::vector<std::pair<int, int>> q; };
static Pat pattern(size_t i) { switch (i) { case 0: return {{3}, {{0, 0}}}; case 1: return {{3, 2}, {{0, 0}, {1, 0}}}; case 2: return {{4}, {{0, 0}, {0, 1}}}; case 3: return {{3, 2}, {{0, 0}, {1, 1}}}; case 4: return {{3, 4, 2}, {{0, 1}, {0, 0}, {1, 0}, {1, 1}, {2, 2}}}; case 5: return {{4, 3, 3}, {{0, 0}, {1, 1}, {2, 1}, {2, 2}, {0, 2}}}; case 6: return {{5, 5, 5, 4, 2}, {{0, 0}, {0, 1}, {0, 2}, {1, 0}, {1, 1}, {1, 2}, {2, 2}, {2, 1}, {2, 0}, {3, 2}, {3, 3}, {4, 4}}}; case 7: return {{0, 1}, {{0, 0}, {1, 0}}}; case 9: return {{4, 4}, {{0, 0}, {0, 1}, {0, 2}, {1, 0}, {1, 3}, {1, 2}}}; case 10: return {{5, 5, 4}, {{0, 0}, {0, 1}, {0, 4}, {1, 0}, {1, 3}, {1, 4}, {2, 1}, {2, 2}, {2, 4}}}; default: return {{3, 3}, {{1, 2}, {0, 2}, {0, 3}}}; } }
template <class S> struct Setup { S s; F tau = F::Zero(); std::vector<V> c; std::vector<Poly> p; std::vector<A1> com; std::vector<PolynomialOpening<Poly>> po; std::vector<PolynomialOpening<Poly, A1>> vo; V chal; Pat pat;
  explicit Setup(size_t which, bool conc) : pat(pattern(which)) { tau = sv("tau"); for (int i = 0; i < 8; ++i) { F w = F::Zero(); (void)F::GetRootOfUnity(N, &w); sym_assume(!(tau - w.Pow(i)).IsZero()); } (void)s.UnsafeSetup(N, tau); for (size_t d : pat.degs) { V x = svv(which < 9 ? d : 1, "c"); for (size_t i = 1; which >= 9 && i < d; ++i) x.push_back(F(i * i + 3 * i + 11 * p.size() + 1)); c.push_back(x); p.push_back(poly(x)); } com.resize(p.size()); for (size_t i = 0; i < p.size(); ++i) { sym_assert(s.Commit(p[i], &com[i]), "committed"); sym_assert(com[i].v == ev(c[i], tau), "a commitment is the value at tau"); }
    for (auto& q : pat.q) { po.push_back({base::Ref<const Poly>(&p[q.first]), pt(q.second), ev(c[q.first], pt(q.second))}); vo.push_back({base::Ref<const A1>(&com[q.first]), pt(q.second), ev(c[q.first], pt(q.second))}); } for (int i = 0; i < 3; ++i) chal.push_back(conc ? F(uint64_t(i) * 77777 + 12345) : sv("challenge")); if (!conc) for (int i = 0; i < 5; ++i) { sym_assume(!(chal[2] - pt(i)).IsZero()); sym_assume(!(chal[1] - pt(i)).IsZero()); } }
  Rd rd(const Wr& w) { Rd r; r.ch = chal; r.in = w.out; return r; } };
template <class S> static void complete(size_t lo, size_t hi) { Setup<S> t(lo + sym_choose(hi - lo, "pattern"), false); Wr w; w.ch = t.chal; sym_assert(t.s.CreateOpeningProof(t.po, &w), "an opening proof is made"); Rd r = t.rd(w); sym_assert(t.s.VerifyOpeningProof(t.vo, &r), "an honest opening is accepted"); sym_assert(r.r == w.out.size(), "the verifier reads the whole proof"); bool eq = r.seen.size() >= w.seen.size(); std::vector<F> a, b; for (auto& x : w.seen) a.push_back(x); for (auto& x : r.seen) b.push_back(x); size_t k = std::min(a.size(), b.size()); for (size_t i = 0; eq && i < k; ++i) eq = a[i] == b[i]; sym_assert(eq, "prover and verifier run the same transcript"); sym_reached("end"); }
// a wrong opening, or a wrong piece of the proof, is refused (fixed challenges)
template <class S> static void lie(size_t lo, size_t hi) { Setup<S> t(lo + sym_choose(hi - lo, "pattern"), true); Wr w; w.ch = t.chal; (void)t.s.CreateOpeningProof(t.po, &w); F d = sv("lie"); sym_assume(!d.IsZero()); size_t k = sym_choose(t.vo.size() + w.out.size(), "where"); if (k < t.vo.size()) { t.vo[k].opening = t.vo[k].opening + d; Rd r = t.rd(w); sym_assert(!t.s.VerifyOpeningProof(t.vo, &r), "a wrong opening is refused"); } else { sym_assume(!(t.tau - t.chal[2]).IsZero()); for (int i = 0; i < 5; ++i) { sym_assume(!(t.tau - pt(i)).IsZero()); } Rd r = t.rd(w); r.in[k - t.vo.size()] = r.in[k - t.vo.size()] + d; sym_assert(!t.s.VerifyOpeningProof(t.vo, &r), "a wrong proof element is refused"); } { Rd r = t.rd(w); r.in.pop_back(); sym_assert(!t.s.VerifyOpeningProof(t.vo, &r), "a short proof is refused"); } sym_reached("end"); }
SYM_HARNESS(shplonk_few) { complete<SH>(0, 4); }
SYM_HARNESS(shplonk_many) { complete<SH>(4, 6); }
SYM_HARNESS(shplonk_full) { complete<SH>(6, 7); }
SYM_HARNESS(shplonk_edge) { complete<SH>(7, 9); }
SYM_HARNESS(shplonk_ends) { complete<SH>(9, 10); }
SYM_HARNESS(shplonk_three) { complete<SH>(10, 11); }
SYM_HARNESS(gwc_few) { complete<GW>(0, 4); }
SYM_HARNESS(gwc_many) { complete<GW>(4, 6); }
SYM_HARNESS(gwc_full) { complete<GW>(6, 7); }
SYM_HARNESS(gwc_edge) { complete<GW>(7, 9); }
SYM_HARNESS(gwc_ends) { complete<GW>(9, 10); }
SYM_HARNESS(gwc_three) { complete<GW>(10, 11); }
SYM_HARNESS(shplonk_lie) { lie<SH>(0, 9); }
SYM_HARNESS(gwc_lie) { lie<GW>(0, 9); }
// --- written and read back
template <class S> static void copied() { Setup<S> t(sym_choose(2, "pattern") * 5, true); base::Uint8VectorBuffer b; sym_assert(b.Grow(base::EstimateSize(t.s)) && b.Write(t.s) && b.Done(), "written"); b.set_buffer_offset(0); S u; sym_assert(b.Read(&u), "read back"); sym_assert(u.N() == t.s.N() && u.s_g2().v == t.tau, "the same parameters"); Wr w; w.ch = t.chal; sym_assert(u.CreateOpeningProof(t.po, &w), "a proof by the copy"); Rd r = t.rd(w); sym_assert(t.s.VerifyOpeningProof(t.vo, &r), "the original accepts it"); Rd q = t.rd(w); sym_assert(u.VerifyOpeningProof(t.vo, &q), "the copy accepts it"); sym_reached("end"); }
SYM_HARNESS(shplonk_copy) { copied<SH>(); }
SYM_HARNESS(gwc_copy) { copied<GW>(); }
// --- Pedersen
SYM_HARNESS(pedersen) { size_t n = 1 + sym_choose(5, "n"); std::vector<A1> g; for (size_t i = 0; i < n; ++i) g.push_back(A1(sv("g"))); A1 h(sv("h")); Pedersen<A1, 8, A1> p(h, g); V v = svv(n, "v"); F r = sv("r"), e = r * h.v; for (size_t i = 0; i < n; ++i) e = e + v[i] * g[i].v; A1 o(F(5)); sym_assert(p.Commit(v, r, &o), "committed"); sym_assert(o.v == e, "a Pedersen commitment is sum v_i g_i + r h"); Pedersen<A1, 8, PointXYZZ<toy::G1>> px(h, g); PointXYZZ<toy::G1> ox(F(5)); sym_assert(px.Commit(v, r, &ox) && ox.v == e, "in another representation"); Pedersen<A1, 8, JacobianPoint<toy::G1>> pj(h, g); JacobianPoint<toy::G1> oj(F(5)); sym_assert(pj.Commit(v, r, &oj) && oj.v == e, "in a third representation"); V w = svv(n + 1, "w"); A1 z; sym_assert(!p.Commit(w, r, &z), "too many values are refused");
  base::Uint8VectorBuffer b; sym_assert(b.Grow(base::EstimateSize(p)) && b.Write(p) && b.Done(), "written"); b.set_buffer_offset(0); Pedersen<A1, 8, A1> u; sym_assert(b.Read(&u) && u.h() == h && u.generators() == g, "read back"); sym_reached("end"); }
SYM_HARNESS(pedersen_batch) { size_t n = 2; std::vector<A1> g; for (size_t i = 0; i < n; ++i) g.push_back(A1(sv("g"))); A1 h(sv("h")); Pedersen<A1, 8, A1> p(h, g); p.SetBatchMode(2); V v = svv(n, "v"), w = svv(n, "w"); F r = sv("r"), s = sv("s"); sym_assert(p.Commit(v, r, size_t{0}) && p.Commit(w, s, size_t{1}), "committed"); auto c = p.GetBatchCommitments(); sym_assert(c.size() == 2, "as many as asked for"); F a = v[0] * g[0].v + v[1] * g[1].v, b = w[0] * g[0].v + w[1] * g[1].v; sym_assert(c[0].v == a + r * h.v && c[1].v == b + s * h.v, "a batch of Pedersen commitments hides with the random values"); sym_reached("end"); }
static void init() { F::Init(); }
SYM_INIT(init)
