// Engine A runtime: rational functions over Z_p, path exploration by re-execution in forked children, and the
// decision procedure (normal forms, linear elimination, bounded Groebner bases, Z3 on the linearised goals).
#include "alg.h"
#include <gmp.h>
#include <gmpxx.h>
#include <z3++.h>
#include <glog/logging.h>
#include <algorithm>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <poll.h>
#include <unordered_map>
#include <vector>
using std::string; using std::vector; typedef uint32_t u32; typedef uint64_t u64;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
namespace alg {
const int L = 6;
struct C { u64 l[L]; };
struct Ctx { string name; u64 p[L]; int n; mpz_class P; };
static vector<Ctx*> ctxs;
static C C0() { C c; memset(&c, 0, sizeof c); return c; }
static C C1() { C c = C0(); c.l[0] = 1; return c; }
static bool cz(const C& a) { for (int i = 0; i < L; ++i) if (a.l[i]) return false; return true; }
static bool ceq(const C& a, const C& b) { return !memcmp(&a, &b, sizeof a); }
static bool cone(const C& a) { return ceq(a, C1()); }
static C cadd(Ctx* x, const C& a, const C& b) { C r = C0(); u64 cy = mpn_add_n(r.l, a.l, b.l, x->n); if (cy || mpn_cmp(r.l, x->p, x->n) >= 0) mpn_sub_n(r.l, r.l, x->p, x->n); return r; }
static C cneg(Ctx* x, const C& a) { if (cz(a)) return a; C r = C0(); mpn_sub_n(r.l, x->p, a.l, x->n); return r; }
static C csub(Ctx* x, const C& a, const C& b) { return cadd(x, a, cneg(x, b)); }
static C cmul(Ctx* x, const C& a, const C& b) { C r = C0(); if (x->n == 1) { r.l[0] = (unsigned __int128)a.l[0] * b.l[0] % x->p[0]; return r; } u64 t[2 * L], q[2 * L]; mpn_mul_n(t, a.l, b.l, x->n); mpn_tdiv_qr(q, r.l, 0, t, 2 * x->n, x->p, x->n); return r; }
static mpz_class cz2(const C& a) { mpz_class r; mpz_import(r.get_mpz_t(), L, -1, 8, 0, 0, a.l); return r; }
static C z2c(Ctx* x, const mpz_class& v) { mpz_class m; mpz_mod(m.get_mpz_t(), v.get_mpz_t(), x->P.get_mpz_t()); C r = C0(); size_t k; mpz_export(r.l, &k, -1, 8, 0, 0, m.get_mpz_t()); return r; }
static C cinv(Ctx* x, const C& a) { mpz_class r; mpz_invert(r.get_mpz_t(), cz2(a).get_mpz_t(), x->P.get_mpz_t()); return z2c(x, r); }
static C cpow(Ctx* x, C b, u64 e) { C r = C1(); for (; e; e >>= 1, b = cmul(x, b, b)) if (e & 1) r = cmul(x, r, b); return r; }
// --- random -------------------------------------------------------------------
static u64 g_rs = 88172645463325252ull;
static u64 rnd64() { g_rs ^= g_rs << 13; g_rs ^= g_rs >> 7; g_rs ^= g_rs << 17; return g_rs * 2685821657736338717ull; }
static C crnd(Ctx* x) { C r = C0(); u64 t[L], q[2]; for (int i = 0; i < x->n; ++i) t[i] = rnd64(); mpn_tdiv_qr(q, r.l, 0, t, x->n, x->p, x->n); return r; }
// --- monomials ------------------------------------------------------------------
struct Mono { vector<std::pair<u32, u32>> e; u32 deg; };
static vector<Mono> monos; static std::map<vector<std::pair<u32, u32>>, u32> monoIx; static std::unordered_map<u64, u32> monoMul;
static u32 mono(vector<std::pair<u32, u32>> e) { auto it = monoIx.find(e); if (it != monoIx.end()) return it->second; u32 d = 0; for (auto& p : e) d += p.second; u32 i = monos.size(); monoIx[e] = i; monos.push_back({std::move(e), d}); return i; }
static u32 mmul(u32 a, u32 b) { if (!a) return b; if (!b) return a; if (a > b) std::swap(a, b); u64 k = (u64)a << 32 | b; auto it = monoMul.find(k); if (it != monoMul.end()) return it->second;
  vector<std::pair<u32, u32>> r; auto &x = monos[a].e, &y = monos[b].e; size_t i = 0, j = 0; while (i < x.size() || j < y.size()) { if (j == y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]); else if (i == x.size() || y[j].first < x[i].first) r.push_back(y[j++]); else { r.push_back({x[i].first, x[i].second + y[j].second}); ++i; ++j; } }
  u32 m = mono(std::move(r)); monoMul[k] = m; return m; }
static bool mdiv(u32 a, u32 b, u32* q) { vector<std::pair<u32, u32>> r; auto &x = monos[a].e, &y = monos[b].e; size_t j = 0; for (auto& p : x) { u32 s = 0; if (j < y.size() && y[j].first < p.first) return false; if (j < y.size() && y[j].first == p.first) s = y[j++].second; if (s > p.second) return false; if (p.second > s) r.push_back({p.first, p.second - s}); } if (j < y.size()) return false; *q = mono(std::move(r)); return true; }
// degree-lexicographic order, later variables are larger
static bool mless(u32 a, u32 b) { if (a == b) return false; auto &x = monos[a], &y = monos[b]; if (x.deg != y.deg) return x.deg < y.deg; int i = (int)x.e.size() - 1, j = (int)y.e.size() - 1; while (i >= 0 && j >= 0) { if (x.e[i].first != y.e[j].first) return x.e[i].first < y.e[j].first; if (x.e[i].second != y.e[j].second) return x.e[i].second < y.e[j].second; --i; --j; } return i < j; }
// --- polynomials ------------------------------------------------------------------
struct Raw { vector<std::pair<u32, C>> t; bool zero() const { return t.empty(); } };  // sorted by monomial id
struct Poly { Ctx* x; Raw r; int v; };  // v >= 0: the bare variable v
struct Var { string name; Ctx* x; vector<std::pair<u32, int>> def; C defc; bool atom; bool uf; vector<Id> args; u32 poly; string fn; };
static vector<Var> vars; static vector<Poly> polys; static std::unordered_multimap<u64, u32> polyIx;
struct Val { Ctx* x; C c; vector<std::pair<u32, int>> f; };
static vector<Val> vals; static std::unordered_multimap<u64, u64> valIx;
static u64 hmix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
static void die(const char* why);
static size_t g_limit = 20000, g_hard = 400000;
static Raw radd(Ctx* x, const Raw& a, const Raw& b, bool sub = false) { Raw r; r.t.reserve(a.t.size() + b.t.size()); size_t i = 0, j = 0; while (i < a.t.size() || j < b.t.size()) { if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]); else if (i == a.t.size() || b.t[j].first < a.t[i].first) { r.t.push_back({b.t[j].first, sub ? cneg(x, b.t[j].second) : b.t[j].second}); ++j; } else { C c = sub ? csub(x, a.t[i].second, b.t[j].second) : cadd(x, a.t[i].second, b.t[j].second); if (!cz(c)) r.t.push_back({a.t[i].first, c}); ++i; ++j; } } return r; }
static Raw rscale(Ctx* x, Raw a, const C& c, u32 m = 0) { if (cone(c) && !m) return a; for (auto& t : a.t) { t.second = cmul(x, t.second, c); t.first = mmul(t.first, m); } if (m) std::sort(a.t.begin(), a.t.end(), [](auto& p, auto& q) { return p.first < q.first; }); return a; }
static Raw rmul(Ctx* x, const Raw& a, const Raw& b) {
  if (a.zero() || b.zero()) return {}; if (a.t.size() == 1) return rscale(x, b, a.t[0].second, a.t[0].first); if (b.t.size() == 1) return rscale(x, a, b.t[0].second, b.t[0].first);
  if (a.t.size() * b.t.size() > 40000000) die("polynomial product too large");
  std::unordered_map<u32, C> m; m.reserve(std::min<size_t>(a.t.size() * b.t.size(), 1 << 20));
  for (auto& p : a.t) for (auto& q : b.t) { u32 k = mmul(p.first, q.first); C c = cmul(x, p.second, q.second); auto it = m.find(k); if (it == m.end()) m.emplace(k, c); else it->second = cadd(x, it->second, c); }
  if (m.size() > g_hard) die("polynomial too large"); Raw r; for (auto& p : m) if (!cz(p.second)) r.t.push_back(p); std::sort(r.t.begin(), r.t.end(), [](auto& p, auto& q) { return p.first < q.first; }); return r; }
static Raw rconst(const C& c) { Raw r; if (!cz(c)) r.t.push_back({0, c}); return r; }
static u32 leadm(const Raw& r) { u32 b = r.t[0].first; for (auto& t : r.t) if (mless(b, t.first)) b = t.first; return b; }
static const C& coefOf(const Raw& r, u32 m) { auto it = std::lower_bound(r.t.begin(), r.t.end(), m, [](auto& p, u32 k) { return p.first < k; }); return it->second; }
static u32 internPoly(Ctx* x, Raw r, C* lead) {  // r primitive, non constant; returns the monic version
  *lead = r.t.back().second; if (!cone(*lead)) { C iv = cinv(x, *lead); for (auto& t : r.t) t.second = cmul(x, t.second, iv); }
  u64 h = (u64)x; for (auto& t : r.t) { h = hmix(h, t.first); h = hmix(h, t.second.l[0]); }
  auto rg = polyIx.equal_range(h); for (auto it = rg.first; it != rg.second; ++it) { Poly& p = polys[it->second]; if (p.x == x && p.r.t.size() == r.t.size()) { bool same = true; for (size_t i = 0; i < r.t.size() && same; ++i) same = p.r.t[i].first == r.t[i].first && ceq(p.r.t[i].second, r.t[i].second); if (same) return it->second; } }
  int v = -1; if (r.t.size() == 1 && monos[r.t[0].first].deg == 1) v = monos[r.t[0].first].e[0].first;
  u32 id = polys.size(); polys.push_back({x, std::move(r), v}); polyIx.emplace(h, id); return id; }
static u32 varPoly(u32 v) { return vars[v].poly; }
static u32 newVar(Ctx* x, const string& n) { u32 v = vars.size(); vars.push_back({n, x, {}, C0(), false, false, {}, 0, ""}); Raw r; r.t.push_back({mono({{v, 1}}), C1()}); C l; u32 p = internPoly(x, r, &l); vars[v].poly = p; return v; }
static Id internVal(Ctx* x, const C& c, vector<std::pair<u32, int>> f) {
  if (cz(c)) return 0; u64 h = (u64)x; for (int i = 0; i < x->n; ++i) h = hmix(h, c.l[i]); for (auto& p : f) h = hmix(hmix(h, p.first), p.second);
  auto rg = valIx.equal_range(h); for (auto it = rg.first; it != rg.second; ++it) { Val& v = vals[it->second]; if (v.x == x && ceq(v.c, c) && v.f == f) return it->second; }
  Id id = vals.size(); vals.push_back({x, c, std::move(f)}); valIx.emplace(h, id); return id; }
// split r into constant * monomial content * primitive polynomial; append factors
static void factorsOf(Ctx* x, Raw r, C* c, std::map<u32, int>* f) {
  if (r.t.size() == 1) { *c = cmul(x, *c, r.t[0].second); for (auto& p : monos[r.t[0].first].e) (*f)[varPoly(p.first)] += p.second; return; }
  std::map<u32, u32> mn; for (auto& p : monos[r.t[0].first].e) mn[p.first] = p.second; for (auto& t : r.t) { if (mn.empty()) break; std::map<u32, u32> k; for (auto& p : monos[t.first].e) { auto it = mn.find(p.first); if (it != mn.end()) k[p.first] = std::min(it->second, p.second); } mn = k; }
  if (!mn.empty()) { vector<std::pair<u32, u32>> e(mn.begin(), mn.end()); u32 m = mono(e); for (auto& t : r.t) { u32 q; mdiv(t.first, m, &q); t.first = q; } std::sort(r.t.begin(), r.t.end(), [](auto& p, auto& q) { return p.first < q.first; }); for (auto& p : mn) (*f)[varPoly(p.first)] += p.second; }
  C l; u32 id = internPoly(x, std::move(r), &l); *c = cmul(x, *c, l); (*f)[id] += 1; }
// exact division
static bool rdivExact(Ctx* x, const Raw& a, const Raw& b, Raw* q) {
  if (b.t.size() > 400 || a.t.size() > 20000) return false; auto cmp = [](u32 p, u32 r) { return mless(r, p); }; std::map<u32, C, decltype(cmp)> m(cmp); for (auto& t : a.t) m.emplace(t.first, t.second);
  u32 lb = leadm(b); C ib = cinv(x, coefOf(b, lb)); Raw res; size_t steps = 0; while (!m.empty()) { if (++steps > 20000) return false; auto it = m.begin(); u32 k; if (!mdiv(it->first, lb, &k)) return false; C c = cmul(x, it->second, ib); res.t.push_back({k, c}); for (auto& t : b.t) { u32 mm = mmul(t.first, k); C d = cmul(x, t.second, c); auto jt = m.find(mm); if (jt == m.end()) m.emplace(mm, cneg(x, d)); else { jt->second = csub(x, jt->second, d); if (cz(jt->second)) m.erase(jt); } } }
  std::sort(res.t.begin(), res.t.end(), [](auto& p, auto& r) { return p.first < r.first; }); *q = res; return true; }
// --- atoms ----------------------------------------------------------------------
static std::map<std::pair<Ctx*, vector<std::pair<u32, int>>>, u32> atomIx;
static u32 atomFor(Ctx* x, const vector<std::pair<u32, int>>& f) { auto it = atomIx.find({x, f}); if (it != atomIx.end()) return it->second; u32 v = newVar(x, "@" + std::to_string(vars.size())); vars[v].atom = true; vars[v].def = f; vars[v].defc = C1(); atomIx[{x, f}] = v; return v; }
static Raw rpow(Ctx* x, const Raw& r, int e) { Raw o = rconst(C1()); for (int i = 0; i < e; ++i) o = rmul(x, o, r); return o; }
static Raw expand(Ctx* x, const C& c, const vector<std::pair<u32, int>>& f) {
  double est = 1; for (auto& p : f) { double t = polys[p.first].r.t.size(), g = 1; for (int i = 0; i < p.second && t > 1; ++i) g = g * (t + i) / (i + 1); est *= g; }
  if (est > g_limit) { // keep monomials, make the rest opaque
    vector<std::pair<u32, int>> big; Raw o = rconst(c); for (auto& p : f) { if (polys[p.first].r.t.size() == 1) o = rmul(x, o, rpow(x, polys[p.first].r, p.second)); else big.push_back(p); }
    if (big.size() == 1 && big[0].second == 1) return rmul(x, o, polys[big[0].first].r);
    u32 v = atomFor(x, big); return rmul(x, o, polys[varPoly(v)].r); }
  Raw o = rconst(c); for (auto& p : f) o = p.second == 1 ? rmul(x, o, polys[p.first].r) : rmul(x, o, rpow(x, polys[p.first].r, p.second)); return o; }
// --- public value operations ---------------------------------------------------------
Ctx* make_ctx(const char* name, const u64* m, size_t n) { for (Ctx* c : ctxs) if (c->name == name) return c; Ctx* c = new Ctx; c->name = name; memset(c->p, 0, sizeof c->p); memcpy(c->p, m, n * 8); while (n > 1 && !m[n - 1]) --n; c->n = n; mpz_import(c->P.get_mpz_t(), n, -1, 8, 0, 0, m); ctxs.push_back(c);
  if (monos.empty()) mono({}); if (vals.empty()) vals.push_back({nullptr, C0(), {}}); return c; }
Id konst(Ctx* x, const u64* l, size_t n) { mpz_class v; mpz_import(v.get_mpz_t(), n, -1, 8, 0, 0, l); return internVal(x, z2c(x, v), {}); }
Id from_mont(Ctx* x, const u64* l, size_t n, unsigned rbits) { mpz_class v, r = 1; mpz_import(v.get_mpz_t(), n, -1, 8, 0, 0, l); r <<= rbits; mpz_invert(r.get_mpz_t(), r.get_mpz_t(), x->P.get_mpz_t()); return internVal(x, z2c(x, v * r), {}); }
Id rnd(Ctx* x) { return internVal(x, crnd(x), {}); }
Id neg(Ctx* x, Id a) { if (!a) return 0; Val v = vals[a]; return internVal(x, cneg(x, v.c), v.f); }
Id mul(Ctx* x, Id a, Id b) { if (!a || !b) return 0; const Val &p = vals[a], &q = vals[b]; C c = cmul(x, p.c, q.c); if (p.f.empty()) { auto f = q.f; return internVal(x, c, f); } if (q.f.empty()) { auto f = p.f; return internVal(x, c, f); }
  vector<std::pair<u32, int>> f; size_t i = 0, j = 0; while (i < p.f.size() || j < q.f.size()) { if (j == q.f.size() || (i < p.f.size() && p.f[i].first < q.f[j].first)) f.push_back(p.f[i++]); else if (i == p.f.size() || q.f[j].first < p.f[i].first) f.push_back(q.f[j++]); else { int e = p.f[i].second + q.f[j].second; if (e) f.push_back({p.f[i].first, e}); ++i; ++j; } }
  for (auto& z : f) if (z.second > 100000) die("degree too large"); return internVal(x, c, f); }
Id inv(Ctx* x, Id a) { if (!a) die("inverse of zero"); Val v = vals[a]; for (auto& p : v.f) p.second = -p.second; return internVal(x, cinv(x, v.c), v.f); }
static bool g_identity; static Raw g_idA, g_idB; static Ctx* g_idX;
static std::unordered_map<u64, Id> addMemo;
Id add(Ctx* x, Id a, Id b) {
  if (!a) return b; if (!b) return a; const Val &p = vals[a], &q = vals[b]; if (p.f.empty() && q.f.empty()) return internVal(x, cadd(x, p.c, q.c), {});
  if (p.f == q.f) { C c = cadd(x, p.c, q.c); auto f = p.f; return internVal(x, c, f); }
  u64 key = (a < b ? a << 32 | b : b << 32 | a); bool memo = (a | b) >> 32 == 0; if (memo) { auto it = addMemo.find(key); if (it != addMemo.end() && it->second) return it->second; }
  vector<std::pair<u32, int>> ra, rb; std::map<u32, int> com; size_t i = 0, j = 0; while (i < p.f.size() || j < q.f.size()) { u32 k; int e = 0, g = 0; if (j == q.f.size() || (i < p.f.size() && p.f[i].first < q.f[j].first)) { k = p.f[i].first; e = p.f[i++].second; } else if (i == p.f.size() || q.f[j].first < p.f[i].first) { k = q.f[j].first; g = q.f[j++].second; } else { k = p.f[i].first; e = p.f[i++].second; g = q.f[j++].second; } int m = std::min(e, g); if (m) com[k] = m; if (e > m) ra.push_back({k, e - m}); if (g > m) rb.push_back({k, g - m}); }
  C pc = p.c, qc = q.c; Raw A = expand(x, pc, ra), B = expand(x, qc, rb), S = radd(x, A, B);
  if (S.zero()) { g_identity = true; g_idX = x; g_idA = std::move(A); g_idB = std::move(B); return 0; }
  C c = C1(); if (S.t.size() > 1) for (auto& kv : com) if (kv.second < 0 && polys[kv.first].v < 0) { Raw qq; while (kv.second < 0 && S.t.size() > 1 && rdivExact(x, S, polys[kv.first].r, &qq)) { S = qq; kv.second++; } }
  factorsOf(x, std::move(S), &c, &com); vector<std::pair<u32, int>> f; for (auto& kv : com) if (kv.second) f.push_back(kv); Id r = internVal(x, c, f); if (memo) addMemo[key] = r; return r; }
// --- path state -------------------------------------------------------------------------
struct St { u64 branches = 0, asserts = 0, unsat = 0, sat = 0, unknown = 0, conc = 0, gb = 0; double z3s = 0; int undecided = 0; } S;
static vector<int> prefix, taken; static size_t prefixN; static FILE* out; static int g_wfd; static bool forced, modelOk = true; static bool inChild = false;
static std::map<u32, Raw> subst; static vector<std::pair<Ctx*, Raw>> rules; static vector<std::pair<Ctx*, Raw>> facts; static std::set<u32> nz; static vector<C> mval; static vector<char> mset; static std::set<u32> zeroP;
static vector<std::pair<string, string>> choices;  // name, hex
static vector<std::pair<string, u32>> inputs;  // name, var
static void emit(const char* k, const string& v) { fprintf(out, "%s %s\n", k, v.c_str()); fflush(out); }
static string hexC(const C& c) { return cz2(c).get_str(16); }
static bool solveModel(); static C evalVar(u32 v);
static string inputJson() { string r = "{"; bool f = true; for (auto& p : choices) { r += string(f ? "" : ", ") + "\"" + p.first + "\": \"" + p.second + "\""; f = false; } for (auto& p : inputs) { r += string(f ? "" : ", ") + "\"" + p.first + "\": \"" + hexC(evalVar(p.second)) + "\""; f = false; } return r + "}"; }
static void finish(const char* how) { emit("stat", std::to_string(S.branches) + " " + std::to_string(S.asserts) + " " + std::to_string(S.unsat) + " " + std::to_string(S.sat) + " " + std::to_string(S.unknown) + " " + std::to_string(S.conc) + " " + std::to_string(S.z3s) + " " + std::to_string(S.gb)); if (modelOk) emit("input", inputJson()); emit("end", string(how) + (forced ? " forced" : "")); fflush(out); _exit(0); }
static void die(const char* why) { if (!inChild) { fprintf(stderr, "outside of a path: %s\n", why); _exit(3); } emit("undecided", why); finish("toobig"); }
// evaluation under the model
static C evalRaw(Ctx* x, const Raw& r) { C s = C0(); for (auto& t : r.t) { C m = t.second; for (auto& p : monos[t.first].e) m = cmul(x, m, cpow(x, evalVar(p.first), p.second)); s = cadd(x, s, m); } return s; }
static C evalPoly(u32 p) { return evalRaw(polys[p].x, polys[p].r); }
static C ufEval(u32 v);
static C evalVar(u32 v) { if (v >= mset.size()) { mset.resize(vars.size(), 0); mval.resize(vars.size(), C0()); } if (mset[v]) return mval[v]; C r; Var& V = vars[v]; if (V.uf) r = ufEval(v); else if (V.atom) { r = V.defc; auto def = V.def; for (auto& p : def) r = cmul(vars[v].x, r, cpow(vars[v].x, evalPoly(p.first), p.second)); } else { auto it = subst.find(v); if (it != subst.end()) r = evalRaw(V.x, it->second); else r = crnd(V.x); } mval[v] = r; mset[v] = 1; return r; }
static C evalVal(Id a) { if (!a) return C0(); Val v = vals[a]; C r = v.c; for (auto& p : v.f) { C e = evalPoly(p.first); r = cmul(v.x, r, p.second > 0 ? cpow(v.x, e, p.second) : cz(e) ? C0() : cpow(v.x, cinv(v.x, e), -p.second)); } return r; }
static C ufEval(u32 v) { Var V = vars[v]; u64 h = 1469598103934665603ull; for (size_t i = V.fn.find('/') + 1; i < V.fn.size(); ++i) h = hmix(h, V.fn[i]); for (Id a : V.args) { C c = evalVal(a); for (int i = 0; i < V.x->n; ++i) h = hmix(h, c.l[i]); } mpz_class z = h >> 34; z = z * z + (h & 0x3fffffff); return z2c(V.x, z); }
// --- univariate roots ------------------------------------------------------------------------
typedef vector<C> U;
static void utrim(U& a) { while (!a.empty() && cz(a.back())) a.pop_back(); }
static U umul(Ctx* x, const U& a, const U& b) { if (a.empty() || b.empty()) return {}; U r(a.size() + b.size() - 1, C0()); for (size_t i = 0; i < a.size(); ++i) if (!cz(a[i])) for (size_t j = 0; j < b.size(); ++j) r[i + j] = cadd(x, r[i + j], cmul(x, a[i], b[j])); utrim(r); return r; }
static U uaddsub(Ctx* x, U a, const U& b, bool sub) { if (a.size() < b.size()) a.resize(b.size(), C0()); for (size_t i = 0; i < b.size(); ++i) a[i] = sub ? csub(x, a[i], b[i]) : cadd(x, a[i], b[i]); utrim(a); return a; }
static U umod(Ctx* x, U a, const U& m, U* quo = nullptr) { C il = cinv(x, m.back()); if (quo) quo->assign(a.size() >= m.size() ? a.size() - m.size() + 1 : 0, C0()); while (a.size() >= m.size()) { C c = cmul(x, a.back(), il); size_t s = a.size() - m.size(); if (quo) (*quo)[s] = c; for (size_t i = 0; i < m.size(); ++i) a[s + i] = csub(x, a[s + i], cmul(x, c, m[i])); utrim(a); } return a; }
static U ugcd(Ctx* x, U a, U b) { while (!b.empty()) { U r = umod(x, a, b); a = b; b = r; } if (!a.empty()) { C il = cinv(x, a.back()); for (auto& c : a) c = cmul(x, c, il); } return a; }
static U upow(Ctx* x, U b, const mpz_class& e, const U& m) { U r{C1()}; r = umod(x, r, m); for (int i = mpz_sizeinbase(e.get_mpz_t(), 2) - 1; i >= 0; --i) { r = umod(x, umul(x, r, r), m); if (mpz_tstbit(e.get_mpz_t(), i)) r = umod(x, umul(x, r, b), m); } return r; }
static bool uroot(Ctx* x, U f, C* root) {
  utrim(f); if (f.size() <= 1) return false; if (f.size() > 130) return false; U X{C0(), C1()}; U g; if (f.size() == 2) g = f; else { U xp = upow(x, umod(x, X, f), x->P, f); g = ugcd(x, f, uaddsub(x, xp, X, true)); }
  if (g.size() <= 1) return false; for (int k = 0; k < 60 && g.size() > 2; ++k) { U s{crnd(x), C1()}; U h = upow(x, s, (x->P - 1) / 2, g); h = uaddsub(x, h, U{C1()}, true); if (h.empty()) continue; U d = ugcd(x, g, h); if (d.size() > 1 && d.size() < g.size()) { U q; umod(x, g, d, &q); utrim(q); g = (rnd64() & 1) ? d : ugcd(x, q, q); if (g.size() < 2) g = d; } }
  if (g.size() != 2) return false; *root = cneg(x, cmul(x, g[0], cinv(x, g[1]))); return true; }
// univariate image in variable v (other variables evaluated)
static bool dependsOn(u32 v, u32 on, int depth = 0) { if (v == on) return true; if (depth > 50) return true; Var& V = vars[v]; if (V.uf) return false; if (V.atom) { for (auto& p : V.def) for (auto& t : polys[p.first].r.t) for (auto& e : monos[t.first].e) if (dependsOn(e.first, on, depth + 1)) return true; return false; } auto it = subst.find(v); if (it != subst.end()) { for (auto& t : it->second.t) for (auto& e : monos[t.first].e) if (dependsOn(e.first, on, depth + 1)) return true; } return false; }
static U uniRaw(Ctx* x, const Raw& r, u32 v);
static U uniVar(Ctx* x, u32 w, u32 v) { if (w == v) return U{C0(), C1()}; if (!dependsOn(w, v)) { U r{evalVar(w)}; utrim(r); return r; } if (vars[w].atom) { U r{vars[w].defc}; auto def = vars[w].def; for (auto& p : def) { U b = uniRaw(x, polys[p.first].r, v); for (int i = 0; i < p.second; ++i) { r = umul(x, r, b); if (r.size() > 130) return r; } } return r; } return uniRaw(x, subst[w], v); }
static U uniRaw(Ctx* x, const Raw& r, u32 v) { U s; for (auto& t : r.t) { U m{t.second}; for (auto& e : monos[t.first].e) { U b = uniVar(x, e.first, v); for (u32 i = 0; i < e.second && m.size() < 130; ++i) m = umul(x, m, b); } s = uaddsub(x, s, m, false); } return s; }
static void baseVars(u32 v, std::set<u32>& s) { Var& V = vars[v]; if (V.uf) { return; } if (V.atom) { for (auto& p : V.def) for (auto& t : polys[p.first].r.t) for (auto& e : monos[t.first].e) baseVars(e.first, s); return; } auto it = subst.find(v); if (it != subst.end()) { for (auto& t : it->second.t) for (auto& e : monos[t.first].e) baseVars(e.first, s); return; } s.insert(v); }
static bool factsHold() { for (auto& f : facts) if (!cz(evalRaw(f.first, f.second))) return false; for (u32 p : nz) if (cz(evalPoly(p))) return false; return true; }
static void clearModel() { mset.assign(vars.size(), 0); mval.assign(vars.size(), C0()); }
static bool solveModel() {
  for (int tries = 0; tries < 60; ++tries) { clearModel(); bool bad = false; vector<std::pair<Ctx*, Raw>> cons = rules; for (auto& s : subst) if (vars[s.first].atom || vars[s.first].uf) { Raw r; r.t.push_back({mono({{s.first, 1}}), C1()}); cons.push_back({vars[s.first].x, radd(vars[s.first].x, r, s.second, true)}); }
    for (auto& c : cons) { std::set<u32> b; for (auto& t : c.second.t) for (auto& e : monos[t.first].e) baseVars(e.first, b); vector<u32> free; for (u32 v : b) if (!mset[v]) free.push_back(v); if (free.empty()) { continue; }
      bool ok = false; for (int k = 0; k < 3 && !ok; ++k) { u32 v = k == 0 ? free.back() : free[rnd64() % free.size()]; U u = uniRaw(c.first, c.second, v); C r; vector<char> keep = mset; if (u.empty()) { ok = true; break; } if (uroot(c.first, u, &r)) { // forget everything that was evaluated through v
            for (u32 w = 0; w < mset.size(); ++w) if (mset[w] && w != v && dependsOn(w, v)) mset[w] = 0; mval[v] = r; mset[v] = 1; ok = true; } }
      if (!ok) { bad = true; break; } }
    if (bad) continue; if (factsHold()) { return true; } }
  return false; }
// --- normalisation under the facts --------------------------------------------------------------
static bool touched(const Raw& r, int depth = 0) { for (auto& t : r.t) for (auto& e : monos[t.first].e) { if (subst.count(e.first)) return true; Var& V = vars[e.first]; if (V.atom && depth < 50) for (auto& p : V.def) if (touched(polys[p.first].r, depth + 1)) return true; } return false; }
static Raw normSub(Ctx* x, const Raw& r, int depth = 0) {
  if (subst.empty() || !touched(r)) return r; Raw s; for (auto& t : r.t) { Raw m = rconst(t.second); for (auto& e : monos[t.first].e) { auto it = subst.find(e.first); Raw b; if (it != subst.end()) b = it->second; else if (vars[e.first].atom && depth < 50) { // re-expand the definition under the facts
        auto def = vars[e.first].def; C c = vars[e.first].defc; std::map<u32, int> f; bool zero = false; for (auto& p : def) { Raw n = normSub(x, polys[p.first].r, depth + 1); if (n.zero()) { zero = true; break; } C k = C1(); std::map<u32, int> g; factorsOf(x, n, &k, &g); c = cmul(x, c, cpow(x, k, p.second)); for (auto& q : g) f[q.first] += q.second * p.second; } if (zero) b = Raw(); else { vector<std::pair<u32, int>> ff; for (auto& q : f) if (q.second) ff.push_back(q); b = expand(x, c, ff); } }
      else b = polys[varPoly(e.first)].r; m = rmul(x, m, rpow(x, b, e.second)); } s = radd(x, s, m); } return s; }
// multivariate reduction by a set of polynomials
static Raw reduceBy(Ctx* x, const Raw& a, const vector<Raw>& G, const vector<u32>& lm, bool* gaveUp) {
  auto cmp = [](u32 p, u32 r) { return mless(r, p); }; std::map<u32, C, decltype(cmp)> m(cmp); for (auto& t : a.t) m.emplace(t.first, t.second); Raw res; size_t steps = 0; while (!m.empty()) { auto it = m.begin(); bool done = false; for (size_t g = 0; g < G.size() && !done; ++g) { u32 k; if (!mdiv(it->first, lm[g], &k)) continue; if (++steps > 20000 || m.size() > 20000) { *gaveUp = true; return a; } C c = cmul(x, it->second, cinv(x, coefOf(G[g], lm[g]))); for (auto& t : G[g].t) { u32 mm = mmul(t.first, k); C d = cmul(x, t.second, c); auto jt = m.find(mm); if (jt == m.end()) m.emplace(mm, cneg(x, d)); else { jt->second = csub(x, jt->second, d); if (cz(jt->second)) m.erase(jt); } } done = true; } if (!done) { res.t.push_back(*it); m.erase(it); } }
  std::sort(res.t.begin(), res.t.end(), [](auto& p, auto& r) { return p.first < r.first; }); return res; }
static bool isUnit(const Raw& r) { return r.t.size() == 1 && r.t[0].first == 0; }
// bounded Buchberger; returns true if 1 is in the ideal; *basis receives what was found
static bool groebner(Ctx* x, vector<Raw> G, vector<Raw>* basis, double tmax) {
  S.gb++; double t0 = now(); vector<u32> lm; for (auto& g : G) { if (isUnit(g)) return true; lm.push_back(leadm(g)); } vector<std::pair<int, int>> pairs; for (int i = 0; i < (int)G.size(); ++i) for (int j = 0; j < i; ++j) pairs.push_back({j, i});
  auto lcm = [](u32 a, u32 b) { std::map<u32, u32> m; for (auto& e : monos[a].e) m[e.first] = e.second; for (auto& e : monos[b].e) m[e.first] = std::max(m[e.first], e.second); return mono(vector<std::pair<u32, u32>>(m.begin(), m.end())); };
  while (!pairs.empty() && now() - t0 < tmax && G.size() < 80) { size_t bi = 0; for (size_t i = 1; i < pairs.size(); ++i) if (monos[lcm(lm[pairs[i].first], lm[pairs[i].second])].deg < monos[lcm(lm[pairs[bi].first], lm[pairs[bi].second])].deg) bi = i; auto pr = pairs[bi]; pairs.erase(pairs.begin() + bi); int i = pr.first, j = pr.second; u32 l = lcm(lm[i], lm[j]); if (monos[l].deg == monos[lm[i]].deg + monos[lm[j]].deg) continue; u32 a, b; mdiv(l, lm[i], &a); mdiv(l, lm[j], &b);
    Raw s = radd(x, rscale(x, G[i], cinv(x, coefOf(G[i], lm[i])), a), rscale(x, G[j], cinv(x, coefOf(G[j], lm[j])), b), true); bool gu = false; s = reduceBy(x, s, G, lm, &gu); if (gu || s.zero()) continue; if (isUnit(s)) return true; if (s.t.size() > 3000) continue; G.push_back(s); lm.push_back(leadm(s)); for (int k = 0; k + 1 < (int)G.size(); ++k) pairs.push_back({k, (int)G.size() - 1}); }
  if (basis) *basis = G; return false; }
static vector<Raw> gbCache; static size_t gbCacheN = (size_t)-1; static Ctx* gbCacheX; static bool contradiction = false; static u32 g_slack[2] = {0, 0};
static vector<Raw> rulesOf(Ctx* x) { vector<Raw> r; for (auto& p : rules) if (p.first == x) r.push_back(p.second); return r; }
static bool rulesProveZero(Ctx* x, const Raw& q) { auto rs = rulesOf(x); if (rs.empty()) return false; if (gbCacheN != rs.size() || gbCacheX != x) { gbCache.clear(); if (groebner(x, rs, &gbCache, 2)) { contradiction = true; return true; } gbCacheN = rs.size(); gbCacheX = x; } vector<u32> lm; for (auto& g : gbCache) lm.push_back(leadm(g)); bool gu = false; if (reduceBy(x, q, gbCache, lm, &gu).zero() && !gu) return true;
  // Rabinowitsch: q != 0 together with the known inequations
  vector<Raw> G = gbCache; static std::map<Ctx*, vector<u32>> slack; auto& sl = slack[x]; size_t k = 0; auto addNe = [&](const Raw& p) { if (k >= sl.size()) sl.push_back(newVar(x, "%s" + std::to_string(k))); Raw w = rmul(x, p, polys[varPoly(sl[k++])].r); G.push_back(radd(x, w, rconst(C1()), true)); };
  addNe(q); int cnt = 0; for (u32 n : nz) if (polys[n].x == x && cnt < 6) { bool rel = false; std::set<u32> vs; for (auto& g : rs) for (auto& t : g.t) for (auto& e : monos[t.first].e) vs.insert(e.first); for (auto& t : polys[n].r.t) for (auto& e : monos[t.first].e) if (vs.count(e.first)) rel = true; if (rel && polys[n].r.t.size() < 50) { addNe(normSub(x, polys[n].r)); cnt++; } }
  return groebner(x, G, nullptr, 3); }
static bool rulesProveNonzero(Ctx* x, const Raw& q) { auto rs = rulesOf(x); if (rs.empty()) return false; rs.push_back(q); return groebner(x, rs, nullptr, 2); }
// add the fact r = 0; false: contradiction
static bool addEq(Ctx* x, Raw r, bool log = true) {
  if (log) facts.push_back({x, r}); r = normSub(x, r); if (r.zero()) return true; if (isUnit(r)) return false;
  // a variable that occurs only linearly with a constant coefficient
  std::map<u32, int> cnt; for (auto& t : r.t) for (auto& e : monos[t.first].e) cnt[e.first]++; int best = -1; for (auto& t : r.t) { auto& e = monos[t.first].e; if (e.size() == 1 && e[0].second == 1 && cnt[e[0].first] == 1) { u32 v = e[0].first; if (best < 0 || (!vars[v].atom && !vars[v].uf && (vars[best].atom || vars[best].uf)) || ((vars[v].atom || vars[v].uf) == (vars[best].atom || vars[best].uf) && v > (u32)best)) best = v; } }
  if (best >= 0 && !vars[best].atom && !vars[best].uf) for (auto& t : r.t) for (auto& e : monos[t.first].e) if ((vars[e.first].atom) && dependsOn(e.first, best)) { best = -1; goto out; }
out:
  if (best >= 0) { C c = coefOf(r, mono({{(u32)best, 1}})); Raw o; C s = cneg(x, cinv(x, c)); for (auto& t : r.t) if (!(monos[t.first].e.size() == 1 && monos[t.first].e[0].first == (u32)best)) o.t.push_back({t.first, cmul(x, t.second, s)}); std::map<u32, Raw> one; std::swap(one, subst); subst[best] = o; for (auto& p : one) p.second = normSub(x, p.second); one[best] = o; subst = std::move(one);
    auto old = rules; rules.clear(); gbCacheN = -1; for (auto& p : old) if (!addEq(p.first, p.second, false)) return false; }
  else { rules.push_back({x, r}); gbCacheN = -1; if (rules.size() > 1 && groebner(x, rulesOf(x), nullptr, 1)) return false; }
  for (u32 n : nz) { Raw q = normSub(polys[n].x, polys[n].r); if (q.zero()) return false; }
  return true; }
// --- decisions ----------------------------------------------------------------------------------
static string prefStr(const vector<int>& v) { string s; for (int d : v) s += std::to_string(d) + ","; return s; }
static void endPrefix() { if (taken.size() == prefixN && prefixN) { if (!factsHold()) { modelOk = solveModel(); if (!modelOk) { forced = true; auto g = rules; if (!g.empty()) { for (auto& r : g) (void)r; } } } } }
static int decide2(int guess, bool altFeasible) { S.branches++; size_t k = taken.size(); int d; if (k < prefixN) d = prefix[k]; else { d = guess; if (altFeasible) { auto alt = taken; alt.push_back(!d); emit("alt", prefStr(alt)); } } taken.push_back(d); return d; }
static bool z3Unsat(Ctx* x, const Raw& A, const Raw& B) {
  if (A.t.size() + B.t.size() > 600) return true; double t0 = now(); static z3::context* c = nullptr; if (!c) c = new z3::context; z3::solver s(*c); z3::params p(*c); p.set("timeout", 4000u); s.set(p); z3::expr e = c->int_val(0); std::map<u32, int> seen; auto addT = [&](const Raw& r) { for (auto& t : r.t) e = e + c->int_val(cz2(t.second).get_str().c_str()) * c->int_const(("m" + std::to_string(t.first)).c_str()); }; addT(A); addT(B);
  s.add(z3::mod(e, c->int_val(x->P.get_str().c_str())) != 0); auto r = s.check(); S.z3s += now() - t0; if (r == z3::unsat) { S.unsat++; return true; } if (r == z3::sat) { S.sat++; return false; } S.unknown++; return true; }
// decide whether the canonical polynomial q is zero on this path
static bool decideZero(u32 q) {
  if (nz.count(q)) return false; if (zeroP.count(q)) return true; Ctx* x = polys[q].x; Raw n = normSub(x, polys[q].r); if (n.zero()) { g_identity = true; g_idX = x; g_idA = Raw(); g_idB = Raw(); return true; } if (isUnit(n)) return false;
  C c = C1(); std::map<u32, int> f; factorsOf(x, n, &c, &f);
  if (f.size() > 1 || f.begin()->first != q) { bool z = false; for (auto& p : f) { if (decideZero(p.first)) { z = true; break; } } if (z) zeroP.insert(q); else nz.insert(q); return z; }
  for (u32 d : vector<u32>(nz.begin(), nz.end())) if (polys[d].x == x && polys[d].v < 0 && polys[d].r.t.size() < polys[q].r.t.size() * 4 + 4) { Raw dd = normSub(x, polys[d].r), qq; if (dd.t.size() > 1 && rdivExact(x, n, dd, &qq)) { C c2 = C1(); std::map<u32, int> g; if (isUnit(qq)) { nz.insert(q); return false; } factorsOf(x, qq, &c2, &g); bool z = false; for (auto& p : g) if (decideZero(p.first)) { z = true; break; } if (z) zeroP.insert(q); else nz.insert(q); return z; } }
  if (polys[q].v >= 0 && vars[polys[q].v].atom && !subst.count(polys[q].v)) { bool z = false; for (auto& p : vector<std::pair<u32, int>>(vars[polys[q].v].def)) if (decideZero(p.first)) { z = true; break; } if (z) zeroP.insert(q); else nz.insert(q); return z; }
  bool last = taken.size() + 1 == prefixN;
  if (taken.size() >= prefixN) { // new decision
    if (rulesProveZero(x, n)) { if (contradiction) finish("infeasible"); zeroP.insert(q); S.unsat++; return true; } if (rulesProveNonzero(x, n)) { nz.insert(q); S.unsat++; return false; } }
  else if (!last || true) { // replay: the same provability tests gave a decision only when undecided; nothing to do
    if (rulesProveZero(x, n)) { zeroP.insert(q); return true; } if (rulesProveNonzero(x, n)) { nz.insert(q); return false; } }
  int guess = 0; if (modelOk && taken.size() >= prefixN) guess = cz(evalPoly(q));
  int d = decide2(guess, true);
  if (d) { zeroP.insert(q); if (!addEq(x, n)) finish("infeasible"); } else nz.insert(q);
  if (taken.size() == prefixN) endPrefix();
  return d; }
bool is_zero(Ctx* x, Id a) { if (!a) return true; if (vals[a].f.empty()) return false; if (!inChild) die("symbolic test"); auto f = vals[a].f; for (auto& p : f) if (p.second > 0 && decideZero(p.first)) return true; return false; }
bool eq(Ctx* x, Id a, Id b) { if (a == b) return true; if ((!a || vals[a].f.empty()) && (!b || vals[b].f.empty())) return false; g_identity = false; Id d = add(x, a, neg(x, b)); if (!d) { if (inChild && g_identity) { if (!z3Unsat(g_idX, g_idA, g_idB)) { emit("undecided", "z3 disagrees with the normal form"); } } return true; } return is_zero(x, d); }
bool is_const(Id a) { return !a || vals[a].f.empty(); }
// order: the concrete order of a model-consistent valuation; each query is a decision
static std::map<std::pair<Id, Id>, bool> ord;
static bool reach(Id a, Id b, std::set<Id>& seen) { if (a == b) return true; if (!seen.insert(a).second) return false; for (auto& p : ord) if (p.second && p.first.first == a && reach(p.first.second, b, seen)) return true; return false; }
bool less(Ctx* x, Id a, Id b) { if (a == b) return false; if (is_const(a) && is_const(b)) { C p = a ? vals[a].c : C0(), q = b ? vals[b].c : C0(); return mpn_cmp(p.l, q.l, L) < 0; } if (is_zero(x, b)) return false; if (is_zero(x, a)) return true; if (eq(x, a, b)) return false; std::set<Id> s1, s2; if (reach(a, b, s1)) return true; if (reach(b, a, s2)) return false;
  int g = 0; if (modelOk) { C p = evalVal(a), q = evalVal(b); g = mpn_cmp(p.l, q.l, L) < 0; } int d = decide2(g, true); if (d != g) { forced = true; } if (d) ord[{a, b}] = true; else ord[{b, a}] = true; if (taken.size() == prefixN) endPrefix(); return d; }
void to_limbs(Ctx* x, Id a, u64* o, size_t n) { memset(o, 0, n * 8); C c; if (is_const(a)) c = a ? vals[a].c : C0(); else { if (!inChild) die("symbolic value escapes"); S.conc++; c = evalVal(a); Id k = internVal(x, c, {}); if (!eq(x, a, k)) { forced = true; } } memcpy(o, c.l, std::min<size_t>(n, L) * 8); }
string str(Ctx* x, Id a) { if (!a) return "0"; Val& v = vals[a]; if (v.f.empty()) return cz2(v.c).get_str(); string s = "<" + cz2(v.c).get_str(16).substr(0, 8); for (auto& p : v.f) s += " p" + std::to_string(p.first) + "^" + std::to_string(p.second); return s + ">"; }
static std::map<string, int> occN; static string occ(const char* n) { int k = occN[n]++; return k ? string(n) + "#" + std::to_string(k) : string(n); }
Id var(Ctx* x, const char* name) { if (!inChild) { fprintf(stderr, "var outside of a path\n"); _exit(3); } string n = occ(name); u32 v = newVar(x, n); inputs.push_back({n, v}); return internVal(x, C1(), {{varPoly(v), 1}}); }
static std::map<std::pair<string, vector<Id>>, u32> ufIx;
Id uf(Ctx* x, const char* f, const Id* a, size_t n) { vector<Id> args(a, a + n); string key = x->name + "/" + f; bool allc = true; for (Id i : args) allc = allc && is_const(i);
  // congruence: arguments that are equal on this path give the same application
  for (auto& p : ufIx) if (p.first.first == key && p.first.second.size() == n) { bool same = true; for (size_t i = 0; i < n && same; ++i) if (p.first.second[i] != args[i]) { if (is_const(args[i]) && is_const(p.first.second[i])) same = false; else { Id d = add(x, args[i], neg(x, p.first.second[i])); if (d) { bool z = false; for (auto& fp : vector<std::pair<u32, int>>(vals[d].f)) if (fp.second > 0) { Raw nn = normSub(x, polys[fp.first].r); if (nn.zero() || zeroP.count(fp.first)) z = true; } same = z; } } } if (same) return internVal(x, C1(), {{varPoly(p.second), 1}}); }
  auto it = ufIx.find({key, args}); u32 v; if (it != ufIx.end()) v = it->second; else { v = newVar(x, "#" + std::to_string(vars.size())); vars[v].uf = true; vars[v].args = args; vars[v].fn = key; ufIx[{key, args}] = v; } return internVal(x, C1(), {{varPoly(v), 1}}); }
void set_limit(size_t t) { g_limit = t; }
}  // namespace alg
using namespace alg;
// --- harness API -----------------------------------------------------------------------------------
static vector<std::pair<string, void (*)()>>& regs() { static vector<std::pair<string, void (*)()>> r; return r; }
static string esc(const string& s) { string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if (c == '\n') r += "\\n"; else if ((unsigned char)c >= 32) r += c; } return r; }
extern "C" {
void sym_register(const char* n, void (*f)()) { regs().push_back({n, f}); }
uint64_t sym_choose(uint64_t n, const char* name) { if (n <= 1) return 0; string nm = occ(name); size_t k = taken.size(); int d; S.branches++; if (k < prefixN) d = prefix[k]; else { d = 0; for (uint64_t i = n - 1; i >= 1; --i) { auto alt = taken; alt.push_back(i); emit("alt", prefStr(alt)); } } taken.push_back(d); if (taken.size() == prefixN) { } char b[32]; snprintf(b, sizeof b, "%x", d); choices.push_back({nm, b}); if (taken.size() == prefixN) endPrefix(); return d; }
void sym_make(void* p, size_t n, const char* name) { string nm = occ(name); string h; u64 keep = g_rs; u64 s = 0xcbf29ce484222325ull; for (char c : nm) s = hmix(s, c); g_rs = s | 1; mpz_class z = 0; for (size_t i = 0; i < n; ++i) ((unsigned char*)p)[i] = rnd64() >> 24; g_rs = keep; mpz_import(z.get_mpz_t(), n, -1, 1, 0, 0, p); choices.push_back({nm, z.get_str(16)}); S.conc++; }
void sym_assume(bool c) { if (!c) finish("assume"); }
void sym_assert(bool c, const char* msg) { S.asserts++; if (c) return; if (modelOk && !forced) { emit("viol", esc(msg)); emit("vinput", inputJson()); } else emit("undecided", string("assertion on a path without a model: ") + msg); finish("violation"); }
void sym_reached(const char* m) { emit("reached", esc(m)); }
uint64_t sym_concretize(uint64_t v) { return v; } void sym_arith(int) {} void sym_note_skip(const char*) {} bool sym_replaying() { return false; }
}
// --- symbolic integers (linear integer arithmetic, decided by z3) ------------------------------------
namespace symz {
static z3::context* zc; static z3::solver* zs; static vector<z3::expr> ex; struct ZV { string n; int id; size_t slot; }; static vector<ZV> zv;
static void zinit() { if (zc) return; zc = new z3::context; zs = new z3::solver(*zc); z3::params p(*zc); p.set("timeout", 20000u); zs->set(p); }
static int put(const z3::expr& e) { ex.push_back(e); return ex.size() - 1; }
int var(const char* name, size_t bytes) { zinit(); string n = occ(name); z3::expr v = zc->int_const(n.c_str()); mpz_class hi = 1; hi <<= 8 * bytes; zs->add(v >= 0 && v < zc->int_val(hi.get_str().c_str())); choices.push_back({n, "0"}); zv.push_back({n, (int)ex.size(), choices.size() - 1}); return put(v); }
int dec(const char* d) { zinit(); return put(d[0] == '-' ? -zc->int_val(d + 1) : zc->int_val(d)); }
int add(int a, int b) { return put(ex[a] + ex[b]); } int mul(int a, int b) { return put(ex[a] * ex[b]); } int neg(int a) { return put(-ex[a]); }
int tdiv(int a, int b) { z3::expr x = ex[a], y = ex[b]; return put(z3::ite(x >= 0, x / y, -((-x) / y))); }  // y > 0
static z3::expr cmp(int op, int a, int b) { return op == 0 ? ex[a] == ex[b] : op == 1 ? ex[a] < ex[b] : ex[a] <= ex[b]; }
static z3::expr cong(int a, int b, const char* m) { return z3::mod(ex[a] - ex[b], zc->int_val(m)) == 0; }
static z3::check_result chk(const z3::expr& e) { double t0 = now(); z3::expr_vector v(*zc); z3::expr l = zc->bool_const(("q" + std::to_string(S.branches + S.asserts) + "_" + std::to_string(ex.size())).c_str()); zs->push(); zs->add(e); auto r = zs->check(); if (r == z3::sat) { z3::model m = zs->get_model(); for (auto& x : zv) { z3::expr val = m.eval(ex[x.id], true); mpz_class q(val.get_decimal_string(0)); choices[x.slot].second = q.get_str(16); } } zs->pop(); S.z3s += now() - t0; if (r == z3::sat) S.sat++; else if (r == z3::unsat) S.unsat++; else S.unknown++; return r; }
bool branch(int op, int a, int b) { z3::expr c = cmp(op, a, b); int d; if (taken.size() < prefixN) { d = prefix[taken.size()]; S.branches++; taken.push_back(d); if (taken.size() == prefixN) endPrefix(); } else { auto rt = chk(c), rf = chk(!c); if (rt == z3::unsat && rf == z3::unsat) finish("infeasible"); d = decide2(rt != z3::unsat, rt != z3::unsat && rf != z3::unsat); } zs->add(d ? c : !c); return d; }
void assume(int op, int a, int b) { z3::expr c = cmp(op, a, b); zs->add(c); }
static void claimE(const z3::expr& c, const char* msg) { S.asserts++; auto r = chk(!c); if (r == z3::unsat) return; if (r == z3::unknown) { emit("undecided", string("solver: ") + msg); return; } if (modelOk && !forced) { emit("viol", esc(msg)); emit("vinput", inputJson()); } else emit("undecided", string("assertion on a path without a model: ") + msg); finish("violation"); }
void claim(int op, int a, int b, const char* msg) { claimE(cmp(op, a, b), msg); }
void claim_cong(int a, int b, const char* m, const char* msg) { claimE(cong(a, b, m), msg); }
}  // namespace symz
static void onSig(int s) { if (inChild && out) { if (modelOk && !forced) { emit("viol", string("crash: signal ") + strsignal(s)); emit("vinput", inputJson()); } else emit("undecided", string("crash: signal ") + strsignal(s)); finish("crash"); } _exit(4); }
static void (*g_init)() = nullptr;
extern "C" void sym_set_init(void (*f)()) { g_init = f; }
int main(int argc, char** argv) {
  if (argc > 1 && !strcmp(argv[1], "--list")) { for (auto& r : regs()) puts(r.first.c_str()); return 0; }
  if (argc < 2) return 2; string name = argv[1], outp; double tmax = 120; u64 seed = 1, maxpaths = 200000;
  for (int i = 2; i + 1 < argc; i += 2) { string k = argv[i]; if (k == "--out") outp = argv[i + 1]; else if (k == "--time") tmax = atof(argv[i + 1]); else if (k == "--seed") seed = strtoull(argv[i + 1], 0, 0); else if (k == "--maxpaths") maxpaths = strtoull(argv[i + 1], 0, 0); }
  void (*fn)() = nullptr; for (auto& r : regs()) if (r.first == name) fn = r.second; if (!fn) return 2;
  FLAGS_minloglevel = 3; FLAGS_logtostderr = true; if (!freopen("/dev/null", "w", stderr)) {}
  if (monos.empty()) mono({}); if (vals.empty()) vals.push_back({nullptr, C0(), {}});
  if (g_init) g_init();
  double t0 = now(); vector<vector<int>> work{{}}; u64 paths = 0, forcedN = 0, infeas = 0, assumeN = 0; St T; std::map<string, u64> reached; std::set<string> undec; vector<std::pair<string, string>> viol; vector<string> samples; bool complete = true; string engErr; std::set<string> vmsg; u64 undA = 0;
  struct Ch { pid_t pid; int fd; string buf; double t; }; vector<Ch> run; int J = getenv("ALG_JOBS") ? atoi(getenv("ALG_JOBS")) : 2;
  auto handle = [&](const string& line) { size_t sp = line.find(' '); string k = line.substr(0, sp), v = sp == string::npos ? "" : line.substr(sp + 1);
    if (k == "alt") { vector<int> d; size_t p = 0; while (p < v.size()) { d.push_back(atoi(v.c_str() + p)); p = v.find(',', p); if (p == string::npos) break; ++p; } work.push_back(d); }
    else if (k == "reached") reached[v]++; else if (k == "undecided") { undec.insert(v); undA++; } else if (k == "viol") { viol.push_back({v, "{}"}); } else if (k == "vinput") viol.back().second = v; else if (k == "input") { if (samples.size() < 6 || (paths % 7 == 0 && samples.size() < 12)) samples.push_back(v); }
    else if (k == "stat") { unsigned long a, b, c, d, e, f, g; double z; if (sscanf(v.c_str(), "%lu %lu %lu %lu %lu %lu %lf %lu", &a, &b, &c, &d, &e, &f, &z, &g) == 8) { T.branches += a; T.asserts += b; T.unsat += c; T.sat += d; T.unknown += e; T.conc += f; T.z3s += z; T.gb += g; } }
    else if (k == "end") { if (v.find("infeasible") == 0) infeas++; else if (v.find("assume") == 0) assumeN++; else paths++; if (v.find("forced") != string::npos) forcedN++; if (v.find("toobig") == 0) complete = false; } };
  while (!work.empty() || !run.empty()) {
    if (now() - t0 > tmax || paths + infeas > maxpaths || viol.size() >= 3) { if (!work.empty() || !run.empty()) complete = false; for (auto& c : run) { kill(c.pid, SIGKILL); waitpid(c.pid, 0, 0); close(c.fd); } break; }
    while (!work.empty() && (int)run.size() < J) { auto pre = work.back(); work.pop_back(); int fd[2]; if (pipe(fd)) return 3; pid_t pid = fork(); if (!pid) { close(fd[0]); out = fdopen(fd[1], "w"); inChild = true; prefix = pre; prefixN = pre.size(); g_rs = 88172645463325252ull ^ (seed * 0x9e3779b97f4a7c15ull); for (int i = 0; i < 5; ++i) rnd64(); for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL}) signal(s, onSig); alarm((unsigned)(tmax - (now() - t0)) + 5); try { fn(); } catch (const std::exception& e) { emit("undecided", string("exception ") + e.what()); finish("toobig"); } finish("done"); }
      close(fd[1]); run.push_back({pid, fd[0], "", now()}); }
    vector<pollfd> pf; for (auto& c : run) pf.push_back({c.fd, POLLIN, 0}); poll(pf.data(), pf.size(), 200);
    for (size_t i = 0; i < run.size();) { if (i < pf.size() && pf[i].revents) { char b[65536]; ssize_t n = read(run[i].fd, b, sizeof b); if (n > 0) run[i].buf.append(b, n); else { int st; waitpid(run[i].pid, &st, 0); close(run[i].fd); size_t p = 0; bool ended = false; while (true) { size_t q = run[i].buf.find('\n', p); if (q == string::npos) break; string ln = run[i].buf.substr(p, q - p); if (ln.compare(0, 4, "end ") == 0) ended = true; handle(ln); p = q + 1; } if (!ended) { complete = false; engErr = "a path ended without a result, status " + std::to_string(st); } run.erase(run.begin() + i); pf.erase(pf.begin() + i); continue; } } ++i; }
  }
  { vector<std::pair<string, string>> u; for (auto& v : viol) if (vmsg.insert(v.first).second) u.push_back(v); viol = u; }
  FILE* f = fopen(outp.empty() ? "/dev/stdout" : outp.c_str(), "w"); if (!f) return 3;
  fprintf(f, "{\"harness\": \"%s\", \"paths\": %lu, \"forced_paths\": %lu, \"infeasible\": %lu, \"branches\": %lu, \"asserts\": %lu, \"sym_asserts\": %lu, \"sat\": %lu, \"unsat\": %lu, \"unknown\": %lu, \"undecided_asserts\": %lu, \"concretizations\": %lu, \"assume_cut\": %lu, \"groebner_runs\": %lu, \"solver_s\": %.2f, \"wall_s\": %.2f, \"complete\": %s", name.c_str(), paths, forcedN, infeas, T.branches, T.asserts, T.asserts, T.sat, T.unsat, T.unknown, undA, T.conc, assumeN, T.gb, T.z3s, now() - t0, complete ? "true" : "false");
  fprintf(f, ", \"reached\": {"); bool first = true; for (auto& r : reached) { fprintf(f, "%s\"%s\": %lu", first ? "" : ", ", r.first.c_str(), r.second); first = false; } fprintf(f, "}, \"undecided\": ["); first = true; for (auto& u : undec) { fprintf(f, "%s\"%s\"", first ? "" : ", ", esc(u).c_str()); first = false; }
  fprintf(f, "], \"violations\": ["); first = true; for (auto& v : viol) { fprintf(f, "%s{\"msg\": \"%s\", \"input\": %s}", first ? "" : ", ", v.first.c_str(), v.second.c_str()); first = false; } fprintf(f, "], \"samples\": ["); first = true; for (auto& s : samples) { fprintf(f, "%s%s", first ? "" : ", ", s.c_str()); first = false; } fprintf(f, "]");
  if (!engErr.empty()) fprintf(f, ", \"note\": \"%s\"", esc(engErr).c_str()); if (paths == 0 && !engErr.empty()) fprintf(f, ", \"engine_error\": \"%s\"", esc(engErr).c_str()); fprintf(f, "}\n"); fclose(f); return 0; }
