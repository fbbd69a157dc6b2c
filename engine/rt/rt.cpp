// Symbolic runtime: shadow memory, path exploration, SMT queries.
#include "expr.h"
#include "intp.h"
#include <z3++.h>
#include <algorithm>
#include <chrono>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <set>
#include <unistd.h>
#include <sys/mman.h>
#include <malloc.h>
using std::string; using std::vector;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

extern "C" {
S __sr_args[256]; void* __sr_byval_src[64]; void* __sr_tok; S __sr_ret[64]; void* __sr_rettok; uint32_t __sr_nargs;
}
// ------------------------------------------------------------------ shadow memory
struct Cell { S e; uint32_t byte; };
struct Page { Cell c[4096]; uint32_t used; };
static std::unordered_map<uint64_t, Page*> g_pages;
static uint64_t g_lastPn = ~0ull; static Page* g_lastP = nullptr;
static inline Page* page(uint64_t a, bool create) {
  uint64_t pn = a >> 12;
  if (pn == g_lastPn && (g_lastP || !create)) return g_lastP;
  auto it = g_pages.find(pn);
  Page* p = it == g_pages.end() ? nullptr : it->second;
  if (!p && create) { p = (Page*)calloc(1, sizeof(Page)); g_pages[pn] = p; }
  g_lastPn = pn; g_lastP = p;
  return p;
}
static bool g_active = false;
static uint64_t g_stale = 0;
static void clearRange(uint64_t a, uint64_t n) {
  while (n) {
    uint64_t off = a & 4095, k = std::min<uint64_t>(n, 4096 - off);
    if (Page* p = page(a, false)) if (p->used) memset(&p->c[off], 0, k * sizeof(Cell));
    a += k; n -= k;
  }
}
static inline Cell getCell(uint64_t a) { Page* p = page(a, false); return p ? p->c[a & 4095] : Cell{0, 0}; }
static inline void setCell(uint64_t a, Cell c) { Page* p = page(a, c.e != 0); if (p) { p->c[a & 4095] = c; if (c.e) p->used = 1; } }
static S byteExpr(Cell c) { return mkExtract(c.e, c.byte * 8, 8); }
static S loadShadow(uint64_t a, uint64_t n) {
  bool any = false;
  for (uint64_t i = 0; i < n;) { uint64_t off = (a + i) & 4095, k = std::min<uint64_t>(n - i, 4096 - off); Page* p = page(a + i, false); if (p && p->used) for (uint64_t j = 0; j < k; j++) if (p->c[off + j].e) { any = true; break; } i += k; }
  if (!any) return 0;
  Cell c0 = getCell(a);
  S r = 0;
  if (c0.e && c0.byte == 0 && nd(c0.e).bits == n * 8) {
    bool same = true;
    for (uint64_t i = 1; i < n && same; i++) { Cell c = getCell(a + i); same = c.e == c0.e && c.byte == i; }
    if (same) r = c0.e;
  }
  if (!r) {
    for (uint64_t i = 0; i < n;) {
      Cell c = getCell(a + i); S part; uint64_t k = 1;
      if (!c.e) { while (i + k < n && !getCell(a + i + k).e) k++; part = mkConst(fromBytes((void*)(a + i), k), k * 8); }
      else { while (i + k < n) { Cell d = getCell(a + i + k); if (d.e != c.e || d.byte != c.byte + k) break; k++; } part = mkExtract(c.e, c.byte * 8, k * 8); }
      r = r ? mkConcat(part, r) : part; i += k;
    }
  }
  // consistency with the concrete memory (uninstrumented writes invalidate the shadow)
  bool ok = n <= 8 ? eval64(r) == [&] { uint64_t v = 0; memcpy(&v, (void*)a, n); return v; }() : evalNode(r) == fromBytes((void*)a, n);
  if (!ok) { g_stale++; if (getenv("SYM_DEBUG")) fprintf(stderr, "stale shadow at %lx n=%lu\n", a, n); clearRange(a, n); return 0; }
  return isConst(r) ? 0 : r;
}
static void storeShadow(uint64_t a, uint64_t n, S v) {
  if (!v || isConst(v)) { clearRange(a, n); return; }
  for (uint64_t i = 0; i < n; i++) setCell(a + i, {v, (uint32_t)i});
}

// ------------------------------------------------------------------ exploration state
struct Entry { int kind; S e; bool out; IGoal g; bool forced; };   // kind 0: decision/assumption literal; 1: zi fact
static vector<Entry> g_path;        // literals so far in this run
struct Work { vector<std::pair<S, bool>> prefix; vector<mpz_class> input; bool forced; };
static vector<Work> g_work;
static Work g_cur;
static size_t g_pi;                 // decisions consumed from the prefix
static bool g_forced;               // concrete input is not known to satisfy the path
static jmp_buf g_jb; static sigjmp_buf g_sjb;
static string g_name;
static bool g_arith = false;
struct Stats { uint64_t paths = 0, forcedPaths = 0, branches = 0, asserts = 0, assertQ = 0, sat = 0, unsat = 0, unknown = 0, undecidedAsserts = 0, undecidedBranches = 0, conc = 0, infeasible = 0, assumeCut = 0, intUnsat = 0, concreteAsserts = 0, symAsserts = 0, crashes = 0; double solverTime = 0; } g_st;
static std::map<string, uint64_t> g_notes, g_ext, g_reached, g_assertSites;
static double g_deadline; static unsigned g_qt = 3000, g_at = 20000; static uint64_t g_maxPaths = 1000000;
static bool g_timeout = false;
struct Viol { string msg; vector<mpz_class> input; };
static vector<Viol> g_viol;
static std::set<string> g_undecided;
static unsigned g_seed = 1;

// ------------------------------------------------------------------ z3 BV
static z3::context* zc; static z3::solver* zs;
static vector<Z3_ast> g_z3;  // per node
static z3::expr toZ3(S root) {
  auto& c = *zc;
  if (g_z3.size() < N_.size()) g_z3.resize(N_.size() + 1024, nullptr);
  vector<S> st{root};
  while (!st.empty()) {
    S x = st.back();
    if (g_z3[x]) { st.pop_back(); continue; }
    const Node n = nd(x);
    bool ready = true;
    for (S k : {n.a, n.b, n.c}) if (k && !g_z3[k]) { st.push_back(k); ready = false; }
    if (!ready) continue;
    st.pop_back();
    auto K = [&](S k) { return z3::expr(c, g_z3[k]); };
    z3::expr e(c);
    auto b2v = [&](z3::expr b) { return z3::ite(b, c.bv_val(1, 1), c.bv_val(0, 1)); };
    switch (n.op) {
    case O_CONST: e = c.bv_val(constVal(x).get_str().c_str(), n.bits); break;
    case O_VAR: e = c.bv_const(("v" + std::to_string(n.imm) + "_" + g_varNames[n.imm]).c_str(), n.bits); break;
    case O_ADD: e = K(n.a) + K(n.b); break;
    case O_SUB: e = K(n.a) - K(n.b); break;
    case O_MUL: e = K(n.a) * K(n.b); break;
    case O_UDIV: e = z3::udiv(K(n.a), K(n.b)); break;
    case O_SDIV: e = K(n.a) / K(n.b); break;
    case O_UREM: e = z3::urem(K(n.a), K(n.b)); break;
    case O_SREM: e = z3::srem(K(n.a), K(n.b)); break;
    case O_SHL: e = z3::shl(K(n.a), K(n.b)); break;
    case O_LSHR: e = z3::lshr(K(n.a), K(n.b)); break;
    case O_ASHR: e = z3::ashr(K(n.a), K(n.b)); break;
    case O_AND: e = K(n.a) & K(n.b); break;
    case O_OR: e = K(n.a) | K(n.b); break;
    case O_XOR: e = K(n.a) ^ K(n.b); break;
    case O_CONCAT: e = z3::concat(K(n.a), K(n.b)); break;
    case O_EXTRACT: e = K(n.a).extract(n.imm + n.bits - 1, n.imm); break;
    case O_ZEXT: e = z3::zext(K(n.a), n.bits - nd(n.a).bits); break;
    case O_SEXT: e = z3::sext(K(n.a), n.bits - nd(n.a).bits); break;
    case O_ITE: e = z3::ite(K(n.a) == c.bv_val(1, 1), K(n.b), K(n.c)); break;
    case O_EQ: e = b2v(K(n.a) == K(n.b)); break;
    case O_ULT: e = b2v(z3::ult(K(n.a), K(n.b))); break;
    case O_ULE: e = b2v(z3::ule(K(n.a), K(n.b))); break;
    case O_SLT: e = b2v(z3::slt(K(n.a), K(n.b))); break;
    case O_SLE: e = b2v(z3::sle(K(n.a), K(n.b))); break;
    default: abort();
    }
    Z3_inc_ref(c, e); g_z3[x] = e;
  }
  return z3::expr(c, g_z3[root]);
}
static vector<std::pair<S, bool>> g_stack;  // literals asserted in zs
static z3::expr litZ3(S e, bool out) { return toZ3(e) == zc->bv_val(out ? 1 : 0, 1); }
static void syncSolver(const vector<std::pair<S, bool>>& lits) {
  size_t k = 0;
  while (k < g_stack.size() && k < lits.size() && g_stack[k] == lits[k]) k++;
  if (g_stack.size() > k) { zs->pop(g_stack.size() - k); g_stack.resize(k); }
  for (; k < lits.size(); k++) { zs->push(); zs->add(litZ3(lits[k].first, lits[k].second)); g_stack.push_back(lits[k]); }
}
static vector<std::pair<S, bool>> pathLits() { vector<std::pair<S, bool>> r; for (auto& e : g_path) if (e.kind == 0) r.push_back({e.e, e.out}); return r; }
static vector<IGoal> pathGoals() { vector<IGoal> r; for (auto& e : g_path) { if (e.kind == 0) { IGoal g{}; g.kind = 0; g.bv = e.e; g.out = e.out; r.push_back(g); } else r.push_back(e.g); } return r; }

static vector<vector<mpz_class>> g_pool;   // past inputs
static gmp_randclass* g_rng;
static bool satisfies(const vector<mpz_class>& in, const vector<std::pair<S, bool>>& lits, S e, bool out) {
  Evaluator ev{&in, {}};
  if (e && (ev.eval(e) != 0) != out) return false;
  for (auto& l : lits) if ((ev.eval(l.first) != 0) != l.second) return false;
  for (auto& p : g_path) if (p.kind == 1 && p.g.kind == 1) if (!(ziEvalWith(p.g.a, ev) < ziEvalWith(p.g.b, ev))) return false;
  return true;
}
static vector<mpz_class> g_interesting;
static vector<mpz_class> randomInput() {
  vector<mpz_class> in(g_varBits.size());
  int mode = mpz_class(g_rng->get_z_bits(3)).get_ui();
  for (size_t i = 0; i < in.size(); i++) {
    unsigned k = mpz_class(g_rng->get_z_bits(6)).get_ui();
    if (mode < 3 || k < 24) in[i] = g_rng->get_z_bits(g_varBits[i]);
    else if (k < 36) { in[i] = 1; in[i] <<= g_varBits[i]; in[i] -= 1 + mpz_class(g_rng->get_z_bits(2)); }
    else if (k < 46) in[i] = g_rng->get_z_bits(2);
    else if (!g_interesting.empty()) { in[i] = g_interesting[mpz_class(g_rng->get_z_range((unsigned long)g_interesting.size())).get_ui()]; in[i] += (int)mpz_class(g_rng->get_z_bits(2)).get_ui() - 2; }
    else in[i] = g_rng->get_z_bits(g_varBits[i] / 2 + 1);
    mpz_fdiv_r_2exp(in[i].get_mpz_t(), in[i].get_mpz_t(), g_varBits[i]);
  }
  return in;
}
static bool arithMode() { return g_arith; }
static vector<mpz_class> modelInput(z3::model& m) {
  vector<mpz_class> in(g_varBits.size());
  for (size_t i = 0; i < in.size(); i++) {
    z3::expr v = zc->bv_const(("v" + std::to_string(i) + "_" + g_varNames[i]).c_str(), g_varBits[i]);
    z3::expr r = m.eval(v, true); string s;
    if (r.is_numeral(s)) in[i] = mpz_class(s);
  }
  return in;
}
// does the DAG below x contain a wide product of two symbolic operands (hopeless for bit-blasting)?
static vector<char> g_hard;  // 0 unknown 1 no 2 yes
static bool hardMul(S root) {
  if (!root) return false;
  if (g_hard.size() < N_.size()) g_hard.resize(N_.size() + 1024, 0);
  vector<S> st{root};
  while (!st.empty()) {
    S x = st.back(); if (g_hard[x]) { st.pop_back(); continue; }
    const Node& n = nd(x); bool ready = true, h = false;
    for (S k : {n.a, n.b, n.c}) if (k) { if (!g_hard[k]) { st.push_back(k); ready = false; } else if (g_hard[k] == 2) h = true; }
    if (!ready) continue;
    st.pop_back();
    if (n.op == O_MUL && n.bits >= 64 && ((!isConst(n.a) && !isConst(n.b)) || g_realOnly)) h = true;
    g_hard[x] = h ? 2 : 1;
  }
  return g_hard[root] == 2;
}
// pc ∧ (e == out): SAT with model / UNSAT / UNKNOWN
static Res query(S e, bool out, vector<mpz_class>& model, unsigned timeout) {
  double t0 = now();
  auto lits = pathLits();
  Res r = R_UNKNOWN;
  // cheap: known inputs
  auto tryPool = [&](int n) {
    for (int i = (int)g_pool.size() - 1, k = 0; i >= 0 && k < n; i--, k++) { auto in = g_pool[i]; in.resize(g_varBits.size()); if (satisfies(in, lits, e, out)) { model = in; return true; } }
    return false; };
  if (arithMode()) {
    if (tryPool(40)) r = R_SAT;
    for (int i = 0; r != R_SAT && i < 60; i++) { auto in = randomInput(); if (satisfies(in, lits, e, out)) { model = in; r = R_SAT; } }
    if (r != R_SAT) {
      IGoal g{}; g.kind = 0; g.bv = e; g.out = !out;
      Res ir = intProve(pathGoals(), g, timeout);
      if (ir == R_UNSAT) { r = R_UNSAT; g_st.intUnsat++; }
    }
    if (r == R_UNKNOWN) timeout = std::min(timeout, 1500u);
  }
  bool hard = arithMode() && hardMul(e); if (arithMode() && !hard) for (auto& l : lits) if (hardMul(l.first)) { hard = true; break; }
  if (r == R_UNKNOWN && !hard) {
    syncSolver(lits);
    zs->push();
    zs->add(litZ3(e, out));
    z3::params p(*zc); p.set("timeout", timeout); zs->set(p);
    try {
      auto cr = zs->check();
      if (cr == z3::unsat) r = R_UNSAT;
      else if (cr == z3::sat) { auto m = zs->get_model(); model = modelInput(m); r = satisfies(model, lits, e, out) ? R_SAT : R_UNKNOWN; }
    } catch (z3::exception&) {}
    zs->pop();
  }
  if (r == R_UNKNOWN && !arithMode()) {
    // one-shot QF_BV tactic
    z3::tactic t(*zc, "qfbv"); z3::solver s2 = t.mk_solver();
    z3::params p(*zc); p.set("timeout", timeout * 2); s2.set(p);
    for (auto& l : lits) s2.add(litZ3(l.first, l.second));
    s2.add(litZ3(e, out));
    try {
      auto cr = s2.check();
      if (cr == z3::unsat) r = R_UNSAT;
      else if (cr == z3::sat) { auto m = s2.get_model(); model = modelInput(m); r = satisfies(model, lits, e, out) ? R_SAT : R_UNKNOWN; }
    } catch (z3::exception&) {}
    if (r == R_UNKNOWN) {
      IGoal g{}; g.kind = 0; g.bv = e; g.out = !out;
      if (intProve(pathGoals(), g, timeout) == R_UNSAT) { r = R_UNSAT; g_st.intUnsat++; }
    }
    if (r == R_UNKNOWN) { if (tryPool(100)) r = R_SAT; for (int i = 0; r != R_SAT && i < 300; i++) { auto in = randomInput(); if (satisfies(in, lits, e, out)) { model = in; r = R_SAT; } } }
  }
  g_st.solverTime += now() - t0;
  (r == R_SAT ? g_st.sat : r == R_UNSAT ? g_st.unsat : g_st.unknown)++;
  if (r == R_SAT && g_pool.size() < 3000) g_pool.push_back(model);
  return r;
}
[[noreturn]] static void endPath() { longjmp(g_jb, 1); }
static uint64_t g_div = 0;
static void checkDeadline() { if (now() > g_deadline) { g_timeout = true; endPath(); } }

// A symbolic decision with the concrete outcome `taken`; returns the outcome to follow.
static bool decide(S e, bool taken) {
  if (!g_active) return taken;
  if (isConst(e)) return eval64(e);
  // already implied syntactically?
  for (auto& p : g_path) if (p.kind == 0 && p.e == e) return p.out;
  g_st.branches++;
  if (g_pi < g_cur.prefix.size()) {
    auto d = g_cur.prefix[g_pi++];
    // heap addresses may differ between runs: with a concrete witness the position in the decision sequence identifies the branch
    if (d.first != e && (g_forced || taken != d.second)) { g_div++; if (getenv("SYM_DEBUG")) fprintf(stderr, "divergence: expected %s got %s\n", dump(d.first).c_str(), dump(e).c_str()); endPath(); }
    g_path.push_back({0, e, d.second, {}, false});
    return d.second;
  }
  checkDeadline();
  // prefix exhausted
  vector<mpz_class> model;
  if (g_forced) {
    // concrete values are not a witness for this path: check both sides
    Res rt = query(e, true, model, g_qt); vector<mpz_class> mt = model;
    Res rf = R_UNKNOWN; vector<mpz_class> mf;
    if (rt == R_UNSAT) { g_path.push_back({0, e, false, {}, false}); return false; }
    rf = query(e, false, mf, g_qt);
    if (rf == R_UNSAT) { g_path.push_back({0, e, true, {}, false}); return true; }
    Work w; for (auto& p : g_path) if (p.kind == 0) w.prefix.push_back({p.e, p.out});
    // continue on `taken`, queue the other
    bool other = !taken; Res ro = other ? rt : rf; auto& mo = other ? mt : mf;
    w.prefix.push_back({e, other}); w.forced = ro != R_SAT; w.input = ro == R_SAT ? mo : g_varVal;
    if (w.forced) g_st.undecidedBranches++;
    g_work.push_back(w);
    g_path.push_back({0, e, taken, {}, false});
    return taken;
  }
  Res r = query(e, !taken, model, g_qt);
  if (r != R_UNSAT) {
    Work w; for (auto& p : g_path) if (p.kind == 0) w.prefix.push_back({p.e, p.out});
    w.prefix.push_back({e, !taken});
    w.forced = r != R_SAT; w.input = r == R_SAT ? model : g_varVal;
    if (w.forced) g_st.undecidedBranches++;
    g_work.push_back(w);
  }
  g_path.push_back({0, e, taken, {}, false});
  return taken;
}
// note: assumption literals are part of the prefix too (consumed like decisions).
static void assumeLit(S e, bool taken) {
  if (isConst(e)) { if (!eval64(e)) { g_st.assumeCut++; endPath(); } return; }
  for (auto& p : g_path) if (p.kind == 0 && p.e == e) { if (!p.out) { g_st.assumeCut++; endPath(); } return; }
  if (g_pi < g_cur.prefix.size()) {
    auto d = g_cur.prefix[g_pi++];
    if (d.first != e && (g_forced || !taken)) { g_div++; endPath(); }
    g_path.push_back({0, e, true, {}, false});
    return;
  }
  if (taken && !g_forced) { g_path.push_back({0, e, true, {}, false}); return; }
  vector<mpz_class> model;
  Res r = query(e, true, model, g_qt * 4);
  if (r == R_UNSAT) { g_st.assumeCut++; endPath(); }
  Work w; for (auto& p : g_path) if (p.kind == 0) w.prefix.push_back({p.e, p.out});
  w.prefix.push_back({e, true}); w.forced = r != R_SAT; w.input = r == R_SAT ? model : g_varVal;
  if (g_forced && r == R_UNKNOWN) { g_path.push_back({0, e, true, {}, false}); return; }
  g_work.push_back(w);
  g_st.assumeCut++; endPath();
}
static uint64_t concretize(S e, uint64_t c) {
  if (!e || !g_active || isConst(e)) return c;
  g_st.conc++;
  uint32_t bits = nd(e).bits;
  while (g_pi < g_cur.prefix.size()) {
    auto d = g_cur.prefix[g_pi];
    // recorded as EQ(e,k); recompute which constant
    Node n = nd(d.first);
    S k = 0;
    (void)n;
    // try all: find constant k with mk(EQ,e,k)==d.first by evaluating under recorded hint
    extern std::map<std::pair<S, S>, uint64_t> g_concHint;
    auto it = g_concHint.find({e, d.first});
    if (it == g_concHint.end()) { // maybe already implied by path
      break; }
    g_pi++;
    g_path.push_back({0, d.first, d.second, {}, false});
    if (d.second) return it->second;
    (void)k;
  }
  uint64_t v = g_forced ? eval64(e) : c;
  S eq = mk(O_EQ, 1, e, mkConst64(v, bits));
  extern std::map<std::pair<S, S>, uint64_t> g_concHint;
  g_concHint[{e, eq}] = v;
  for (int guard = 0;; guard++) {
    bool r = decide(eq, true);
    if (r) return v;
    // excluded earlier on this path: pick another value by a query
    vector<mpz_class> model;
    if (guard > 64 || query(mkConst64(1, 1), true, model, g_qt) != R_SAT) endPath();
    Evaluator ev{&model, {}};
    v = ev.eval(e).get_ui();
    eq = mk(O_EQ, 1, e, mkConst64(v, bits));
    g_concHint[{e, eq}] = v;
  }
}
std::map<std::pair<S, S>, uint64_t> g_concHint;

// ------------------------------------------------------------------ assertions
static void addViolation(const string& msg, const vector<mpz_class>& in) {
  for (auto& v : g_viol) if (v.msg == msg) return;
  g_viol.push_back({msg, in});
}
static bool goalHolds(const IGoal& g, Evaluator& ev) {
  int k = g.kind; bool neg = false; if (k >= 10) { k -= 10; neg = true; }
  bool r = true;
  if (k == 0) r = (ev.eval(g.bv) != 0) == g.out;
  else { mpz_class a = ziEvalWith(g.a, ev), b = ziEvalWith(g.b, ev); if (k == 1) r = a < b; else if (k == 2) r = a == b; else { mpz_class d = a - b; r = mpz_divisible_p(d.get_mpz_t(), g.m.get_mpz_t()); } }
  return r != neg;
}
// search for a concrete counterexample satisfying the path
static bool searchCex(const IGoal& g, vector<mpz_class>& out, int tries, bool deep = true) {
  auto lits = pathLits();
  auto test = [&](vector<mpz_class> in) { in.resize(g_varBits.size()); Evaluator ev{&in, {}}; if (goalHolds(g, ev)) return false; if (!satisfies(in, lits, 0, true)) return false; out = in; return true; };
  for (size_t i = 0; i < g_pool.size() && i < 200; i++) if (test(g_pool[g_pool.size() - 1 - i])) return true;
  for (int i = 0; i < tries; i++) if (test(randomInput())) return true;
  if (!deep) return false;
  // make products linear: fix all inputs but one to special constants and ask the exact integer encoding
  vector<mpz_class> consts = g_interesting; consts.push_back(0); consts.push_back(1); consts.push_back(2);
  int budget = 24;
  for (size_t v = 0; v < g_varBits.size() && budget > 0; v++) for (auto& c : consts) {
    if (budget-- <= 0) break;
    std::map<int, mpz_class> sub; for (size_t u = 0; u < g_varBits.size(); u++) if (u != v) { mpz_class x = c; mpz_fdiv_r_2exp(x.get_mpz_t(), x.get_mpz_t(), g_varBits[u]); sub[u] = x; }
    vector<mpz_class> m(g_varBits.size());
    if (intSolveWith(pathGoals(), g, sub, 2000, m) == R_SAT && test(m)) return true;
  }
  return false;
}
static void handleGoal(const IGoal& g, const string& msg, bool symbolic) {
  g_st.asserts++; g_assertSites[msg]++;
  Evaluator ev0{&g_varVal, {}};
  if (!g_forced) {
    if (!goalHolds(g, ev0)) { addViolation(msg, g_varVal); return; }
  }
  if (!symbolic) { g_st.concreteAsserts++; return; }
  g_st.symAsserts++;
  checkDeadline();
  double t0 = now();
  vector<mpz_class> model;
  Res r = R_UNKNOWN;
  if (g.kind == 0 && !arithMode()) {
    r = query(g.bv, !g.out, model, g_at);
    if (r == R_SAT) { addViolation(msg, model); return; }
  } else {
    g_st.assertQ++;
    r = intProve(pathGoals(), g, g_at);
    if (r == R_UNSAT && searchCex(g, model, 100, false)) { addViolation(msg, model); return; }  // a guard against errors of the abstraction itself
    if (r == R_UNSAT) { g_st.unsat++; g_st.intUnsat++; }
    g_st.solverTime += now() - t0;
    if (r != R_UNSAT) {
      if (searchCex(g, model, 3000)) { addViolation(msg, model); return; }
      if (g.kind == 0) { r = query(g.bv, !g.out, model, g_at); if (r == R_SAT) { addViolation(msg, model); return; } }
    }
  }
  if (r != R_UNSAT) {
    // is the path itself infeasible?
    g_st.undecidedAsserts++; g_undecided.insert(msg);
    if (getenv("SYM_DEBUG")) { fprintf(stderr, "UNDECIDED %s (forced=%d)\n", msg.c_str(), g_forced); for (auto& p : g_path) if (p.kind == 0) fprintf(stderr, "   %d %s\n", p.out, dump(p.e, 6).c_str()); }
  }
  if (g.kind == 0 && symbolic && r == R_UNSAT) { g_path.push_back({1, 0, false, g, false}); }
}
extern "C" {
static S argS(int i, void* self) { return __sr_tok == self ? __sr_args[i] : 0; }
static std::map<string, unsigned> g_occ;  // how often each input name was used on the current path
static string occName(const char* name) { unsigned k = g_occ[name]++; return k ? string(name) + "#" + std::to_string(k) : string(name); }
void sym_make(void* p, size_t n, const char* name0) {
  string nameS; const char* name = name0; if (g_active) { nameS = occName(name0); name = nameS.c_str(); }
  if (g_active) {
    int i = varIndex(name, n * 8);
    if (g_varVal.size() <= (size_t)i) g_varVal.resize(i + 1);
    if (g_cur.input.size() <= (size_t)i) g_cur.input.resize(i + 1);
    toBytes(g_varVal[i], p, n);
    storeShadow((uint64_t)p, n, mkVar(name, n * 8));
  } else memset(p, 0, n);
}
uint64_t sym_choose(uint64_t n, const char* name0) {
  if (!g_active || n <= 1) return 0;
  string nameS = occName(name0); const char* name = nameS.c_str();
  S v = 0; int i = varIndex(name, 32);
  if (g_varVal.size() <= (size_t)i) g_varVal.resize(i + 1);
  v = g_varNode[i];
  S c = mk(O_ULT, 1, v, mkConst64(n, 32));
  assumeLit(c, eval64(c));
  return concretize(v, eval64(v));
}
void sym_assume(bool c) { S s = argS(0, (void*)sym_assume); __sr_tok = 0; if (!g_active) return; if (!s) { if (!c) { g_st.assumeCut++; endPath(); } return; } assumeLit(s, c); }
void sym_assert(bool c, const char* msg) {
  S s = argS(0, (void*)sym_assert); __sr_tok = 0; if (!g_active) return;
  if (!s || isConst(s)) {
    if (s) c = eval64(s);
    g_st.asserts++; g_st.concreteAsserts++; g_assertSites[msg]++;
    if (!c) {
      if (!g_forced) { addViolation(msg, g_varVal); return; }
      vector<mpz_class> model; Res r = query(mkConst64(1, 1), true, model, g_at);
      if (r == R_SAT) addViolation(msg, model); else if (r != R_UNSAT) { g_st.undecidedAsserts++; g_undecided.insert(msg); }
    }
    return;
  }
  IGoal g{}; g.kind = 0; g.bv = s; g.out = true; handleGoal(g, msg, true);
}
void sym_reached(const char* msg) { __sr_tok = 0; if (g_active && !g_forced) g_reached[msg]++; }
uint64_t sym_concretize(uint64_t v) { S s = argS(0, (void*)sym_concretize); __sr_tok = 0; return s ? concretize(s, v) : v; }
void sym_arith(int on) { __sr_tok = 0; g_arith = on; if (g_realOnly != (on == 2)) { g_realOnly = on == 2; g_hard.clear(); } }
void sym_note_skip(const char* w) { __sr_tok = 0; g_notes[string("skip:") + w]++; }
bool sym_replaying() { __sr_tok = 0; return false; }
int zi_limbs(const void* p, size_t n) { __sr_tok = 0; S s = loadShadow((uint64_t)p, n); ZNode z{}; if (s) { z.kind = 1; z.bv = s; } else { z.kind = 0; z.v = fromBytes(p, n); } Z_.push_back(z); return Z_.size() - 1; }
int zi_dec(const char* d) { __sr_tok = 0; ZNode z{}; z.kind = 0; z.v = mpz_class(d); Z_.push_back(z); return Z_.size() - 1; }
int zi_add(int a, int b) { __sr_tok = 0; Z_.push_back({2, 0, a, b, {}}); return Z_.size() - 1; }
int zi_sub(int a, int b) { __sr_tok = 0; Z_.push_back({3, 0, a, b, {}}); return Z_.size() - 1; }
int zi_mul(int a, int b) { __sr_tok = 0; Z_.push_back({4, 0, a, b, {}}); return Z_.size() - 1; }
static bool ziSym(int z) { ZNode& n = Z_[z]; return n.kind == 0 ? false : n.kind == 1 ? true : ziSym(n.a) || ziSym(n.b); }
void zi_assume_lt(int a, int b) {
  __sr_tok = 0; if (!g_active) return;
  ZNode &A = Z_[a], &B = Z_[b];
  if (A.kind == 1 && B.kind == 0) { S c = mk(O_ULT, 1, A.bv, mkConst(B.v, nd(A.bv).bits)); g_interesting.size() < 8 && std::find(g_interesting.begin(), g_interesting.end(), B.v) == g_interesting.end() ? g_interesting.push_back(B.v) : void();
    assumeLit(c, eval64(c)); }
  else if (A.kind == 0 && B.kind == 0) { if (!(A.v < B.v)) { g_st.assumeCut++; endPath(); } return; }
  IGoal g{}; g.kind = 1; g.a = a; g.b = b; g_path.push_back({1, 0, false, g, false});
}
void zi_assert_lt(int a, int b, const char* m) { __sr_tok = 0; if (!g_active) return; IGoal g{}; g.kind = 1; g.a = a; g.b = b; handleGoal(g, m, ziSym(a) || ziSym(b)); }
void zi_assert_eq(int a, int b, const char* m) { __sr_tok = 0; if (!g_active) return; IGoal g{}; g.kind = 2; g.a = a; g.b = b; handleGoal(g, m, ziSym(a) || ziSym(b)); }
void zi_assert_cong(int a, int b, const char* md, const char* m) { __sr_tok = 0; if (!g_active) return; IGoal g{}; g.kind = 3; g.a = a; g.b = b; g.m = mpz_class(md); handleGoal(g, m, ziSym(a) || ziSym(b)); }

// ------------------------------------------------------------------ instrumentation callbacks
static S opnd(S s, uint64_t c, uint32_t total) { if (s) return s; if (total <= 64) return mkConst64(c, total); return mkConst(fromBytes((void*)c, (total + 7) / 8), total); }
static S ret(S s) { return isConst(s) ? 0 : s; }
static S lane(S v, uint32_t bits, uint32_t i) { return mkExtract(v, i * bits, bits); }
enum { LAdd = 13, LSub = 15, LMul = 17, LUDiv = 19, LSDiv = 20, LURem = 22, LSRem = 23, LShl = 25, LLShr = 26, LAShr = 27, LAnd = 28, LOr = 29, LXor = 30 };
static S bin1(uint32_t op, uint32_t bits, S a, S b) {
  switch (op) {
  case LAdd: return mk(O_ADD, bits, a, b); case LSub: return mk(O_SUB, bits, a, b); case LMul: return mk(O_MUL, bits, a, b);
  case LUDiv: case LSDiv: case LURem: case LSRem: {
    if (!isConst(b)) { S z = mk(O_EQ, 1, b, mkConst64(0, bits)); bool isz = decide(z, eval64(z)); if (isz && g_forced) { endPath(); } }
    return mk(op == LUDiv ? O_UDIV : op == LSDiv ? O_SDIV : op == LURem ? O_UREM : O_SREM, bits, a, b); }
  case LShl: return mk(O_SHL, bits, a, b); case LLShr: return mk(O_LSHR, bits, a, b); case LAShr: return mk(O_ASHR, bits, a, b);
  case LAnd: return mk(O_AND, bits, a, b); case LOr: return mk(O_OR, bits, a, b); case LXor: return mk(O_XOR, bits, a, b);
  }
  fprintf(stderr, "bad binop %u\n", op); abort();
}
extern "C++" { template <class F> static S lanewise(uint32_t bits, uint32_t lanes, S a, S b, F f) {
  if (lanes == 1) return f(a, b);
  S r = 0; for (uint32_t i = 0; i < lanes; i++) { S x = f(lane(a, bits, i), b ? lane(b, bits, i) : 0); r = r ? mkConcat(x, r) : x; }
  return r;
} }
S __sr_bin(uint32_t op, uint32_t bits, uint32_t lanes, S a, uint64_t ca, S b, uint64_t cb) {
  if (!g_active) return 0;
  S x = opnd(a, ca, bits * lanes), y = opnd(b, cb, bits * lanes);
  if (lanes > 1 && (op == LAnd || op == LOr || op == LXor)) return ret(bin1(op, bits * lanes, x, y));
  return ret(lanewise(bits, lanes, x, y, [&](S p, S q) { return bin1(op, bits, p, q); }));
}
static S cmp1(uint32_t pred, S a, S b) {
  switch (pred) { case 32: return mk(O_EQ, 1, a, b); case 33: return mkNot(mk(O_EQ, 1, a, b)); case 34: return mk(O_ULT, 1, b, a); case 35: return mk(O_ULE, 1, b, a);
  case 36: return mk(O_ULT, 1, a, b); case 37: return mk(O_ULE, 1, a, b); case 38: return mk(O_SLT, 1, b, a); case 39: return mk(O_SLE, 1, b, a); case 40: return mk(O_SLT, 1, a, b); case 41: return mk(O_SLE, 1, a, b); }
  abort();
}
S __sr_cmp(uint32_t pred, uint32_t bits, uint32_t lanes, S a, uint64_t ca, S b, uint64_t cb) {
  if (!g_active) return 0;
  S x = opnd(a, ca, bits * lanes), y = opnd(b, cb, bits * lanes);
  return ret(lanewise(bits, lanes, x, y, [&](S p, S q) { return cmp1(pred, p, q); }));
}
S __sr_cast(uint32_t op, uint32_t from, uint32_t to, uint32_t lanes, S a) {
  if (!g_active || !a) return 0;
  return ret(lanewise(from, lanes, a, 0, [&](S p, S) { return op == 0 ? mkExtract(p, 0, to) : op == 1 ? mkZext(p, to) : mkSext(p, to); }));
}
S __sr_select(uint32_t bits, uint32_t lanes, uint32_t cl, S c, uint64_t cc, S a, uint64_t ca, S b, uint64_t cb) {
  if (!g_active) return 0;
  uint32_t t = bits * lanes;
  if (cl == 1) { if (!c) return cc & 1 ? (a ? a : 0) : (b ? b : 0); return ret(mkIte(c, opnd(a, ca, t), opnd(b, cb, t))); }
  S x = opnd(a, ca, t), y = opnd(b, cb, t), k = opnd(c, cc, cl), r = 0;
  for (uint32_t i = 0; i < lanes; i++) { S v = mkIte(lane(k, 1, i), lane(x, bits, i), lane(y, bits, i)); r = r ? mkConcat(v, r) : v; }
  return ret(r);
}
S __sr_inselt(uint32_t bits, uint32_t lanes, S v, uint64_t cv, S e, uint64_t ce, uint64_t idx) {
  if (!g_active) return 0;
  S x = opnd(v, cv, bits * lanes), y = opnd(e, ce, bits), r = 0;
  for (uint32_t i = 0; i < lanes; i++) { S q = i == idx ? y : lane(x, bits, i); r = r ? mkConcat(q, r) : q; }
  return ret(r);
}
S __sr_extelt(uint32_t bits, uint32_t lanes, S v, uint64_t, uint64_t idx) { if (!g_active || !v) return 0; return ret(lane(v, bits, idx)); }
S __sr_shuffle(uint32_t bits, uint32_t lanes, S a, uint64_t ca, S b, uint64_t cb, uint32_t n, const int32_t* m) {
  if (!g_active) return 0;
  S x = opnd(a, ca, bits * lanes), y = opnd(b, cb, bits * lanes), r = 0;
  for (uint32_t i = 0; i < n; i++) { S q = m[i] < 0 ? mkConst64(0, bits) : m[i] < (int)lanes ? lane(x, bits, m[i]) : lane(y, bits, m[i] - lanes); r = r ? mkConcat(q, r) : q; }
  return ret(r);
}
enum IntrId { I_UMIN = 1, I_UMAX, I_SMIN, I_SMAX, I_ABS, I_CTLZ, I_CTTZ, I_CTPOP, I_BSWAP, I_BITREV, I_FSHL, I_FSHR, I_UADDSAT, I_USUBSAT, I_SADDSAT, I_SSUBSAT,
  I_UADDO, I_USUBO, I_UMULO, I_SADDO, I_SSUBO, I_SMULO, I_ADDCARRY_V, I_ADDCARRY_C, I_SUBBORROW_V, I_SUBBORROW_C, I_RED_ADD, I_RED_AND, I_RED_OR, I_RED_XOR, I_RED_MUL, I_RED_UMAX, I_RED_UMIN };
S __sr_intr(uint32_t id, uint32_t bits, uint32_t lanes, S a, uint64_t ca, S b, uint64_t cb, S c, uint64_t cc) {
  if (!g_active) return 0;
  uint32_t t = bits * lanes;
  S x = opnd(a, ca, t);
  auto fold = [&](auto f) { S r = lane(x, bits, 0); for (uint32_t i = 1; i < lanes; i++) r = f(r, lane(x, bits, i)); return ret(r); };
  switch (id) {
  case I_RED_ADD: return fold([&](S p, S q) { return mk(O_ADD, bits, p, q); });
  case I_RED_MUL: return fold([&](S p, S q) { return mk(O_MUL, bits, p, q); });
  case I_RED_AND: return fold([&](S p, S q) { return mk(O_AND, bits, p, q); });
  case I_RED_OR: return fold([&](S p, S q) { return mk(O_OR, bits, p, q); });
  case I_RED_XOR: return fold([&](S p, S q) { return mk(O_XOR, bits, p, q); });
  case I_RED_UMAX: return fold([&](S p, S q) { return mkIte(mk(O_ULT, 1, p, q), q, p); });
  case I_RED_UMIN: return fold([&](S p, S q) { return mkIte(mk(O_ULT, 1, p, q), p, q); });
  default: break;
  }
  auto un = [&](auto f) { return ret(lanewise(bits, lanes, x, 0, [&](S p, S) { return f(p); })); };
  switch (id) {
  case I_ABS: return un([&](S p) { return mkIte(mk(O_SLT, 1, p, mkConst64(0, bits)), mk(O_SUB, bits, mkConst64(0, bits), p), p); });
  case I_CTLZ: return un([&](S p) { S r = mkConst64(bits, bits); for (uint32_t i = 0; i < bits; i++) r = mkIte(mkExtract(p, i, 1), mkConst64(bits - 1 - i, bits), r); return r; });
  case I_CTTZ: return un([&](S p) { S r = mkConst64(bits, bits); for (int i = bits - 1; i >= 0; i--) r = mkIte(mkExtract(p, i, 1), mkConst64(i, bits), r); return r; });
  case I_CTPOP: return un([&](S p) { S r = mkZext(mkExtract(p, 0, 1), bits); for (uint32_t i = 1; i < bits; i++) r = mk(O_ADD, bits, r, mkZext(mkExtract(p, i, 1), bits)); return r; });
  case I_BSWAP: return un([&](S p) { S r = 0; for (uint32_t i = 0; i < bits / 8; i++) { S q = mkExtract(p, i * 8, 8); r = r ? mkConcat(r, q) : q; } return r; });
  case I_BITREV: return un([&](S p) { S r = 0; for (uint32_t i = 0; i < bits; i++) { S q = mkExtract(p, i, 1); r = r ? mkConcat(r, q) : q; } return r; });
  default: break;
  }
  S y = opnd(b, cb, t);
  auto two = [&](auto f) { return ret(lanewise(bits, lanes, x, y, f)); };
  switch (id) {
  case I_UMIN: return two([&](S p, S q) { return mkIte(mk(O_ULT, 1, p, q), p, q); });
  case I_UMAX: return two([&](S p, S q) { return mkIte(mk(O_ULT, 1, p, q), q, p); });
  case I_SMIN: return two([&](S p, S q) { return mkIte(mk(O_SLT, 1, p, q), p, q); });
  case I_SMAX: return two([&](S p, S q) { return mkIte(mk(O_SLT, 1, p, q), q, p); });
  case I_UADDSAT: return two([&](S p, S q) { S s = mk(O_ADD, bits, p, q); return mkIte(mk(O_ULT, 1, s, p), mkConst(mpz_class(-1), bits), s); });
  case I_USUBSAT: return two([&](S p, S q) { return mkIte(mk(O_ULT, 1, p, q), mkConst64(0, bits), mk(O_SUB, bits, p, q)); });
  case I_SADDSAT: case I_SSUBSAT: return two([&](S p, S q) { S s = mk(id == I_SADDSAT ? O_ADD : O_SUB, bits + 1, mkSext(p, bits + 1), mkSext(q, bits + 1));
    mpz_class mx = 1; mx <<= bits - 1; S hi = mkConst(mx - 1, bits + 1), lo = mkConst(-mx, bits + 1);
    return mkExtract(mkIte(mk(O_SLT, 1, hi, s), hi, mkIte(mk(O_SLT, 1, s, lo), lo, s)), 0, bits); });
  case I_UADDO: return two([&](S p, S q) { return mkExtract(mk(O_ADD, bits + 1, mkZext(p, bits + 1), mkZext(q, bits + 1)), bits, 1); });
  case I_USUBO: return two([&](S p, S q) { return mk(O_ULT, 1, p, q); });
  case I_UMULO: return two([&](S p, S q) { return mkNot(mk(O_EQ, 1, mkExtract(mk(O_MUL, 2 * bits, mkZext(p, 2 * bits), mkZext(q, 2 * bits)), bits, bits), mkConst64(0, bits))); });
  case I_SADDO: case I_SSUBO: return two([&](S p, S q) { S s = mk(id == I_SADDO ? O_ADD : O_SUB, bits + 1, mkSext(p, bits + 1), mkSext(q, bits + 1)); return mk(O_XOR, 1, mkExtract(s, bits, 1), mkExtract(s, bits - 1, 1)); });
  case I_SMULO: return two([&](S p, S q) { S s = mk(O_MUL, 2 * bits, mkSext(p, 2 * bits), mkSext(q, 2 * bits)); return mkNot(mk(O_EQ, 1, s, mkSext(mkExtract(s, 0, bits), 2 * bits))); });
  default: break;
  }
  switch (id) {
  case I_ADDCARRY_V: case I_ADDCARRY_C: case I_SUBBORROW_V: case I_SUBBORROW_C: {
    S z = opnd(c, cc, 8);
    S ci = mkNot(mk(O_EQ, 1, z, mkConst64(0, 8)));
    // carry-in is semantically (z != 0); the usual 0/1 case keeps the linear form
    bool add = id == I_ADDCARRY_V || id == I_ADDCARRY_C;
    S s = mk(add ? O_ADD : O_SUB, bits + 1, mk(add ? O_ADD : O_SUB, bits + 1, mkZext(x, bits + 1), mkZext(y, bits + 1)), mkZext(ci, bits + 1));
    if (id == I_ADDCARRY_V || id == I_SUBBORROW_V) return ret(mkExtract(s, 0, bits));
    return ret(mkZext(mkExtract(s, bits, 1), 8)); }
  case I_FSHL: case I_FSHR: {
    S z = opnd(c, cc, t);
    S r = 0;
    for (uint32_t i = 0; i < lanes; i++) {
      S p = lane(x, bits, i), q = lane(y, bits, i), k = lane(z, bits, i);
      S m = mk(O_UREM, bits, k, mkConst64(bits, bits));
      S cat = mkConcat(p, q);
      S e;
      if (isConst(m)) { uint64_t v = eval64(m); e = id == I_FSHL ? (v ? mkExtract(cat, bits - v, bits) : p) : (v ? mkExtract(cat, v, bits) : q); }
      else e = id == I_FSHL ? mkExtract(mk(O_SHL, 2 * bits, cat, mkZext(m, 2 * bits)), bits, bits) : mkExtract(mk(O_LSHR, 2 * bits, cat, mkZext(m, 2 * bits)), 0, bits);
      r = r ? mkConcat(e, r) : e;
    }
    return ret(r); }
  }
  fprintf(stderr, "bad intr %u\n", id); abort();
}
S __sr_gep(S acc, uint64_t cacc, S idx, uint64_t cidx, uint32_t ib, uint64_t scale) {
  if (!g_active || (!acc && !idx)) return 0;
  S base = opnd(acc, cacc, 64);
  S i = opnd(idx, ib < 64 ? cidx & ((1ull << ib) - 1) : cidx, ib);
  i = ib < 64 ? mkSext(i, 64) : ib > 64 ? mkExtract(i, 0, 64) : i;
  return ret(mk(O_ADD, 64, base, mk(O_MUL, 64, i, mkConst64(scale, 64))));
}
bool __sr_br(S c, bool taken) { if (!g_active) return taken; return decide(c, taken); }
uint64_t __sr_concretize(S v, uint64_t c, uint32_t) { return g_active ? concretize(v, c) : c; }
uint64_t __sr_addr(S v, uint64_t c) { return g_active ? concretize(v, c) : c; }
// -------- heap arena with redzones
static uint8_t* A_base = nullptr; static const uint64_t A_size = 1ull << 31; static uint64_t A_top = 0; static uint8_t* A_state; // 1 = addressable
static vector<uint64_t> A_free[64];
static void heapErr(uint64_t a, uint64_t n, const char* what) {
  if (!g_active) return;
  string m = string("memory-safety: heap ") + what;
  if (!g_forced) addViolation(m, g_varVal); else { vector<mpz_class> mo; if (query(mkConst64(1, 1), true, mo, g_at) == R_SAT) addViolation(m, mo); else g_undecided.insert(m); }
  (void)a; (void)n; endPath();
}
static inline void heapCheck(uint64_t a, uint64_t n, const char* what) {
  uint64_t off = a - (uint64_t)A_base;
  if (off >= A_size || !A_base) return;
  for (uint64_t i = 0; i < n; i++) if (off + i >= A_size || !A_state[off + i]) { heapErr(a, n, what); return; }
}
static void heapInit() { A_base = (uint8_t*)mmap(0, A_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); A_state = (uint8_t*)mmap(0, A_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); A_top = 4096; }
static void* heapAlloc(uint64_t n, uint64_t al) {
  if (!A_base) heapInit();
  if (n > (1ull << 30)) return nullptr;
  if (al < 16) al = 16; if (al > 64) { fprintf(stderr, "align %lu\n", al); }
  int cls = 5; while ((1ull << cls) < n + 64) cls++;
  uint64_t off;
  // header: 64 bytes [size, cls], payload, redzone
  if (A_free[cls].size() > 64) { off = A_free[cls].front(); A_free[cls].erase(A_free[cls].begin()); }
  else { off = (A_top + 63) & ~63ull; if (off + (1ull << cls) + 128 > A_size) return nullptr; A_top = off + (1ull << cls) + 64; }
  uint64_t* h = (uint64_t*)(A_base + off); h[0] = n; h[1] = cls; h[2] = 0x5afe;
  memset(A_state + off + 64, 1, n);
  clearRange((uint64_t)A_base + off + 64, n);
  return A_base + off + 64;
}
static bool inArena(void* p) { return A_base && (uint8_t*)p >= A_base && (uint8_t*)p < A_base + A_size; }
static void heapFree(void* p) {
  uint64_t off = (uint8_t*)p - A_base - 64; uint64_t* h = (uint64_t*)(A_base + off);
  if (h[2] != 0x5afe) { heapErr((uint64_t)p, 0, "invalid or double free"); return; }
  h[2] = 0xdead; memset(A_state + off + 64, 0, h[0]); clearRange((uint64_t)p, h[0]);
  A_free[h[1]].push_back(off);
}
static uint64_t heapSize(void* p) { return *(uint64_t*)((uint8_t*)p - 64); }
void* __srw_malloc(size_t n) { __sr_tok = 0; return heapAlloc(n, 16); }
void* __srw_calloc(size_t a, size_t b) { __sr_tok = 0; void* p = heapAlloc(a * b, 16); if (p) memset(p, 0, a * b); return p; }
void __srw_free(void* p) { __sr_tok = 0; if (!p) return; if (inArena(p)) heapFree(p); else free(p); }
static void shCopy(uint64_t d, uint64_t s, uint64_t n);
void* __srw_realloc(void* p, size_t n) { __sr_tok = 0; if (!p) return heapAlloc(n, 16); if (!inArena(p)) return realloc(p, n); void* q = heapAlloc(n, 16); uint64_t k = std::min<uint64_t>(n, heapSize(p)); memcpy(q, p, k); shCopy((uint64_t)q, (uint64_t)p, k); heapFree(p); return q; }
void* __srw_aligned_alloc(size_t a, size_t n) { __sr_tok = 0; return heapAlloc(n, a); }
int __srw_posix_memalign(void** o, size_t a, size_t n) { __sr_tok = 0; *o = heapAlloc(n, a); clearRange((uint64_t)o, 8); return *o ? 0 : 12; }
void* __srw_new(size_t n) { S s = argS(0, (void*)__srw_new); __sr_tok = 0; if (s && g_active) n = concretize(s, n); void* p = heapAlloc(n, 16); if (!p) throw std::bad_alloc(); return p; }
void* __srw_new_nt(size_t n, const std::nothrow_t&) { __sr_tok = 0; return heapAlloc(n, 16); }
void* __srw_new_al(size_t n, size_t a) { __sr_tok = 0; void* p = heapAlloc(n, a); if (!p) throw std::bad_alloc(); return p; }
void __srw_delete(void* p) { __srw_free(p); }
void __srw_delete_s(void* p, size_t) { __srw_free(p); }
void __srw_delete_sa(void* p, size_t, size_t) { __srw_free(p); }
// -------- memory
static S symLoad(uint64_t a, S addr, uint64_t n) {
  // symbolic address: enumerate the feasible addresses (bounded) and build an ITE chain
  uint64_t cur = a;
  vector<uint64_t> vals;
  double t0 = now();
  S excl = 0; bool complete = false;
  auto lits = pathLits();
  syncSolver(lits);
  zs->push();
  z3::params p(*zc); p.set("timeout", g_qt); zs->set(p);
  z3::expr za = toZ3(addr);
  (void)excl;
  try {
    for (int i = 0; i < 300; i++) {
      auto r = zs->check();
      if (r == z3::unsat) { complete = true; break; }
      if (r != z3::sat) break;
      uint64_t v = zs->get_model().eval(za, true).get_numeral_uint64();
      vals.push_back(v);
      zs->add(za != zc->bv_val((uint64_t)v, 64));
    }
  } catch (z3::exception&) {}
  zs->pop();
  g_st.solverTime += now() - t0;
  if (!complete) return (S)-1;
  std::sort(vals.begin(), vals.end());
  for (uint64_t v : vals) {
    uint64_t off = v - (uint64_t)A_base; bool bad = A_base && off < A_size && !(A_state[off] && A_state[off + n - 1]);
    bool wild = v < 4096 || (v > cur ? v - cur : cur - v) > (1u << 26);
    if (bad || wild) return (S)-1;   // let the concretizing path report it
  }
  S r = 0;
  for (uint64_t v : vals) { S x = loadShadow(v, n); if (!x) x = mkConst(fromBytes((void*)v, n), n * 8); r = r ? mkIte(mk(O_EQ, 1, addr, mkConst64(v, 64)), x, r) : x; }
  return r;
}
S __sr_load(void* p, S addr, uint64_t n) {
  uint64_t a = (uint64_t)p;
  if (!g_active) return 0;
  if (addr) {
    S r = symLoad(a, addr, n);
    if (r == (S)-1) { uint64_t v = concretize(addr, a); if (v != a) { endPath(); } }
    else { heapCheck(a, n, "read out of bounds"); return ret(r); }
  }
  heapCheck(a, n, "read out of bounds");
  return loadShadow(a, n);
}
void __sr_store(void* p, S addr, uint64_t n, S v) {
  uint64_t a = (uint64_t)p;
  if (!g_active) return;
  (void)addr;
  heapCheck(a, n, "write out of bounds");
  storeShadow(a, n, v);
}
void __sr_clear(void* p, uint64_t n) { if (g_active) clearRange((uint64_t)p, n); }
static void shCopy(uint64_t d, uint64_t s, uint64_t n) {
  bool any = false;
  for (uint64_t i = 0; i < n;) { uint64_t off = (s + i) & 4095, k = std::min<uint64_t>(n - i, 4096 - off); Page* p = page(s + i, false); if (p && p->used) for (uint64_t j = 0; j < k && !any; j++) any = p->c[off + j].e; i += k; }
  if (!any) { clearRange(d, n); return; }
  vector<Cell> t(n);
  for (uint64_t i = 0; i < n; i++) t[i] = getCell(s + i);
  // value consistency per run of cells
  for (uint64_t i = 0; i < n; i++) if (t[i].e) { uint8_t b = mpz_class(evalNode(t[i].e) >> (t[i].byte * 8)).get_ui() & 255; if (b != *(uint8_t*)(s + i)) { t[i] = {0, 0}; g_stale++; } }
  for (uint64_t i = 0; i < n; i++) setCell(d + i, t[i]);
}
void __sr_memcpy(void* d, void* s, uint64_t n) { if (!g_active || !n) return; heapCheck((uint64_t)s, n, "read out of bounds (memcpy)"); heapCheck((uint64_t)d, n, "write out of bounds (memcpy)"); shCopy((uint64_t)d, (uint64_t)s, n); }
void __sr_memset(void* d, S sv, uint8_t v, uint64_t n) { (void)v; if (!g_active || !n) return; heapCheck((uint64_t)d, n, "write out of bounds (memset)"); if (sv) for (uint64_t i = 0; i < n; i++) setCell((uint64_t)d + i, {sv, 0}); else clearRange((uint64_t)d, n); }
void __sr_byval(void* d, void* s, uint64_t n) { if (!g_active) return; if (s) shCopy((uint64_t)d, (uint64_t)s, n); else clearRange((uint64_t)d, n); }
void __sr_note(const char* w, S s) { if (g_active && s) g_notes[w]++; }
static const std::set<string> kBenign = {"__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "__cxa_atexit", "abort", "_ZSt17__throw_bad_allocv", "__assert_fail", "exit",
  "_ZSt20__throw_length_errorPKc", "_ZSt24__throw_out_of_range_fmtPKcz", "__cxa_throw", "__cxa_begin_catch", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt9terminatev"};
void __sr_ext(const char* name, void* fn) {
  if (!g_active) return;
  if (!strncmp(name, "sym_", 4) || !strncmp(name, "zi_", 3)) return;
  if (kBenign.count(name)) return;
  // Might be instrumented code of another unit: the token tells; we only record symbolic scalars here.
  bool any = false;
  for (uint32_t i = 0; i < __sr_nargs && i < 240; i++) if (__sr_args[i]) any = true;
  if (any) g_ext[name]++;
  (void)fn;
}
void* __srw_memcpy(void* d, const void* s, size_t n) { S l = argS(2, (void*)__srw_memcpy); __sr_tok = 0; if (l && g_active) n = concretize(l, n); __sr_memcpy(d, (void*)s, n); return memmove(d, s, n); }
void* __srw_memmove(void* d, const void* s, size_t n) { S l = argS(2, (void*)__srw_memmove); __sr_tok = 0; if (l && g_active) n = concretize(l, n); __sr_memcpy(d, (void*)s, n); return memmove(d, s, n); }
void* __srw_memset(void* d, int v, size_t n) { S sv = argS(1, (void*)__srw_memset), l = argS(2, (void*)__srw_memset); __sr_tok = 0; if (l && g_active) n = concretize(l, n); if (sv) sv = mkExtract(sv, 0, 8); __sr_memset(d, sv, v, n); return memset(d, v, n); }
static S cellOr(const void* p) { S e = loadShadow((uint64_t)p, 1); return e ? e : mkConst64(*(const uint8_t*)p, 8); }
int __srw_memcmp(const void* a, const void* b, size_t n) {
  void* self = (void*)__srw_memcmp; S l = argS(2, self); __sr_tok = 0;
  if (!g_active) return memcmp(a, b, n);
  if (l) n = concretize(l, n);
  heapCheck((uint64_t)a, n, "read out of bounds (memcmp)"); heapCheck((uint64_t)b, n, "read out of bounds (memcmp)");
  S r = mkConst64(0, 32);
  for (size_t i = n; i-- > 0;) { S x = cellOr((const uint8_t*)a + i), y = cellOr((const uint8_t*)b + i); r = mkIte(mk(O_EQ, 1, x, y), r, mk(O_SUB, 32, mkZext(x, 32), mkZext(y, 32))); }
  int v = (int)eval64(r);
  __sr_ret[0] = ret(r); __sr_rettok = self;
  return v;
}
int __srw_bcmp(const void* a, const void* b, size_t n) {
  void* self = (void*)__srw_bcmp; S l = argS(2, self); __sr_tok = 0;
  if (!g_active) return memcmp(a, b, n);
  if (l) n = concretize(l, n);
  S eq = mkConst64(1, 1);
  for (size_t i = 0; i < n; i++) eq = mk(O_AND, 1, eq, mk(O_EQ, 1, cellOr((const uint8_t*)a + i), cellOr((const uint8_t*)b + i)));
  S r = mkZext(mkNot(eq), 32);
  int v = (int)eval64(r);
  __sr_ret[0] = ret(r); __sr_rettok = self;
  return v;
}
size_t __srw_strlen(const char* s) { __sr_tok = 0; if (!g_active) return strlen(s); size_t i = 0; for (;; i++) { heapCheck((uint64_t)s + i, 1, "read out of bounds (strlen)"); S e = mk(O_EQ, 1, cellOr(s + i), mkConst64(0, 8)); if (isConst(e) ? eval64(e) : decide(e, s[i] == 0)) return i; } }
void* __srw_memchr(const void* s, int c, size_t n) { S sc = argS(1, (void*)__srw_memchr), l = argS(2, (void*)__srw_memchr); __sr_tok = 0; if (!g_active) return (void*)memchr(s, c, n); if (l) n = concretize(l, n); S k = sc ? mkExtract(sc, 0, 8) : mkConst64((uint8_t)c, 8);
  for (size_t i = 0; i < n; i++) { heapCheck((uint64_t)s + i, 1, "read out of bounds (memchr)"); S e = mk(O_EQ, 1, cellOr((const uint8_t*)s + i), k); if (isConst(e) ? eval64(e) : decide(e, eval64(e))) return (void*)((const uint8_t*)s + i); } return nullptr; }
static int scmp(const char* a, const char* b, size_t n) {
  for (size_t i = 0; i < n; i++) { S x = cellOr(a + i), y = cellOr(b + i); S e = mk(O_EQ, 1, x, y); if (!(isConst(e) ? eval64(e) : decide(e, eval64(e)))) { S lt = mk(O_ULT, 1, x, y); return (isConst(lt) ? eval64(lt) : decide(lt, eval64(lt))) ? -1 : 1; }
    S z = mk(O_EQ, 1, x, mkConst64(0, 8)); if (isConst(z) ? eval64(z) : decide(z, eval64(z))) return 0; } return 0; }
int __srw_strcmp(const char* a, const char* b) { __sr_tok = 0; return g_active ? scmp(a, b, SIZE_MAX) : strcmp(a, b); }
int __srw_strncmp(const char* a, const char* b, size_t n) { __sr_tok = 0; return g_active ? scmp(a, b, n) : strncmp(a, b, n); }
}
// replaced globally so that arena memory released by uninstrumented code is recognised
void operator delete(void* p) noexcept { if (inArena(p)) heapFree(p); else free(p); }
void operator delete[](void* p) noexcept { if (inArena(p)) heapFree(p); else free(p); }
void operator delete(void* p, size_t) noexcept { if (inArena(p)) heapFree(p); else free(p); }
void operator delete[](void* p, size_t) noexcept { if (inArena(p)) heapFree(p); else free(p); }

// ------------------------------------------------------------------ main loop
static vector<std::pair<string, void (*)()>>& regs() { static vector<std::pair<string, void (*)()>> r; return r; }
extern "C" void sym_register(const char* n, void (*f)()) { __sr_tok = 0; regs().push_back({n, f}); }
static void onSig(int s) { if (g_active) { siglongjmp(g_sjb, s); } _exit(90); }
static string esc(const string& s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static string inputJson(const vector<mpz_class>& in) { string r = "{"; for (size_t i = 0; i < g_varNames.size(); i++) { if (i) r += ", "; r += "\"" + g_varNames[i] + "\": \"" + std::to_string(g_varBits[i]) + ":" + (i < in.size() ? in[i].get_str(16) : "0") + "\""; } return r + "}"; }
int main(int argc, char** argv) {
  string out = "/dev/stdout"; double tl = 600;
  vector<string> names;
  for (int i = 1; i < argc; i++) { string a = argv[i]; if (a == "--out") out = argv[++i]; else if (a == "--time") tl = atof(argv[++i]); else if (a == "--qt") g_qt = atoi(argv[++i]); else if (a == "--at") g_at = atoi(argv[++i]); else if (a == "--seed") g_seed = atoi(argv[++i]); else if (a == "--maxpaths") g_maxPaths = atoll(argv[++i]); else if (a == "--list") { for (auto& r : regs()) puts(r.first.c_str()); return 0; } else names.push_back(a); }
  for (auto& r : regs()) if (names.empty() || r.first == names[0]) { g_name = r.first; 
    zc = new z3::context; zs = new z3::solver(*zc, "QF_BV");
    g_rng = new gmp_randclass(gmp_randinit_default); g_rng->seed(g_seed);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSig; sa.sa_flags = SA_NODEFER | SA_ONSTACK;
    static char alt[1 << 16]; stack_t ss{alt, 0, sizeof alt}; sigaltstack(&ss, 0);
    for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGTRAP}) sigaction(s, &sa, 0);
    double t0 = now(); g_deadline = t0 + tl;
    g_work.push_back({{}, {}, false});
    while (!g_work.empty() && g_viol.size() < 3) {
      if (now() > g_deadline || g_st.paths >= g_maxPaths) { g_timeout = true; break; }
      g_cur = g_work.back(); g_work.pop_back();
      g_varVal = g_cur.input; g_varVal.resize(std::max(g_varVal.size(), g_varBits.size()));
      g_occ.clear(); g_epoch++; g_pi = 0; g_path.clear(); g_forced = g_cur.forced; g_arith = false; if (g_realOnly) { g_realOnly = false; g_hard.clear(); }
      for (auto& p : g_pages) if (p.second->used) { memset(p.second, 0, sizeof(Page)); }
      __sr_tok = 0; __sr_rettok = 0;
      volatile int phase = 0; (void)phase;
      int sg = sigsetjmp(g_sjb, 1);
      if (sg == 0) {
        if (setjmp(g_jb) == 0) {
          g_active = true;
          try { r.second(); } catch (...) { if (g_active && !g_forced) addViolation("uncaught exception", g_varVal); }
          g_active = false;
          g_st.paths++; if (g_forced) g_st.forcedPaths++;
        } else g_active = false;
      } else {
        g_st.crashes++;
        string m = string("crash: signal ") + strsignal(sg);
        if (!g_forced) addViolation(m, g_varVal);
        else { vector<mpz_class> mo; Res q = query(mkConst64(1, 1), true, mo, g_at); if (q == R_SAT) addViolation(m, mo); else if (q != R_UNSAT) { g_st.undecidedAsserts++; g_undecided.insert(m); } }
        g_active = false;
        sigset_t em; sigemptyset(&em); sigprocmask(SIG_SETMASK, &em, 0);
      }
    }
    FILE* f = fopen(out.c_str(), "w");
    fprintf(f, "{\"harness\": \"%s\", \"paths\": %lu, \"forced_paths\": %lu, \"branches\": %lu, \"asserts\": %lu, \"sym_asserts\": %lu, \"concrete_asserts\": %lu, \"sat\": %lu, \"unsat\": %lu, \"unknown\": %lu, \"int_unsat\": %lu, \"int_queries\": %lu, \"undecided_asserts\": %lu, \"undecided_branches\": %lu, \"concretizations\": %lu, \"assume_cut\": %lu, \"stale\": %lu, \"divergences\": %lu, \"solver_s\": %.2f, \"wall_s\": %.2f, \"complete\": %s, \"nodes\": %zu",
            g_name.c_str(), g_st.paths, g_st.forcedPaths, g_st.branches, g_st.asserts, g_st.symAsserts, g_st.concreteAsserts, g_st.sat, g_st.unsat, g_st.unknown, g_st.intUnsat, g_intQueries, g_st.undecidedAsserts, g_st.undecidedBranches, g_st.conc, g_st.assumeCut, g_stale, g_div, g_st.solverTime, now() - t0, g_timeout || g_div ? "false" : "true", N_.size());
    auto dm = [&](const char* k, std::map<string, uint64_t>& m) { fprintf(f, ", \"%s\": {", k); bool first = true; for (auto& p : m) { fprintf(f, "%s\"%s\": %lu", first ? "" : ", ", esc(p.first).c_str(), p.second); first = false; } fprintf(f, "}"); };
    dm("reached", g_reached); dm("assert_sites", g_assertSites); dm("notes", g_notes); dm("external_calls_with_symbolic_args", g_ext);
    fprintf(f, ", \"undecided\": ["); { bool first = true; for (auto& u : g_undecided) { fprintf(f, "%s\"%s\"", first ? "" : ", ", esc(u).c_str()); first = false; } } fprintf(f, "]");
    fprintf(f, ", \"violations\": ["); { bool first = true; for (auto& v : g_viol) { fprintf(f, "%s{\"msg\": \"%s\", \"input\": %s}", first ? "" : ", ", esc(v.msg).c_str(), inputJson(v.input).c_str()); first = false; } } fprintf(f, "]");
    fprintf(f, ", \"sample_input\": %s}\n", g_pool.empty() ? "{}" : inputJson(g_pool.back()).c_str());
    fclose(f);
    fflush(stdout);
    _exit(0);
  }
  fprintf(stderr, "no such harness\n");
  return 2;
}
