#include "intp.h"
#include <z3++.h>
#include <chrono>
#include <set>
#include <cstdio>
#include <cstring>
std::vector<ZNode> Z_;
double g_intTime = 0; uint64_t g_intQueries = 0; bool g_realOnly = false;
mpz_class ziEval(int z) { ZNode& n = Z_[z]; switch (n.kind) { case 0: return n.v; case 1: return evalNode(n.bv); case 2: return ziEval(n.a) + ziEval(n.b); case 3: return ziEval(n.a) - ziEval(n.b); default: return ziEval(n.a) * ziEval(n.b); } }
mpz_class ziEvalWith(int z, Evaluator& ev) { ZNode& n = Z_[z]; switch (n.kind) { case 0: return n.v; case 1: return ev.eval(n.bv); case 2: return ziEvalWith(n.a, ev) + ziEvalWith(n.b, ev); case 3: return ziEvalWith(n.a, ev) - ziEvalWith(n.b, ev); default: return ziEvalWith(n.a, ev) * ziEvalWith(n.b, ev); } }

namespace {
struct Prover {
  struct Atom { mpz_class lo, hi; std::vector<Con> cons; int var; unsigned sh = 0; std::vector<IV> small; };
  std::vector<Atom> atoms;
  std::unordered_map<S, IV> memo;
  std::map<std::string, int> keyed;
  std::map<int, mpz_class> subst;  // var index -> constant

  static void add(Poly& p, const Poly& q, const mpz_class& c) {
    for (auto& [m, v] : q) { auto it = p.find(m); if (it == p.end()) { mpz_class t = v * c; if (t != 0) p.emplace(m, t); } else { it->second += v * c; if (it->second == 0) p.erase(it); } }
  }
  static Poly cst(const mpz_class& v) { Poly p; if (v != 0) p[{}] = v; return p; }
  static Poly mulp(const Poly& a, const Poly& b) { Poly r; for (auto& [m, v] : a) for (auto& [n, w] : b) { Mono k(m); k.insert(k.end(), n.begin(), n.end()); std::sort(k.begin(), k.end()); auto& x = r[k]; x += v * w; if (x == 0) r.erase(k); } return r; }
  static bool isConst(const Poly& p, mpz_class& v) { if (p.empty()) { v = 0; return true; } if (p.size() == 1 && p.begin()->first.empty()) { v = p.begin()->second; return true; } return false; }
  Poly at(int a) { Poly p; p[{a}] = 1; return p; }
  static std::string str(const Poly& p) { std::string s; for (auto& [m, v] : p) { for (int a : m) { s += std::to_string(a); s += '.'; } s += '*'; s += v.get_str(16); s += '+'; } return s; }
  int newAtom(const mpz_class& lo, const mpz_class& hi, int var = -1) { atoms.push_back({lo, hi, {}, var, 0, {}}); return atoms.size() - 1; }
  void range(const Poly& p, mpz_class& lo, mpz_class& hi) {
    lo = hi = 0;
    for (auto& [m, v] : p) {
      mpz_class l = 1, h = 1;
      for (int a : m) { mpz_class c[4] = {l * atoms[a].lo, l * atoms[a].hi, h * atoms[a].lo, h * atoms[a].hi}; l = h = c[0]; for (auto& x : c) { if (x < l) l = x; if (x > h) h = x; } }
      if (v >= 0) { lo += v * l; hi += v * h; } else { lo += v * h; hi += v * l; }
    }
  }
  static mpz_class fdiv(const mpz_class& a, const mpz_class& b) { mpz_class r; mpz_fdiv_q(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
  std::map<int, std::pair<Poly, mpz_class>> zdef;  // atom == poly modulo d
  std::map<int, std::pair<Poly, mpz_class>> xdef;  // atom == poly / d exactly
  // floor(s / d) with the known total range [lo,hi] of s
  Poly floorDiv(const Poly& s, const mpz_class& d, const mpz_class& lo, const mpz_class& hi) {
    mpz_class ql = fdiv(lo, d), qh = fdiv(hi, d);
    if (ql == qh) return cst(ql);
    Poly s0, s1; mpz_class half = d / 2;
    for (auto& [m, v] : s) { mpz_class r, q; mpz_fdiv_qr(q.get_mpz_t(), r.get_mpz_t(), v.get_mpz_t(), d.get_mpz_t());
      if (r > half) { r -= d; q += 1; }
      if (r != 0) s0[m] = r; if (q != 0) s1[m] = q; }
    mpz_class c;
    if (isConst(s0, c)) { Poly r = s1; add(r, cst(fdiv(c, d)), 1); return r; }
    // normalize the constant part into [0,d)
    mpz_class l0, h0; range(s0, l0, h0);
    mpz_class q0l = fdiv(l0, d), q0h = fdiv(h0, d);
    if (q0l == q0h) { Poly r = s1; add(r, cst(q0l), 1); return r; }
    // exact division: some atom is, modulo d, a polynomial that makes the remainder constant
    {
      auto tryExact = [&](const Poly& e) -> bool { Poly x = redMod(e, d); return isConst(x, c); };
      bool exact = false; Poly all = s0; bool any = false;
      for (auto& [m, v] : s0) if (m.size() == 1) { auto z = zdef.find(m[0]); if (z == zdef.end() || !mpz_divisible_p(z->second.second.get_mpz_t(), d.get_mpz_t())) continue;
        Poly e = s0; add(e, at(m[0]), -v); add(e, z->second.first, v); add(all, at(m[0]), -v); add(all, z->second.first, v); any = true;
        if (tryExact(e)) { exact = true; break; } }
      if (!exact && any && tryExact(all)) exact = true;
      if (exact) {
        mpz_class c0; mpz_fdiv_r(c0.get_mpz_t(), c.get_mpz_t(), d.get_mpz_t());
        std::string key = "ex:" + d.get_str(36) + ":" + str(s0);
        auto it = keyed.find(key); int a;
        if (it == keyed.end()) {
          a = newAtom(q0l, q0h); keyed[key] = a;
          Poly r = s0; add(r, cst(c0), -1); xdef[a] = {r, d};
          add(r, at(a), -d); atoms[a].cons.push_back({false, {}, r, C_EQ0});
          if (s1.empty()) { if (ql > atoms[a].lo) atoms[a].lo = ql; if (qh < atoms[a].hi) atoms[a].hi = qh; }
        } else a = it->second;
        Poly Q = s1; add(Q, at(a), 1); return Q;
      }
    }
    std::string key = "fd:" + d.get_str(36) + ":" + str(s0);
    auto it = keyed.find(key);
    int a;
    if (it == keyed.end()) {
      a = newAtom(q0l, q0h);
      keyed[key] = a;
      Poly r = s0; add(r, at(a), -d);
      Con c1{false, {}, r, C_GE0};
      Poly r2 = cst(d - 1); add(r2, r, -1);
      Con c2{false, {}, r2, C_GE0};
      atoms[a].cons.push_back(c1); atoms[a].cons.push_back(c2);
    } else a = it->second;
    Poly Q = s1; add(Q, at(a), 1);
    // total range: ql <= Q <= qh
    std::string rk = "rg:" + str(Q) + ":" + ql.get_str(36) + ":" + qh.get_str(36);
    if (!keyed.count(rk)) {
      keyed[rk] = a;
      Poly x = Q; add(x, cst(ql), -1); atoms[a].cons.push_back({false, {}, x, C_GE0});
      Poly y = cst(qh); add(y, Q, -1); atoms[a].cons.push_back({false, {}, y, C_GE0});
      if (s1.empty()) { if (ql > atoms[a].lo) atoms[a].lo = ql; if (qh < atoms[a].hi) atoms[a].hi = qh; }
      else if (qh - ql <= 4) atoms[a].small.push_back({Q, ql, qh});
    }
    return Q;
  }
  std::unordered_map<S, IV> raw;   // the unwrapped value of ADD / SUB nodes (exact integer)
  S cur = 0;
  IV wrapR(const Poly& s, const mpz_class& lo, const mpz_class& hi, unsigned w) { raw[cur] = {s, lo, hi}; return wrap(s, lo, hi, w); }
  IV wrap(const Poly& s, const mpz_class& lo, const mpz_class& hi, unsigned w) {
    mpz_class d = 1; d <<= w;
    if (w == 1 && lo >= -1 && hi <= 0) { Poly r; add(r, s, -1); return {r, -hi, -lo}; }
    if (lo >= 0 && hi < d) return {s, lo, hi};
    Poly q = floorDiv(s, d, lo, hi);
    Poly r = s; add(r, q, -d);
    mpz_class l = 0, h = d - 1, c;
    if (isConst(r, c)) { l = h = c; }
    mpz_class rl, rh; range(r, rl, rh);
    if (rl > l) l = rl; if (rh < h) h = rh;
    return {r, l, h};
  }
  Poly boolOp(const char* tag, const Poly& a, const Poly& b, bool isAnd) {
    mpz_class c;
    if (isConst(a, c)) return isAnd ? (c == 0 ? cst(0) : b) : (c == 0 ? b : cst(1));
    if (isConst(b, c)) return isAnd ? (c == 0 ? cst(0) : a) : (c == 0 ? a : cst(1));
    std::string sa = str(a), sb = str(b); if (sa == sb) return a;
    const Poly *pa = &a, *pb = &b; if (sa > sb) { std::swap(sa, sb); std::swap(pa, pb); }
    std::string key = std::string(tag) + sa + "|" + sb;
    auto it = keyed.find(key);
    if (it != keyed.end()) return at(it->second);
    int z = newAtom(0, 1); keyed[key] = z;
    auto ge = [&](Poly p) { atoms[z].cons.push_back({false, {}, p, C_GE0}); };
    if (isAnd) { Poly p = a; add(p, at(z), -1); ge(p); p = b; add(p, at(z), -1); ge(p); p = at(z); add(p, a, -1); add(p, b, -1); add(p, cst(1), 1); ge(p); }
    else { Poly p = at(z); add(p, a, -1); ge(p); p = at(z); add(p, b, -1); ge(p); p = a; add(p, b, 1); add(p, at(z), -1); ge(p); }
    return at(z);
  }
  Poly ite(const Poly& c, const IV& A, const IV& B, IV& out) {
    mpz_class k;
    if (isConst(c, k)) { out = k != 0 ? A : B; return out.p; }
    Poly d = A.p; add(d, B.p, -1);
    mpz_class lo = A.lo < B.lo ? A.lo : B.lo, hi = A.hi > B.hi ? A.hi : B.hi;
    if (isConst(d, k)) { Poly r = B.p; add(r, c, k); out = {r, lo, hi}; return r; }
    std::string key = "ite:" + str(c) + "?" + str(A.p) + ":" + str(B.p);
    auto it = keyed.find(key);
    int z;
    if (it != keyed.end()) z = it->second;
    else {
      z = newAtom(lo, hi); keyed[key] = z;
      Poly p = at(z); add(p, A.p, -1); atoms[z].cons.push_back({true, c, p, C_EQ0});
      Poly nc = cst(1); add(nc, c, -1);
      Poly q = at(z); add(q, B.p, -1); atoms[z].cons.push_back({true, nc, q, C_EQ0});
    }
    out = {at(z), lo, hi};
    return out.p;
  }
  Poly ult(const IV& a, const IV& b, unsigned w) {  // [a < b], values in any common range of width < 2^w
    mpz_class lo = a.lo - b.hi, hi = a.hi - b.lo;
    if (hi < 0) return cst(1); if (lo >= 0) return cst(0);
    mpz_class d = 1; d <<= w;
    Poly s = a.p; add(s, b.p, -1);
    Poly q = floorDiv(s, d, lo, hi);
    Poly r; add(r, q, -1); return r;
  }
  IV signedOf(const IV& a, unsigned w) {
    mpz_class h = 1; h <<= (w - 1);
    if (a.hi < h) return a;
    Poly m = floorDiv(a.p, h, a.lo, a.hi);
    Poly r = a.p; add(r, m, -2 * h);
    mpz_class lo = -h, hi = h - 1;
    if (a.lo >= h) { lo = a.lo - 2 * h; hi = a.hi - 2 * h; }
    return {r, lo, hi};
  }
  IV atomize(const IV& a, size_t maxTerms) {
    if (a.p.size() <= maxTerms) return a;
    std::string key = "at:" + str(a.p);
    auto it = keyed.find(key); int z;
    if (it != keyed.end()) z = it->second;
    else { z = newAtom(a.lo, a.hi); keyed[key] = z; Poly p = at(z); add(p, a.p, -1); atoms[z].cons.push_back({false, {}, p, C_EQ0}); }
    return {at(z), a.lo, a.hi};
  }
  IV opaque(S s, const mpz_class& hi) { int z = newAtom(0, hi); (void)s; return {at(z), 0, hi}; }

  const IV& tr(S root) {
    std::vector<S> st{root};
    while (!st.empty()) {
      S x = st.back();
      if (memo.count(x)) { st.pop_back(); continue; }
      bool ready = true;
      for (S k : {nd(x).a, nd(x).b, nd(x).c}) if (k && !memo.count(k)) { st.push_back(k); ready = false; }
      if (!ready) continue;
      st.pop_back();
      cur = x;
      IV r = tr1(x);
      memo[x] = r;
    }
    return memo[root];
  }
  IV tr1(S x) {
    Node n = nd(x);
    unsigned w = n.bits;
    mpz_class top = 1; top <<= w; top -= 1;
    auto K = [&](S k) -> const IV& { return memo[k]; };
    auto KR = [&](S k) -> const IV& { auto it = raw.find(k); return it != raw.end() && it->second.p.size() <= memo[k].p.size() + 2 ? it->second : memo[k]; };
    switch (n.op) {
    case O_CONST: { mpz_class v = constVal(x); return {cst(v), v, v}; }
    case O_VAR: {
      auto it = subst.find(n.imm); if (it != subst.end()) return {cst(it->second), it->second, it->second};
      // wide inputs are a sum of 64-bit limb atoms
      Poly p; for (unsigned sh = 0; sh < w; sh += 64) { unsigned b = w - sh < 64 ? w - sh : 64; mpz_class t = 1; t <<= b; t -= 1; int a = newAtom(0, t, n.imm); atoms[a].sh = sh; mpz_class c = 1; c <<= sh; p[{a}] = c; }
      return {p, 0, top}; }
    case O_ADD: {
      IV A = KR(n.a), B = KR(n.b); mpz_class half = 1; if (w > 1) half <<= (w - 1); mpz_class cv;
      if (isConst(B.p, cv) && cv >= half && w > 1) { mpz_class d = 1; d <<= w; Poly s = A.p; add(s, cst(cv - d), 1); return wrapR(s, A.lo + cv - d, A.hi + cv - d, w); }
      Poly s = A.p; add(s, B.p, 1); return wrapR(s, A.lo + B.lo, A.hi + B.hi, w); }
    case O_SUB: { IV A = KR(n.a), B = KR(n.b); Poly s = A.p; add(s, B.p, -1); return wrapR(s, A.lo - B.hi, A.hi - B.lo, w); }
    case O_MUL: {
      IV A = K(n.a), B = K(n.b); mpz_class c;
      if (isConst(A.p, c)) std::swap(A, B);
      if (isConst(B.p, c)) {
        // multiplication by a "negative" constant is kept small when the product wraps anyway
        Poly s; add(s, A.p, c);
        IV r = wrap(s, A.lo * c, A.hi * c, w);
        mpz_class big = 1; big <<= 20;
        if (w >= 32 && c > big && A.hi * c > top && A.p.size() > 1) {
          // a hashed / reduced multiplier (e.g. a Montgomery quotient): keep it as one atom, remember what it is modulo 2^w
          std::string key = "mc:" + std::to_string(w) + ":" + str(r.p); auto it = keyed.find(key); int z;
          if (it != keyed.end()) z = it->second; else {
            z = newAtom(r.lo, r.hi); keyed[key] = z; Poly e = r.p; add(e, at(z), -1); atoms[z].cons.push_back({false, {}, e, C_EQ0});
            mpz_class d = 1; d <<= w; zdef[z] = {redMod(s, d), d}; }
          return {at(z), r.lo, r.hi};
        }
        return r; }
      A = atomize(A, 4); B = atomize(B, 4);
      return wrap(mulp(A.p, B.p), A.lo * B.lo, A.hi * B.hi, w); }
    case O_UDIV: { IV A = K(n.a), B = K(n.b); mpz_class c; if (isConst(B.p, c) && c > 0) { return {floorDiv(A.p, c, A.lo, A.hi), fdiv(A.lo, c), fdiv(A.hi, c)}; } return opaque(x, top); }
    case O_UREM: { IV A = K(n.a), B = K(n.b); mpz_class c; if (isConst(B.p, c) && c > 0) { if (A.hi < c) return A; Poly q = floorDiv(A.p, c, A.lo, A.hi); Poly r = A.p; add(r, q, -c); return {r, 0, c - 1}; } return opaque(x, top); }
    case O_CONCAT: { IV A = K(n.a), B = K(n.b); mpz_class d = 1; d <<= nd(n.b).bits; Poly s = B.p; add(s, A.p, d); return {s, A.lo * d + B.lo, A.hi * d + B.hi}; }
    case O_EXTRACT: {
      IV A = K(n.a);
      A = KR(n.a);
      if (n.imm) { mpz_class d = 1; d <<= n.imm; Poly q = floorDiv(A.p, d, A.lo, A.hi); A = {q, fdiv(A.lo, d), fdiv(A.hi, d)}; }
      return wrap(A.p, A.lo, A.hi, w); }
    case O_ZEXT: return K(n.a);
    case O_SEXT: { unsigned sw = nd(n.a).bits; IV s = signedOf(K(n.a), sw); return wrap(s.p, s.lo, s.hi, w); }
    case O_ITE: { IV out; ite(K(n.a).p, K(n.b), K(n.c), out); return out; }
    case O_EQ: {
      const IV &A = K(n.a), &B = K(n.b);
      Poly d = A.p; add(d, B.p, -1); mpz_class c;
      if (isConst(d, c)) { int v = c == 0; return {cst(v), v, v}; }
      if (A.hi < B.lo || B.hi < A.lo) return {cst(0), 0, 0};
      if (d.rbegin()->second < 0) { Poly e; add(e, d, -1); d = e; }
      std::string key = "eq:" + str(d); auto it = keyed.find(key); int z;
      if (it != keyed.end()) z = it->second; else {
        z = newAtom(0, 1); keyed[key] = z;
        atoms[z].cons.push_back({true, at(z), d, C_EQ0});
        Poly nz = cst(1); add(nz, at(z), -1);
        atoms[z].cons.push_back({true, nz, d, C_NE0}); }
      return {at(z), 0, 1}; }
    case O_ULT: return {ult(K(n.a), K(n.b), nd(n.a).bits), 0, 1};
    case O_ULE: { Poly p = ult(K(n.b), K(n.a), nd(n.a).bits); Poly r = cst(1); add(r, p, -1); return {r, 0, 1}; }
    case O_SLT: { unsigned sw = nd(n.a).bits; return {ult(signedOf(K(n.a), sw), signedOf(K(n.b), sw), sw), 0, 1}; }
    case O_SLE: { unsigned sw = nd(n.a).bits; Poly p = ult(signedOf(K(n.b), sw), signedOf(K(n.a), sw), sw); Poly r = cst(1); add(r, p, -1); return {r, 0, 1}; }
    case O_AND: case O_OR: case O_XOR: {
      IV A = K(n.a), B = K(n.b);
      if (w == 1) {
        if (n.op == O_AND) return {boolOp("&", A.p, B.p, true), 0, 1};
        if (n.op == O_OR) return {boolOp("|", A.p, B.p, false), 0, 1};
        mpz_class c;
        if (isConst(B.p, c)) { if (c == 0) return A; Poly r = cst(1); add(r, A.p, -1); return {r, 0, 1}; }
        Poly an = boolOp("&", A.p, B.p, true); Poly r = A.p; add(r, B.p, 1); add(r, an, -2); return {r, 0, 1};
      }
      mpz_class c;
      if (n.op == O_XOR && isConst(B.p, c) && c == top) { Poly r = cst(top); add(r, A.p, -1); return {r, top - A.hi, top - A.lo}; }
      std::string key = std::string(n.op == O_AND ? "and" : n.op == O_OR ? "or" : "xor") + str(A.p) + "|" + str(B.p);
      auto it = keyed.find(key); int z;
      mpz_class hi = top;
      if (n.op == O_AND) hi = A.hi < B.hi ? A.hi : B.hi; else { mpz_class s = A.hi + B.hi; if (s < hi) hi = s; }
      if (it != keyed.end()) z = it->second; else {
        z = newAtom(0, hi); keyed[key] = z;
        auto ge = [&](Poly p) { atoms[z].cons.push_back({false, {}, p, C_GE0}); };
        if (n.op == O_AND) { Poly p = A.p; add(p, at(z), -1); ge(p); p = B.p; add(p, at(z), -1); ge(p); }
        else { Poly p = A.p; add(p, B.p, 1); add(p, at(z), -1); ge(p); if (n.op == O_OR) { p = at(z); add(p, A.p, -1); ge(p); p = at(z); add(p, B.p, -1); ge(p); } }
      }
      return {at(z), 0, hi}; }
    default: return opaque(x, top);
    }
  }
  Poly zi(int z) {
    ZNode n = Z_[z];
    switch (n.kind) {
    case 0: return cst(n.v);
    case 1: return tr(n.bv).p;
    case 2: { Poly p = zi(n.a); add(p, zi(n.b), 1); return p; }
    case 3: { Poly p = zi(n.a); add(p, zi(n.b), -1); return p; }
    default: return mulp(zi(n.a), zi(n.b));
    }
  }

  // ---- emission ----
  struct Bounded { Poly p; mpz_class ub; };
  static void substAtom(Poly& p, int a, const mpz_class& v) {
    Poly r;
    for (auto& [m, c] : p) { Mono k; mpz_class x = c; for (int i : m) { if (i == a) x *= v; else k.push_back(i); } if (x == 0) continue; auto& y = r[k]; y += x; if (y == 0) r.erase(k); }
    p = r;
  }
  static Poly redMod(const Poly& d, const mpz_class& m) {
    Poly r; mpz_class half = m / 2;
    for (auto& [k, v] : d) { mpz_class x; mpz_fdiv_r(x.get_mpz_t(), v.get_mpz_t(), m.get_mpz_t()); if (x > half) x -= m; if (x != 0) r[k] = x; }
    return r;
  }
  Res solve(const std::vector<IGoal>& facts, const IGoal& goal, unsigned timeout_ms, std::vector<mpz_class>* model, bool addLemmas) {
    auto t0 = std::chrono::steady_clock::now();
    struct Tm { std::chrono::steady_clock::time_point t; ~Tm() { g_intTime += std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count(); } } tm{t0};
    std::vector<Con> cons;
    std::vector<Bounded> bnd;
    auto lit = [&](const IGoal& g, bool neg, bool isGoal) {
      int kind = g.kind; bool n = neg;
      if (kind >= 10) { kind -= 10; n = !n; }
      if (kind == 0) { bool want = g.out != n;
        if (want && nd(g.bv).op == O_EQ && !isGoal) { Node t = nd(g.bv); Poly d = tr(t.a).p; add(d, tr(t.b).p, -1); cons.push_back({false, {}, d, C_EQ0}); }
        { const Node& t = nd(g.bv);  // x < c, x <= c, !(c <= x), !(c < x) bound an operand
          if ((t.op == O_ULT || t.op == O_ULE)) { S x = want ? t.a : t.b, c = want ? t.b : t.a; bool strict = want == (t.op == O_ULT);
            if (::isConst(c) && !::isConst(x)) { Poly px = tr(x).p; if (px.size() <= 8) bnd.push_back({px, strict ? mpz_class(constVal(c) - 1) : constVal(c)}); } } } Poly p = tr(g.bv).p; add(p, cst(want ? 1 : 0), -1); cons.push_back({false, {}, p, C_EQ0}); return; }
      Poly a = zi(g.a), b = zi(g.b);
      if (kind == 1) { if (!n) { Poly p = b; add(p, a, -1); add(p, cst(1), -1); cons.push_back({false, {}, p, C_GE0}); mpz_class c, rl, rh; range(a, rl, rh); if (isConst(b, c) && (rl >= 0 || Z_[g.a].kind == 1)) bnd.push_back({a, c - 1}); }
        else { Poly p = a; add(p, b, -1); cons.push_back({false, {}, p, C_GE0}); } return; }
      Poly d = a; add(d, b, -1);
      if (kind == 2) { cons.push_back({false, {}, d, n ? C_NE0 : C_EQ0}); return; }
      if (kind == 3) {
        Poly r = redMod(d, g.m);
        if (n && isGoal && !model) {
          // eliminate the carry / select atoms that the facts determine
          for (auto& [a, v] : lastFixed) substAtom(r, a, v);
          r = redMod(r, g.m);
          // exactly divided atoms: q = (s - c) * d^-1 (mod m)
          for (int it = 0; it < 400; it++) {
            int a = -1; for (auto& [m, v] : r) { if (m.size() == 1 && xdef.count(m[0]) && m[0] > a) a = m[0]; }
            if (a < 0) break;
            mpz_class inv; if (!mpz_invert(inv.get_mpz_t(), xdef[a].second.get_mpz_t(), g.m.get_mpz_t())) break;
            mpz_class c = r[{a}]; r.erase({a}); add(r, xdef[a].first, c * inv);
            for (auto& [b, v] : lastFixed) substAtom(r, b, v);
            r = redMod(r, g.m);
          }
          if (!r.empty()) gaussMod(cons, r, g.m);
          if (getenv("SYM_DEBUG")) fprintf(stderr, "  cong residue %zu terms: %s\n", r.size(), str(r).c_str());
          if (getenv("SYM_DEBUG2")) { std::set<int> sn; std::vector<int> wk; auto tch=[&](const Poly& p){ for (auto& [m, v] : p) for (int a : m) if (sn.insert(a).second) wk.push_back(a); }; tch(r); for (size_t i = 0; i < wk.size(); i++) { auto cs = atoms[wk[i]].cons; for (auto& c : cs) tch(c.p); }
            for (int a : sn) { fprintf(stderr, "   atom %d [%s,%s] var %d\n", a, atoms[a].lo.get_str(16).c_str(), atoms[a].hi.get_str(16).c_str(), atoms[a].var); for (auto& c : atoms[a].cons) fprintf(stderr, "       %s %d\n", str(c.p).c_str(), c.k); } }
          congElim(cons, bnd, r, g.m, timeout_ms, addLemmas);
          mpz_class cv; if (isConst(r, cv)) { cons.push_back({false, {}, cst(cv % g.m == 0 ? -1 : 0), C_GE0}); return; }
        }
        mpz_class lo, hi; range(r, lo, hi);
        int k = newAtom(fdiv(lo, g.m), fdiv(hi, g.m)), e = newAtom(n ? 1 : 0, n ? mpz_class(g.m - 1) : mpz_class(0));
        Poly p = r; add(p, at(k), -g.m); add(p, at(e), -1);
        cons.push_back({false, {}, p, C_EQ0});
        return;
      }
    };
    for (auto& f : facts) lit(f, false, false);
    if (getenv("SYM_DEBUG")) { fprintf(stderr, "  facts %zu bounds %zu:", facts.size(), bnd.size()); for (auto& b : bnd) fprintf(stderr, " [%s <= %s]", str(b.p).c_str(), b.ub.get_str(16).c_str()); fprintf(stderr, "\n"); }
    bool tight = !model && addLemmas;
    if (tight) {
      int gk = goal.kind % 10; Poly gp = gk == 0 ? tr(goal.bv).p : zi(goal.a), gq = gk == 0 ? Poly() : zi(goal.b);
      if (gk == 3) { add(gp, gq, -1); gp = redMod(gp, goal.m); gq = {}; }
      // a few relaxations are decided outright
      if (gk != 3) {
        size_t n = cons.size(); lit(goal, true, true);
        if (refuted(cons)) { g_intQueries++; return R_UNSAT; }
        if (emit1(cons, bnd, 3000, nullptr, addLemmas, true) == R_UNSAT) return R_UNSAT;
        cons.resize(n);
      } else { mpz_class c; if (isConst(gp, c) && goal.kind == 3) { if (c % goal.m == 0) return R_UNSAT; } }
      tighten(cons, bnd, timeout_ms, gk == 3 ? &gp : &gp, &gq);
    }
    lit(goal, true, true);
    if (refuted(cons)) { g_intQueries++; return R_UNSAT; }
    return emit(cons, bnd, timeout_ms, model, addLemmas);
  }
  static bool refuted(const std::vector<Con>& cons) {
    for (auto& c : cons) { mpz_class v; if (!c.guarded && isConst(c.p, v)) { bool ok = c.k == C_GE0 ? v >= 0 : c.k == C_EQ0 ? v == 0 : v != 0; if (!ok) return true; } }
    return false;
  }
  // linear elimination modulo m with every equality among the facts and atom definitions (monomials as columns)
  void gaussMod(const std::vector<Con>& cons, Poly& r, const mpz_class& m) {
    std::set<int> sn; std::vector<int> wk; auto tch = [&](const Poly& p) { for (auto& [k, v] : p) for (int a : k) if (sn.insert(a).second) wk.push_back(a); };
    std::vector<Poly> rows;
    auto use = [&](const Con& c) { if (!c.guarded && c.k == C_EQ0) rows.push_back(redMod(c.p, m)); };
    for (auto& c : cons) { tch(c.p); use(c); } tch(r);
    for (size_t i = 0; i < wk.size(); i++) for (auto& c : atoms[wk[i]].cons) { tch(c.p); use(c); }
    if (rows.size() > 400) return;
    // guarded equalities whose guard atom is fixed to 1
    std::set<int> one; for (auto& c : cons) if (!c.guarded && c.k == C_EQ0 && c.p.size() == 2 && c.p.begin()->first.empty() && c.p.rbegin()->first.size() == 1 && c.p.rbegin()->second == 1 && c.p.begin()->second == -1) one.insert(c.p.rbegin()->first[0]);
    for (size_t i = 0; i < wk.size(); i++) for (auto& c : atoms[wk[i]].cons) if (c.guarded && c.k == C_EQ0 && c.guard.size() == 1 && c.guard.begin()->first.size() == 1 && one.count(c.guard.begin()->first[0])) rows.push_back(redMod(c.p, m));
    std::map<Mono, Poly> basis;  // leading monomial -> row with leading coefficient 1
    auto reduce = [&](Poly& p) { bool ch = true; while (ch) { ch = false; for (auto it = p.rbegin(); it != p.rend(); ++it) { auto b = basis.find(it->first); if (b == basis.end()) continue; mpz_class c = it->second; add(p, b->second, -c); p = redMod(p, m); ch = true; break; } } };
    for (auto& row : rows) {
      reduce(row);
      // pivot on the largest monomial with an invertible coefficient (constants never)
      for (auto it = row.rbegin(); it != row.rend(); ++it) { if (it->first.empty()) continue; mpz_class inv; if (!mpz_invert(inv.get_mpz_t(), it->second.get_mpz_t(), m.get_mpz_t())) continue;
        Mono lead = it->first; Poly n; add(n, row, inv); n = redMod(n, m);
        for (auto& [k, b] : basis) { auto f = b.find(lead); if (f != b.end()) { mpz_class c = f->second; add(b, n, -c); b = redMod(b, m); } }
        basis[lead] = n; break; }
    }
    Poly q = r; reduce(q);
    mpz_class cv; if (isConst(q, cv) || q.size() < r.size()) r = q;
  }
  void congElim(const std::vector<Con>& cons, std::vector<Bounded>& bnd, Poly& r, const mpz_class& m, unsigned timeout_ms, bool lemmas) {
    mpz_class cv;
    if (isConst(r, cv)) return;
    if (r.size() > 60) return;
    // group the linear terms by |coefficient|; each group whose value the facts determine is replaced by that value
    z3::context ctx; z3::solver s(ctx, "QF_LRA"); z3::params pr(ctx); pr.set("timeout", 3000u); s.set(pr);
    std::map<Mono, z3::expr> mv; std::vector<int> ex; for (auto& [m2, v] : r) for (int a : m2) ex.push_back(a);
    load(ctx, s, mv, cons, bnd, lemmas, true, ex);
    auto t0 = std::chrono::steady_clock::now();
    for (int round = 0; round < 3; round++) {
      bool changed = false;
      std::map<mpz_class, Poly> groups;
      for (auto& [k, v] : r) { if (k.size() != 1) continue; mpz_class c = abs(v); Poly t; t[k] = v > 0 ? 1 : -1; add(groups[c], t, 1); }
      for (auto& [c, g] : groups) {
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() * 1000 > timeout_ms) return;
        z3::expr e = ctx.real_val(0); for (auto& [k, v] : g) e = e + ctx.real_val(v.get_str().c_str()) * mv.at(k);
        g_intQueries++;
        if (s.check() != z3::sat) return;   // facts already contradictory (or undecided): leave it to the caller
        z3::expr mvv = s.get_model().eval(e, true); mpq_class q; if (!mvv.is_numeral()) continue;
        { std::string ns = mvv.numerator().get_decimal_string(0), ds = mvv.denominator().get_decimal_string(0); try { q = mpq_class(mpz_class(ns), mpz_class(ds)); q.canonicalize(); } catch (...) { continue; } }
        mpz_class f = fdiv(q.get_num(), q.get_den());
        bool done = false;
        for (mpz_class v : {f, mpz_class(f + 1)}) {
          z3::expr vv = ctx.real_val(v.get_str().c_str());
          s.push(); s.add(e >= vv + 1); g_intQueries++; auto r1 = s.check(); s.pop(); if (r1 != z3::unsat) continue;
          s.push(); s.add(e <= vv - 1); g_intQueries++; auto r2 = s.check(); s.pop(); if (r2 != z3::unsat) continue;
          s.add(e == vv);
          mpz_class k0; mpz_class sg = 1; (void)k0; add(r, g, -c * sg); add(r, cst(c * v), 1); r = redMod(r, m); done = changed = true; break;
        }
        if (done) continue;
      }
      if (!changed) break;
      if (isConst(r, cv)) return;
    }
  }
  void load(z3::context& ctx, z3::solver& s, std::map<Mono, z3::expr>& mv, std::vector<Con> cons, std::vector<Bounded>& bnd, bool lemmas, bool real, const std::vector<int>& extra) {
    std::set<int> seen; std::vector<int> work;
    auto touch = [&](const Poly& p) { for (auto& [m, v] : p) for (int a : m) if (seen.insert(a).second) work.push_back(a); };
    for (int a : extra) if (seen.insert(a).second) work.push_back(a);
    if (lemmas) {
      // products of bounded big operands: 0 <= P*Q <= ubP*ubQ, and limb * operand
      for (size_t i = 0; i < bnd.size(); i++) for (size_t j = i; j < bnd.size(); j++) {
        Poly pq = mulp(bnd[i].p, bnd[j].p); if (pq.size() > 400) continue;
        cons.push_back({false, {}, pq, C_GE0}); Poly u = cst(bnd[i].ub * bnd[j].ub); add(u, pq, -1); cons.push_back({false, {}, u, C_GE0}); }
      for (size_t i = 0; i < bnd.size(); i++) for (size_t j = 0; j < bnd.size(); j++) {
        for (auto& [m, v] : bnd[j].p) { if (m.size() != 1) continue; int a = m[0]; if (atoms[a].lo < 0) continue; if (bnd[j].p.size() == 1 && v == 1) continue;
          Poly pq = mulp(at(a), bnd[i].p); Poly u = cst(0); add(u, at(a), bnd[i].ub); add(u, pq, -1);
          cons.push_back({false, {}, pq, C_GE0}); cons.push_back({false, {}, u, C_GE0}); } }
    }
    for (auto& c : cons) { touch(c.p); if (c.guarded) touch(c.guard); }
    std::vector<Con> all = cons;
    for (size_t i = 0; i < work.size(); i++) { auto cs = atoms[work[i]].cons; for (auto& c : cs) { all.push_back(c); touch(c.p); if (c.guarded) touch(c.guard); } }
    { // fixed atoms (a == const facts) are substituted out
      std::map<int, mpz_class> fx;
      for (auto& c : cons) if (!c.guarded && c.k == C_EQ0 && !c.p.empty() && c.p.size() <= 2) {
        auto it = c.p.rbegin(); if (it->first.size() != 1) continue; mpz_class k0 = 0; if (c.p.size() == 2) { if (!c.p.begin()->first.empty()) continue; k0 = c.p.begin()->second; }
        if (it->second == 1 || it->second == -1) fx[it->first[0]] = it->second == 1 ? mpz_class(-k0) : k0; }
      if (!fx.empty()) {
        std::vector<Con> n2;
        for (auto& c : all) {
          bool self = !c.guarded && c.k == C_EQ0 && !c.p.empty() && c.p.size() <= 2 && c.p.rbegin()->first.size() == 1 && fx.count(c.p.rbegin()->first[0]);
          if (self) { n2.push_back(c); continue; }
          Con d = c; std::set<int> us; for (auto& [m, v] : c.p) for (int a : m) if (fx.count(a)) us.insert(a); if (c.guarded) for (auto& [m, v] : c.guard) for (int a : m) if (fx.count(a)) us.insert(a);
          for (int a : us) { substAtom(d.p, a, fx[a]); if (d.guarded) substAtom(d.guard, a, fx[a]); }
          mpz_class cv; if (!d.guarded && isConst(d.p, cv)) { bool ok = d.k == C_GE0 ? cv >= 0 : d.k == C_EQ0 ? cv == 0 : cv != 0; if (ok) continue; }
          n2.push_back(d);
        }
        all.swap(n2);
      } }
    { std::set<std::string> dd; std::vector<Con> n2; for (auto& c : all) if (dd.insert(conStr(c)).second) n2.push_back(c); all.swap(n2); }
    auto num = [&](const mpz_class& v) { return real ? ctx.real_val(v.get_str().c_str()) : ctx.int_val(v.get_str().c_str()); };
    auto mono = [&](const Mono& m) -> z3::expr {
      auto it = mv.find(m); if (it != mv.end()) return it->second;
      std::string nm = "m"; for (int a : m) { nm += "_"; nm += std::to_string(a); }
      z3::expr e = real ? ctx.real_const(nm.c_str()) : ctx.int_const(nm.c_str()); mv.emplace(m, e);
      Poly p; p[m] = 1; mpz_class lo, hi; range(p, lo, hi);
      if (real && hi - lo == 1) s.add(e == num(lo) || e == num(hi));
      s.add(e >= num(lo)); s.add(e <= num(hi));
      return e; };
    auto lin = [&](const Poly& p) -> z3::expr { z3::expr_vector v(ctx); for (auto& [m, c] : p) { if (m.empty()) v.push_back(num(c)); else v.push_back(num(c) * mono(m)); } if (v.empty()) return num(0); return v.size() == 1 ? v[0] : z3::sum(v); };
    for (int a : work) mono({a});
    z3::expr zero = num(0), one = num(1);
    for (auto& c : all) {
      z3::expr e = lin(c.p);
      z3::expr f(ctx);
      if (c.k == C_GE0) f = e >= zero; else if (c.k == C_EQ0) f = e == zero; else f = (e >= one || e <= -one);
      if (c.guarded) f = z3::implies(lin(c.guard) == one, f);
      s.add(f);
    }
  }
  // Bounds tightening with integer rounding: every small-range atom (carry, borrow, quotient bit) reachable from the
  // constraints is fixed to a constant when the rational relaxation of the facts refutes the other values.
  std::map<std::string, std::vector<std::pair<Poly, mpz_class>>> tcache;
  static std::string conStr(const Con& c) { return (c.guarded ? "g" + str(c.guard) : std::string()) + char('0' + c.k) + str(c.p); }
  void tighten(std::vector<Con>& cons, std::vector<Bounded>& bnd, unsigned timeout_ms, const Poly* goalp, const Poly* goalp2) {
    std::string key; for (auto& c : cons) { key += conStr(c); key += ';'; }
    key += "|"; if (goalp) key += str(*goalp); key += "|"; if (goalp2) key += str(*goalp2);
    auto it = tcache.find(key);
    std::vector<std::pair<Poly, mpz_class>> fixed;
    if (it != tcache.end()) fixed = it->second;
    else {
      std::set<int> seen; std::vector<int> work;
      auto touch = [&](const Poly& p) { for (auto& [m, v] : p) for (int a : m) if (seen.insert(a).second) work.push_back(a); };
      for (auto& c : cons) { touch(c.p); if (c.guarded) touch(c.guard); }
      if (goalp) touch(*goalp); if (goalp2) touch(*goalp2);
      for (size_t i = 0; i < work.size(); i++) { auto cs = atoms[work[i]].cons; for (auto& c : cs) { touch(c.p); if (c.guarded) touch(c.guard); } }
      std::vector<IV> cand;
      for (int a : seen) { if (atoms[a].var < 0 && atoms[a].hi - atoms[a].lo <= 4 && atoms[a].hi > atoms[a].lo) cand.push_back({at(a), atoms[a].lo, atoms[a].hi}); for (auto& q : atoms[a].small) cand.push_back(q); }
      z3::context ctx; z3::solver s(ctx, "QF_LRA"); z3::params pr(ctx); pr.set("timeout", 2000u); s.set(pr);
      std::map<Mono, z3::expr> mv;
      load(ctx, s, mv, cons, bnd, true, true, std::vector<int>(seen.begin(), seen.end()));
      auto t0 = std::chrono::steady_clock::now();
      bool ch = true; int rounds = 0;
      std::vector<char> done(cand.size(), 0);
      while (ch && rounds++ < 3) {
        ch = false;
        for (size_t ci = 0; ci < cand.size(); ci++) {
          if (done[ci]) continue;
          IV& q = cand[ci];
          bool ok = true; z3::expr x = ctx.real_val(0);
          for (auto& [m, v] : q.p) { if (m.empty()) { x = x + ctx.real_val(v.get_str().c_str()); continue; } auto it = mv.find(m); if (it == mv.end()) { ok = false; break; } x = x + ctx.real_val(v.get_str().c_str()) * it->second; }
          if (!ok) { done[ci] = 1; continue; }
          auto test = [&](bool up) -> bool {
            if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() * 1000 > timeout_ms) return false;
            s.push(); s.add(up ? x >= ctx.real_val(mpz_class(q.lo + 1).get_str().c_str()) : x <= ctx.real_val(mpz_class(q.hi - 1).get_str().c_str()));
            g_intQueries++; auto r = s.check(); s.pop();
            return r == z3::unsat; };
          mpz_class v; bool fx = false;
          if (test(true)) { v = q.lo; fx = true; } else if (test(false)) { v = q.hi; fx = true; }
          if (fx) { s.add(x == ctx.real_val(v.get_str().c_str())); ch = true; done[ci] = 1; fixed.push_back({q.p, v}); }
        }
      }
      tcache[key] = fixed;
      if (getenv("SYM_DEBUG")) fprintf(stderr, "  tighten: %zu candidates, %zu fixed, %.2fs\n", cand.size(), fixed.size(), std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count());
    }
    lastFixed.clear();
    for (auto& [q, v] : fixed) { Poly p = q; add(p, cst(v), -1); cons.push_back({false, {}, p, C_EQ0}); if (q.size() == 1 && q.begin()->first.size() == 1 && q.begin()->second == 1) lastFixed.push_back({q.begin()->first[0], v}); }
  }
  std::vector<std::pair<int, mpz_class>> lastFixed;
  Res emit(const std::vector<Con>& cons, std::vector<Bounded>& bnd, unsigned timeout_ms, std::vector<mpz_class>* model, bool lemmas) {
    if (!model) { Res r = emit1(cons, bnd, timeout_ms / 2, nullptr, lemmas, true); if (r == R_UNSAT) return r;
      size_t nl = 0; std::set<int> sn; std::vector<int> wk; auto tch = [&](const Poly& p) { for (auto& [m, v] : p) { if (m.size() > 1) nl++; for (int a : m) if (sn.insert(a).second) wk.push_back(a); } };
      for (auto& c : cons) tch(c.p); for (size_t i = 0; i < wk.size(); i++) for (auto& c : atoms[wk[i]].cons) tch(c.p);
      if (nl > 20 || g_realOnly) return R_UNKNOWN;  // opaque products: the integer search rarely adds anything over the relaxation
    }
    return emit1(cons, bnd, timeout_ms, model, lemmas, false);
  }
  static void limitMem() { static bool d = false; if (!d) { d = true; Z3_global_param_set("memory_max_size", "3500"); } }
  Res emit1(std::vector<Con> cons, std::vector<Bounded>& bnd, unsigned timeout_ms, std::vector<mpz_class>* model, bool lemmas, bool real) {
    g_intQueries++; limitMem();
    z3::context ctx;
    z3::solver s(ctx, real ? "QF_LRA" : "QF_LIA");
    z3::params pr(ctx); pr.set("timeout", timeout_ms); s.set(pr);
    std::map<Mono, z3::expr> mv;
    load(ctx, s, mv, cons, bnd, lemmas, real, {});
    if (const char* d = getenv("SYM_DUMPINT")) { static int k = 0; FILE* fp = fopen((std::string(d) + std::to_string(k++) + ".smt2").c_str(), "w"); fputs(s.to_smt2().c_str(), fp); fclose(fp); }
    Res r = R_UNKNOWN;
    auto t0 = std::chrono::steady_clock::now();
    try {
      auto cr = s.check();
      r = cr == z3::unsat ? R_UNSAT : cr == z3::sat ? R_SAT : R_UNKNOWN;
      if (r == R_SAT && model) {
        for (auto& at : atoms) if (at.var >= 0 && at.var < (int)model->size()) (*model)[at.var] = 0;
        z3::model m = s.get_model();
        for (size_t i = 0; i < atoms.size(); i++) if (atoms[i].var >= 0) {
          auto it = mv.find({(int)i}); if (it == mv.end()) continue;
          std::string v; if (m.eval(it->second, true).is_numeral(v)) (*model)[atoms[i].var] += mpz_class(v) << atoms[i].sh; }
      }
    } catch (z3::exception& e) { r = R_UNKNOWN; }
    if (getenv("SYM_DEBUG")) fprintf(stderr, "  int[%s] %zu cons %zu monos -> %d in %.2fs\n", real ? "R" : "I", cons.size(), mv.size(), (int)r, std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count());
    if (real && r == R_SAT) r = R_UNKNOWN;
    return r;
  }
};
Prover* g_p = nullptr;
}  // namespace
Res intProve(const std::vector<IGoal>& facts, const IGoal& goal, unsigned timeout_ms) {
  if (!g_p) g_p = new Prover;
  try { return g_p->solve(facts, goal, timeout_ms, nullptr, true); } catch (z3::exception&) { return R_UNKNOWN; } catch (std::bad_alloc&) { return R_UNKNOWN; }
}
Res intSolveWith(const std::vector<IGoal>& facts, const IGoal& goal, const std::map<int, mpz_class>& subst, unsigned timeout_ms, std::vector<mpz_class>& model) {
  Prover p; p.subst = subst;
  Res r = R_UNKNOWN; try { r = p.solve(facts, goal, timeout_ms, &model, true); } catch (z3::exception&) {} catch (std::bad_alloc&) {}
  for (auto& [k, v] : subst) model[k] = v;
  return r;
}
