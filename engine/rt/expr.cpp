#include <unistd.h>
#include <cstdio>
#include "expr.h"
#include <cstring>
#include <cstdio>
#include <cstdlib>
std::vector<Node> N_(1);
uint32_t g_epoch = 1;
std::vector<std::string> g_varNames; std::vector<uint32_t> g_varBits; std::vector<S> g_varNode;
std::vector<mpz_class> g_varVal;
static std::unordered_map<std::string, int> g_varIdx;

struct Key { uint8_t op; uint32_t bits; S a, b, c; uint64_t imm;
  bool operator==(const Key& o) const { return op == o.op && bits == o.bits && a == o.a && b == o.b && c == o.c && imm == o.imm; } };
struct KH { size_t operator()(const Key& k) const {
  uint64_t h = k.op * 0x9E3779B97F4A7C15ull + k.bits; auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; };
  mix(k.a); mix(k.b); mix(k.c); mix(k.imm); return h; } };
static std::unordered_map<Key, S, KH> g_tab;
static std::unordered_map<std::string, S> g_wconst;

mpz_class fromBytes(const void* p, size_t n) { mpz_class r; mpz_import(r.get_mpz_t(), n, -1, 1, 0, 0, p); return r; }
void toBytes(const mpz_class& v, void* p, size_t n) { memset(p, 0, n); size_t c = 0; mpz_class t = v; 
  if (mpz_sizeinbase(v.get_mpz_t(), 2) > n * 8) { mpz_fdiv_r_2exp(t.get_mpz_t(), v.get_mpz_t(), n * 8); }
  if (t != 0) mpz_export(p, &c, -1, 1, 0, 0, t.get_mpz_t()); }

static S raw(Op op, uint32_t bits, S a, S b, S c, uint64_t imm) {
  Key k{op, bits, a, b, c, imm};
  auto it = g_tab.find(k);
  if (it != g_tab.end()) return it->second;
  N_.push_back(Node{op, bits, a, b, c, imm, 0, 0, nullptr, 0});
  S s = N_.size() - 1;
  g_tab.emplace(k, s);
  return s;
}
static mpz_class mask(const mpz_class& v, uint32_t bits) { mpz_class r; mpz_fdiv_r_2exp(r.get_mpz_t(), v.get_mpz_t(), bits); return r; }
static inline uint64_t m64(uint64_t v, uint32_t bits) { return bits >= 64 ? v : v & ((1ull << bits) - 1); }
S mkConst64(uint64_t v, uint32_t bits) {
  if (bits > 64) return mkConst(mpz_class((unsigned long)v), bits);
  v = m64(v, bits);
  S s = raw(O_CONST, bits, 0, 0, 0, v);
  nd(s).v = v; nd(s).epoch = UINT32_MAX;
  return s;
}
S mkConst(const mpz_class& v0, uint32_t bits) {
  mpz_class v = mask(v0, bits);
  if (bits <= 64) return mkConst64(mpz_get_ui(v.get_mpz_t()), bits);
  std::string key = std::to_string(bits) + ":" + v.get_str(16);
  auto it = g_wconst.find(key);
  if (it != g_wconst.end()) return it->second;
  N_.push_back(Node{O_CONST, bits, 0, 0, 0, 0, UINT32_MAX, 0, new mpz_class(v), 0});
  S s = N_.size() - 1;
  g_wconst[key] = s;
  return s;
}
int varIndex(const std::string& name, uint32_t bits) {
  auto it = g_varIdx.find(name);
  if (it != g_varIdx.end()) { if (g_varBits[it->second] != bits) { fprintf(stderr, "input %s used with two widths\n", name.c_str()); _exit(91); } return it->second; }
  int i = g_varNames.size();
  g_varNames.push_back(name); g_varBits.push_back(bits); g_varIdx[name] = i;
  if (g_varVal.size() <= (size_t)i) g_varVal.resize(i + 1);
  g_varNode.push_back(raw(O_VAR, bits, 0, 0, 0, i));
  return i;
}
S mkVar(const std::string& name, uint32_t bits) { return g_varNode[varIndex(name, bits)]; }
bool isConst(S s) { return nd(s).op == O_CONST; }
mpz_class constVal(S s) { return nd(s).bits <= 64 ? mpz_class((unsigned long)nd(s).v) : *nd(s).w; }
static bool isC(S s, uint64_t v) { if (!isConst(s)) return false; if (nd(s).bits <= 64) return nd(s).v == v; return *nd(s).w == (unsigned long)v; }
static bool isOnes(S s) { if (!isConst(s)) return false; return mpz_popcount(constVal(s).get_mpz_t()) == nd(s).bits; }

static mpz_class sgn(const mpz_class& v, uint32_t bits) { if (bits && mpz_tstbit(v.get_mpz_t(), bits - 1)) { mpz_class m = 1; m <<= bits; return v - m; } return v; }

static mpz_class evalOp(Op op, uint32_t bits, uint32_t abits, uint32_t bbits, const mpz_class& a, const mpz_class& b, const mpz_class& c, uint64_t imm) {
  mpz_class r;
  switch (op) {
  case O_ADD: return mask(a + b, bits);
  case O_SUB: return mask(a - b, bits);
  case O_MUL: return mask(a * b, bits);
  case O_UDIV: if (b == 0) return mask(-1, bits); mpz_fdiv_q(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r;
  case O_UREM: if (b == 0) return a; mpz_fdiv_r(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r;
  case O_SDIV: { mpz_class x = sgn(a, bits), y = sgn(b, bits); if (y == 0) return mask(x < 0 ? 1 : -1, bits); mpz_tdiv_q(r.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); return mask(r, bits); }
  case O_SREM: { mpz_class x = sgn(a, bits), y = sgn(b, bits); if (y == 0) return a; mpz_tdiv_r(r.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); return mask(r, bits); }
  case O_SHL: if (b >= bits) return 0; return mask(a << mpz_get_ui(b.get_mpz_t()), bits);
  case O_LSHR: if (b >= bits) return 0; return a >> mpz_get_ui(b.get_mpz_t());
  case O_ASHR: { mpz_class x = sgn(a, bits); unsigned long k = b >= bits ? bits - 1 : mpz_get_ui(b.get_mpz_t()); mpz_fdiv_q_2exp(r.get_mpz_t(), x.get_mpz_t(), k); return mask(r, bits); }
  case O_AND: return a & b;
  case O_OR: return a | b;
  case O_XOR: return a ^ b;
  case O_CONCAT: return (a << bbits) | b;
  case O_EXTRACT: return mask(a >> (unsigned long)imm, bits);
  case O_ZEXT: return a;
  case O_SEXT: return mask(sgn(a, abits), bits);
  case O_ITE: return a != 0 ? b : c;
  case O_EQ: return a == b;
  case O_ULT: return a < b;
  case O_ULE: return a <= b;
  case O_SLT: return sgn(a, abits) < sgn(b, abits);
  case O_SLE: return sgn(a, abits) <= sgn(b, abits);
  default: abort();
  }
}
static inline int64_t s64(uint64_t v, uint32_t bits) { if (bits >= 64) return (int64_t)v; uint64_t m = 1ull << (bits - 1); return (int64_t)((v ^ m) - m); }
static bool evalOp64(Op op, uint32_t bits, uint32_t abits, uint32_t bbits, uint64_t a, uint64_t b, uint64_t c, uint64_t imm, uint64_t& r) {
  switch (op) {
  case O_ADD: r = m64(a + b, bits); return true;
  case O_SUB: r = m64(a - b, bits); return true;
  case O_MUL: r = m64(a * b, bits); return true;
  case O_UDIV: r = b ? a / b : m64(~0ull, bits); return true;
  case O_UREM: r = b ? a % b : a; return true;
  case O_SHL: r = b >= bits ? 0 : m64(a << b, bits); return true;
  case O_LSHR: r = b >= bits ? 0 : a >> b; return true;
  case O_ASHR: r = m64((uint64_t)(s64(a, bits) >> (b >= bits ? bits - 1 : b)), bits); return true;
  case O_AND: r = a & b; return true;
  case O_OR: r = a | b; return true;
  case O_XOR: r = a ^ b; return true;
  case O_CONCAT: r = (a << bbits) | b; return true;
  case O_EXTRACT: r = m64(a >> imm, bits); return true;
  case O_ZEXT: r = a; return true;
  case O_SEXT: r = m64((uint64_t)s64(a, abits), bits); return true;
  case O_ITE: r = a ? b : c; return true;
  case O_EQ: r = a == b; return true;
  case O_ULT: r = a < b; return true;
  case O_ULE: r = a <= b; return true;
  case O_SLT: r = s64(a, abits) < s64(b, abits); return true;
  case O_SLE: r = s64(a, abits) <= s64(b, abits); return true;
  default: return false;
  }
}
static void evalInto(S s) {
  // iterative post-order
  std::vector<S> st{s};
  while (!st.empty()) {
    S x = st.back(); Node& n = nd(x);
    if (n.epoch == g_epoch || n.epoch == UINT32_MAX) { st.pop_back(); continue; }
    if (n.op == O_VAR) {
      const mpz_class& v = g_varVal[n.imm];
      if (n.bits <= 64) n.v = mpz_get_ui(v.get_mpz_t()); else { if (!n.w) n.w = new mpz_class; *n.w = v; }
      n.epoch = g_epoch; st.pop_back(); continue;
    }
    bool ready = true;
    for (S k : {n.a, n.b, n.c}) if (k && nd(k).epoch != g_epoch && nd(k).epoch != UINT32_MAX) { st.push_back(k); ready = false; }
    if (!ready) continue;
    st.pop_back();
    uint32_t ab = n.a ? nd(n.a).bits : 0, bb = n.b ? nd(n.b).bits : 0, cb = n.c ? nd(n.c).bits : 0;
    if (n.bits <= 64 && ab <= 64 && bb <= 64 && cb <= 64) {
      uint64_t r;
      if (evalOp64(n.op, n.bits, ab, bb, n.a ? nd(n.a).v : 0, n.b ? nd(n.b).v : 0, n.c ? nd(n.c).v : 0, n.imm, r)) { n.v = r; n.epoch = g_epoch; continue; }
    }
    auto val = [](S k) -> mpz_class { if (!k) return 0; return nd(k).bits <= 64 ? mpz_class((unsigned long)nd(k).v) : *nd(k).w; };
    mpz_class r = evalOp(n.op, n.bits, ab, bb, val(n.a), val(n.b), val(n.c), n.imm);
    if (n.bits <= 64) n.v = mpz_get_ui(r.get_mpz_t()); else { if (!n.w) n.w = new mpz_class; *n.w = r; }
    n.epoch = g_epoch;
  }
}
mpz_class evalNode(S s) { evalInto(s); return nd(s).bits <= 64 ? mpz_class((unsigned long)nd(s).v) : *nd(s).w; }
uint64_t eval64(S s) { evalInto(s); return nd(s).v; }

mpz_class Evaluator::eval(S s) {
  std::vector<S> st{s};
  while (!st.empty()) {
    S x = st.back(); const Node& n = nd(x);
    if (memo.count(x)) { st.pop_back(); continue; }
    if (n.op == O_CONST) { memo[x] = constVal(x); st.pop_back(); continue; }
    if (n.op == O_VAR) { memo[x] = n.imm < in->size() ? (*in)[n.imm] : mpz_class(0); st.pop_back(); continue; }
    bool ready = true;
    for (S k : {n.a, n.b, n.c}) if (k && !memo.count(k)) { st.push_back(k); ready = false; }
    if (!ready) continue;
    st.pop_back();
    static mpz_class z;
    memo[x] = evalOp(n.op, n.bits, n.a ? nd(n.a).bits : 0, n.b ? nd(n.b).bits : 0, n.a ? memo[n.a] : z, n.b ? memo[n.b] : z, n.c ? memo[n.c] : z, n.imm);
  }
  return memo[s];
}

static bool lowMask(const mpz_class& v, uint32_t& k) { // v == 2^k - 1
  if (v == 0) return false; k = mpz_sizeinbase(v.get_mpz_t(), 2); return mpz_popcount(v.get_mpz_t()) == k; }
// contiguous ones [lo, hi)
static bool contig(const mpz_class& v, uint32_t& lo, uint32_t& hi) {
  if (v == 0) return false; lo = mpz_scan1(v.get_mpz_t(), 0); mpz_class t = v >> lo; uint32_t k; if (!lowMask(t, k)) return false; hi = lo + k; return true; }
// number of known-zero low / high bits (structural)
static uint32_t lowZeros(S s) { Node& n = nd(s);
  if (n.op == O_CONST) { mpz_class v = constVal(s); return v == 0 ? n.bits : mpz_scan1(v.get_mpz_t(), 0); }
  if (n.op == O_CONCAT) { uint32_t l = lowZeros(n.b); return l == nd(n.b).bits ? l + lowZeros(n.a) : l; }
  return 0; }
static uint32_t highZeros(S s) { Node& n = nd(s);
  if (n.op == O_CONST) { mpz_class v = constVal(s); return v == 0 ? n.bits : n.bits - mpz_sizeinbase(v.get_mpz_t(), 2); }
  if (n.op == O_ZEXT) return n.bits - nd(n.a).bits + highZeros(n.a);
  if (n.op == O_CONCAT) { uint32_t h = highZeros(n.a); return h == nd(n.a).bits ? h + highZeros(n.b) : h; }
  return 0; }

S mkNot(S a) { return mk(O_XOR, nd(a).bits, a, mkConst(mpz_class(-1), nd(a).bits)); }
S mkZext(S a, uint32_t bits) { if (nd(a).bits == bits) return a; return mk(O_ZEXT, bits, a); }
S mkSext(S a, uint32_t bits) { if (nd(a).bits == bits) return a; return mk(O_SEXT, bits, a); }
S mkConcat(S hi, S lo) { return mk(O_CONCAT, nd(hi).bits + nd(lo).bits, hi, lo); }
S mkExtract(S a, uint32_t lo, uint32_t bits) { if (lo == 0 && bits == nd(a).bits) return a; return mk(O_EXTRACT, bits, a, 0, 0, lo); }
S mkIte(S c, S a, S b) { return mk(O_ITE, nd(a).bits, c, a, b); }

S mk(Op op, uint32_t bits, S a, S b, S c, uint64_t imm) {
  // constant folding
  if ((!a || isConst(a)) && (!b || isConst(b)) && (!c || isConst(c)) && a) {
    mpz_class z;
    return mkConst(evalOp(op, bits, nd(a).bits, b ? nd(b).bits : 0, constVal(a), b ? constVal(b) : z, c ? constVal(c) : z, imm), bits);
  }
  Node A = a ? nd(a) : Node{}, B = b ? nd(b) : Node{};
  switch (op) {
  case O_ADD:
    if (isConst(a)) { std::swap(a, b); std::swap(A, B); }
    if (isC(b, 0)) return a;
    if (isConst(b) && A.op == O_ADD && isConst(A.b)) return mk(O_ADD, bits, A.a, mkConst(constVal(A.b) + constVal(b), bits));
    if (!isConst(b) && a > b) std::swap(a, b);
    if (bits == 1) return mk(O_XOR, 1, a, b);
    break;
  case O_SUB:
    if (a == b) return mkConst64(0, bits);
    if (isC(b, 0)) return a;
    if (isConst(b)) return mk(O_ADD, bits, a, mkConst(-constVal(b), bits));
    if (bits == 1) return mk(O_XOR, 1, a, b);
    // (x+y)-x
    if (A.op == O_ADD) { if (A.a == b) return A.b; if (A.b == b) return A.a; }
    break;
  case O_MUL:
    if (isConst(a)) { std::swap(a, b); std::swap(A, B); }
    if (isC(b, 0)) return b;
    if (isC(b, 1)) return a;
    if (isConst(b)) { mpz_class v = constVal(b); if (mpz_popcount(v.get_mpz_t()) == 1) return mk(O_SHL, bits, a, mkConst64(mpz_scan1(v.get_mpz_t(), 0), bits)); }
    if (!isConst(b) && a > b) std::swap(a, b);
    if (bits == 1) return mk(O_AND, 1, a, b);
    break;
  case O_UDIV: if (isC(b, 1)) return a;
    if (isConst(b)) { mpz_class v = constVal(b); if (v != 0 && mpz_popcount(v.get_mpz_t()) == 1) return mk(O_LSHR, bits, a, mkConst64(mpz_scan1(v.get_mpz_t(), 0), bits)); }
    break;
  case O_UREM: if (isC(b, 1)) return mkConst64(0, bits);
    if (isConst(b)) { mpz_class v = constVal(b); if (v != 0 && mpz_popcount(v.get_mpz_t()) == 1) return mk(O_AND, bits, a, mkConst(v - 1, bits)); }
    break;
  case O_SHL:
    if (isConst(b)) { mpz_class k = constVal(b); if (k == 0) return a; if (k >= bits) return mkConst64(0, bits); uint32_t kk = mpz_get_ui(k.get_mpz_t());
      return mkConcat(mkExtract(a, 0, bits - kk), mkConst64(0, kk)); }
    if (isC(a, 0)) return a;
    break;
  case O_LSHR:
    if (isConst(b)) { mpz_class k = constVal(b); if (k == 0) return a; if (k >= bits) return mkConst64(0, bits); uint32_t kk = mpz_get_ui(k.get_mpz_t());
      return mkZext(mkExtract(a, kk, bits - kk), bits); }
    if (isC(a, 0)) return a;
    break;
  case O_ASHR:
    if (isConst(b)) { mpz_class k = constVal(b); if (k == 0) return a; uint32_t kk = k >= bits ? bits - 1 : mpz_get_ui(k.get_mpz_t());
      return mkSext(mkExtract(a, kk, bits - kk), bits); }
    if (isC(a, 0)) return a;
    break;
  case O_AND:
    if (isConst(a)) { std::swap(a, b); std::swap(A, B); }
    if (a == b) return a;
    if (isConst(b)) {
      if (isC(b, 0)) return b;
      if (isOnes(b)) return a;
      mpz_class v = constVal(b); uint32_t lo, hi;
      if (contig(v, lo, hi)) { S m = mkExtract(a, lo, hi - lo); S r = lo ? mkConcat(m, mkConst64(0, lo)) : m; return mkZext(r, bits); }
      if (A.op == O_AND && isConst(A.b)) return mk(O_AND, bits, A.a, mkConst(v & constVal(A.b), bits));
    }
    if (bits == 1) { if (A.op == O_XOR && A.a == b && isConst(A.b)) return mkConst64(0, 1); if (B.op == O_XOR && B.a == a && isConst(B.b)) return mkConst64(0, 1); }
    // and with sign mask: and(x, sext(c)) = ite(c, x, 0)
    if (A.op == O_SEXT && nd(A.a).bits == 1 && !isConst(b)) return mkIte(A.a, b, mkConst64(0, bits));
    if (B.op == O_SEXT && nd(B.a).bits == 1) return mkIte(B.a, a, mkConst64(0, bits));
    if (!isConst(b) && a > b) std::swap(a, b);
    break;
  case O_OR:
    if (isConst(a)) { std::swap(a, b); std::swap(A, B); }
    if (a == b) return a;
    if (isConst(b)) { if (isC(b, 0)) return a; if (isOnes(b)) return b; }
    if (bits == 1) { if (A.op == O_XOR && A.a == b && isConst(A.b)) return mkConst64(1, 1); if (B.op == O_XOR && B.a == a && isConst(B.b)) return mkConst64(1, 1); }
    { // disjoint halves -> concat
      uint32_t la = lowZeros(a), lb = lowZeros(b), ha = highZeros(a), hb = highZeros(b);
      if (ha + lb >= bits && ha < bits && lb < bits) { uint32_t k = bits - ha; return mkConcat(mkExtract(b, k, bits - k), mkExtract(a, 0, k)); }
      if (hb + la >= bits && hb < bits && la < bits) { uint32_t k = bits - hb; return mkConcat(mkExtract(a, k, bits - k), mkExtract(b, 0, k)); }
    }
    if (!isConst(b) && a > b) std::swap(a, b);
    break;
  case O_XOR:
    if (isConst(a)) { std::swap(a, b); std::swap(A, B); }
    if (a == b) return mkConst64(0, bits);
    if (isC(b, 0)) return a;
    if (isConst(b) && A.op == O_XOR && isConst(A.b)) return mk(O_XOR, bits, A.a, mkConst(constVal(A.b) ^ constVal(b), bits));
    if (A.op == O_XOR && !isConst(b)) { if (A.a == b) return A.b; if (A.b == b) return A.a; }
    if (B.op == O_XOR) { if (B.a == a) return B.b; if (B.b == a) return B.a; }
    if (bits == 1 && isC(b, 1)) {
      if (A.op == O_ULT) return mk(O_ULE, 1, A.b, A.a);
      if (A.op == O_ULE) return mk(O_ULT, 1, A.b, A.a);
      if (A.op == O_SLT) return mk(O_SLE, 1, A.b, A.a);
      if (A.op == O_SLE) return mk(O_SLT, 1, A.b, A.a);
    }
    if (!isConst(b) && a > b) std::swap(a, b);
    break;
  case O_CONCAT: {
    if (isC(a, 0)) return mkZext(b, bits);
    if (A.op == O_ZEXT) return mkZext(mkConcat(A.a, b), bits);
    if (A.op == O_EXTRACT && B.op == O_EXTRACT && A.a == B.a && A.imm == B.imm + B.bits) return mkExtract(A.a, B.imm, bits);
    if (A.op == O_EXTRACT && A.a == b && A.imm == B.bits && B.bits < nd(A.a).bits) {}
    if (B.op == O_CONCAT) {
      Node BA = nd(B.a);
      if (A.op == O_EXTRACT && BA.op == O_EXTRACT && A.a == BA.a && A.imm == BA.imm + BA.bits) return mkConcat(mkExtract(A.a, BA.imm, A.bits + BA.bits), B.b);
      if (isConst(a) && isConst(B.a)) return mkConcat(mk(O_CONCAT, A.bits + BA.bits, a, B.a), B.b);
    }
    if (A.op == O_CONCAT) return mkConcat(A.a, mkConcat(A.b, b));  // right-associate
    if (A.op == O_SEXT && B.bits + A.bits == bits) {
      // concat(sext(msb-slice of x), x): sign extension spread
    }
    break; }
  case O_EXTRACT: {
    uint32_t lo = imm;
    if (lo == 0 && bits == A.bits) return a;
    if (A.op == O_EXTRACT) return mkExtract(A.a, A.imm + lo, bits);
    if (A.op == O_CONCAT) {
      uint32_t bb = nd(A.b).bits;
      if (lo + bits <= bb) return mkExtract(A.b, lo, bits);
      if (lo >= bb) return mkExtract(A.a, lo - bb, bits);
      return mkConcat(mkExtract(A.a, 0, lo + bits - bb), mkExtract(A.b, lo, bb - lo));
    }
    if (A.op == O_ZEXT) {
      uint32_t ib = nd(A.a).bits;
      if (lo >= ib) return mkConst64(0, bits);
      if (lo + bits <= ib) return mkExtract(A.a, lo, bits);
      return mkZext(mkExtract(A.a, lo, ib - lo), bits);
    }
    if (A.op == O_SEXT) {
      uint32_t ib = nd(A.a).bits;
      if (lo + bits <= ib) return mkExtract(A.a, lo, bits);
      if (lo >= ib) return mkSext(mkExtract(A.a, ib - 1, 1), bits);
      return mkSext(mkExtract(A.a, lo, ib - lo), bits);
    }
    if (A.op == O_AND || A.op == O_OR || A.op == O_XOR) return mk(A.op, bits, mkExtract(A.a, lo, bits), mkExtract(A.b, lo, bits));
    if (A.op == O_ITE) { return mkIte(A.a, mkExtract(A.b, lo, bits), mkExtract(A.c, lo, bits)); }
    break; }
  case O_ZEXT:
    if (A.op == O_ZEXT) return mkZext(A.a, bits);
    break;
  case O_SEXT:
    if (A.op == O_SEXT) return mkSext(A.a, bits);
    if (A.op == O_ZEXT) return mkZext(A.a, bits);
    break;
  case O_ITE:
    if (isConst(a)) return isC(a, 1) ? b : c;
    if (b == c) return b;
    if (A.op == O_XOR && isC(A.b, 1)) return mkIte(A.a, c, b);
    if (bits == 1) { if (isC(b, 1) && isC(c, 0)) return a; if (isC(b, 0) && isC(c, 1)) return mkNot(a);
      if (isC(c, 0)) return mk(O_AND, 1, a, b); if (isC(b, 1)) return mk(O_OR, 1, a, c);
      if (isC(b, 0)) return mk(O_AND, 1, mkNot(a), c); if (isC(c, 1)) return mk(O_OR, 1, mkNot(a), b); }
    if (isC(b, 1) && isC(c, 0)) return mkZext(a, bits);
    if (isOnes(b) && isC(c, 0)) return mkSext(a, bits);
    if (B.op == O_ITE && B.a == a) return mkIte(a, B.b, c);
    if (nd(c).op == O_ITE && nd(c).a == a) return mkIte(a, b, nd(c).c);
    break;
  case O_EQ:
    if (a == b) return mkConst64(1, 1);
    if (isConst(a)) { std::swap(a, b); std::swap(A, B); }
    if (isConst(b)) {
      mpz_class v = constVal(b);
      if (A.bits == 1) return v == 1 ? a : mkNot(a);
      if (A.op == O_ZEXT) { uint32_t ib = nd(A.a).bits; if (v >> ib != 0) return mkConst64(0, 1); return mk(O_EQ, 1, A.a, mkConst(v, ib)); }
      if (A.op == O_SEXT) { uint32_t ib = nd(A.a).bits; mpz_class lo = mask(v, ib); if (mask(sgn(lo, ib), A.bits) != v) return mkConst64(0, 1); return mk(O_EQ, 1, A.a, mkConst(lo, ib)); }
      if (A.op == O_CONCAT) { uint32_t bb = nd(A.b).bits; return mk(O_AND, 1, mk(O_EQ, 1, A.a, mkConst(v >> bb, nd(A.a).bits)), mk(O_EQ, 1, A.b, mkConst(v, bb))); }
      if (A.op == O_ITE && (isConst(A.b) || isConst(A.c))) return mkIte(A.a, mk(O_EQ, 1, A.b, b), mk(O_EQ, 1, A.c, b));
      if (A.op == O_OR && v == 0) return mk(O_AND, 1, mk(O_EQ, 1, A.a, b), mk(O_EQ, 1, A.b, b));
      if (A.op == O_XOR && v == 0) return mk(O_EQ, 1, A.a, A.b);
      if (A.op == O_XOR && isConst(A.b)) return mk(O_EQ, 1, A.a, mkConst(constVal(A.b) ^ v, A.bits));
      if (A.op == O_ADD && isConst(A.b)) return mk(O_EQ, 1, A.a, mkConst(v - constVal(A.b), A.bits));
      if (A.op == O_SUB && v == 0) return mk(O_EQ, 1, A.a, A.b);
    } else {
      if (A.op == O_ZEXT && B.op == O_ZEXT && nd(A.a).bits == nd(B.a).bits) return mk(O_EQ, 1, A.a, B.a);
      if (A.op == O_CONCAT && B.op == O_CONCAT && nd(A.b).bits == nd(B.b).bits) return mk(O_AND, 1, mk(O_EQ, 1, A.a, B.a), mk(O_EQ, 1, A.b, B.b));
      if (A.bits == 1) return mkNot(mk(O_XOR, 1, a, b));
      if (a > b) std::swap(a, b);
    }
    break;
  case O_ULT:
    if (a == b) return mkConst64(0, 1);
    if (isC(b, 0)) return mkConst64(0, 1);
    if (isC(a, 0)) return mkNot(mk(O_EQ, 1, b, a));
    if (isC(b, 1)) return mk(O_EQ, 1, a, mkConst64(0, A.bits));
    if (isOnes(a)) return mkConst64(0, 1);
    if (A.op == O_ZEXT && B.op == O_ZEXT && nd(A.a).bits == nd(B.a).bits) return mk(O_ULT, 1, A.a, B.a);
    if (A.op == O_ZEXT && isConst(b)) { mpz_class v = constVal(b); uint32_t ib = nd(A.a).bits; if (v >> ib != 0) return mkConst64(1, 1); return mk(O_ULT, 1, A.a, mkConst(v, ib)); }
    if (B.op == O_ZEXT && isConst(a)) { mpz_class v = constVal(a); uint32_t ib = nd(B.a).bits; if (v >> ib != 0) return mkConst64(0, 1); return mk(O_ULT, 1, mkConst(v, ib), B.a); }
    if (A.bits == 1) return mk(O_AND, 1, mkNot(a), b);
    break;
  case O_ULE:
    if (a == b) return mkConst64(1, 1);
    if (isC(a, 0)) return mkConst64(1, 1);
    if (isOnes(b)) return mkConst64(1, 1);
    if (isC(b, 0)) return mk(O_EQ, 1, a, b);
    if (A.op == O_ZEXT && B.op == O_ZEXT && nd(A.a).bits == nd(B.a).bits) return mk(O_ULE, 1, A.a, B.a);
    if (A.op == O_ZEXT && isConst(b)) { mpz_class v = constVal(b); uint32_t ib = nd(A.a).bits; if (v >> ib != 0) return mkConst64(1, 1); return mk(O_ULE, 1, A.a, mkConst(v, ib)); }
    if (B.op == O_ZEXT && isConst(a)) { mpz_class v = constVal(a); uint32_t ib = nd(B.a).bits; if (v >> ib != 0) return mkConst64(0, 1); return mk(O_ULE, 1, mkConst(v, ib), B.a); }
    if (A.bits == 1) return mk(O_OR, 1, mkNot(a), b);
    break;
  case O_SLT: if (a == b) return mkConst64(0, 1);
    if (highZeros(a) && highZeros(b)) return mk(O_ULT, 1, a, b);
    if (isC(b, 0)) return mkExtract(a, A.bits - 1, 1);
    break;
  case O_SLE: if (a == b) return mkConst64(1, 1);
    if (highZeros(a) && highZeros(b)) return mk(O_ULE, 1, a, b);
    if (isC(a, 0)) return mkNot(mkExtract(b, B.bits - 1, 1));
    break;
  default: break;
  }
  return raw(op, bits, a, b, c, imm);
}
std::string dump(S s, int depth) {
  if (!s) return "_";
  Node& n = nd(s);
  static const char* nm[] = {"?", "const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "concat", "extract", "zext", "sext", "ite", "eq", "ult", "ule", "slt", "sle"};
  if (n.op == O_CONST) return "0x" + constVal(s).get_str(16) + ":" + std::to_string(n.bits);
  if (n.op == O_VAR) return g_varNames[n.imm];
  if (depth == 0) return "#" + std::to_string(s);
  std::string r = std::string("(") + nm[n.op] + ":" + std::to_string(n.bits);
  if (n.op == O_EXTRACT) r += "@" + std::to_string(n.imm);
  for (S k : {n.a, n.b, n.c}) if (k) r += " " + dump(k, depth - 1);
  return r + ")";
}
uint64_t countNodes(S s) { std::unordered_map<S, bool> seen; std::vector<S> st{s}; while (!st.empty()) { S x = st.back(); st.pop_back(); if (!x || seen.count(x)) continue; seen[x] = true; for (S k : {nd(x).a, nd(x).b, nd(x).c}) st.push_back(k); } return seen.size(); }
