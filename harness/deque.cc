// circular_deque against std::deque's documented behaviour: operation histories with solver-chosen operations and values.
#include "sym.h"
#include <vector>
#include "tachyon/base/containers/circular_deque.h"
using namespace tachyon::base;
static int g_live;
struct Tok {  // counts live objects: every construction is matched by one destruction
  int v;
  Tok() : v(0) { ++g_live; }
  explicit Tok(int x) : v(x) { ++g_live; }
  Tok(const Tok& o) : v(o.v) { ++g_live; }
  Tok(Tok&& o) : v(o.v) { ++g_live; o.v = -777; }
  Tok& operator=(const Tok& o) { v = o.v; return *this; }
  Tok& operator=(Tok&& o) { v = o.v; o.v = -777; return *this; }
  ~Tok() { --g_live; }
};
using D = circular_deque<Tok>;
using M = std::vector<int>;
static void same(D& d, const M& m, const char* what) {
  sym_assert(d.size() == m.size(), what);
  sym_assert(d.empty() == m.empty(), what);
  sym_assert(g_live >= 0, what);
  if (d.size() != m.size()) return;
  size_t i = 0;
  for (auto it = d.begin(); it != d.end(); ++it, ++i) sym_assert(it->v == m[i], what);
  sym_assert(i == m.size(), what);
  for (i = 0; i < m.size(); ++i) sym_assert(d[i].v == m[i], what);
  if (!m.empty()) { sym_assert(d.front().v == m.front() && d.back().v == m.back(), what); }
  i = m.size();
  for (auto it = d.rbegin(); it != d.rend(); ++it) sym_assert(it->v == m[--i], what);
  sym_assert(d.capacity() >= d.size(), what);
}
static int val(const char* n) { return sym_value<int>(n); }
static void start(D& d, M& m, int maxn) {
  // a deque of 0..maxn elements whose first element sits at a chosen rotation of the ring
  unsigned rot = sym_choose(5, "rot"), n = sym_choose(maxn + 1, "n");
  for (unsigned i = 0; i < rot; ++i) d.push_back(Tok(0));
  for (unsigned i = 0; i < rot; ++i) { if (i + 1 == rot) { for (unsigned j = 0; j < n; ++j) { int x = val("x"); d.push_back(Tok(x)); m.push_back(x); } } d.pop_front(); }
  if (!rot) for (unsigned j = 0; j < n; ++j) { int x = val("x"); d.push_back(Tok(x)); m.push_back(x); }
}
static void step(D& d, M& m, unsigned op) {
  switch (op) {
    case 0: { int x = val("pb"); d.push_back(Tok(x)); m.push_back(x); break; }
    case 1: { int x = val("pf"); d.push_front(Tok(x)); m.insert(m.begin(), x); break; }
    case 2: if (!m.empty()) { d.pop_front(); m.erase(m.begin()); } break;
    case 3: if (!m.empty()) { d.pop_back(); m.pop_back(); } break;
    case 4: { size_t p = sym_choose(m.size() + 1, "ip"); int x = val("in"); auto it = d.insert(d.begin() + p, Tok(x)); m.insert(m.begin() + p, x); sym_assert((size_t)(it - d.begin()) == p && it->v == x, "insert returns its position"); break; }
    case 5: if (!m.empty()) { size_t p = sym_choose(m.size(), "ep"); auto it = d.erase(d.begin() + p); m.erase(m.begin() + p); sym_assert((size_t)(it - d.begin()) == p, "erase returns the next position"); } break;
    case 6: { size_t a = sym_choose(m.size() + 1, "ra"), b = a + sym_choose(m.size() - a + 1, "rb"); auto it = d.erase(d.begin() + a, d.begin() + b); m.erase(m.begin() + a, m.begin() + b); sym_assert((size_t)(it - d.begin()) == a, "range erase returns the next position"); break; }
    case 7: { size_t n = sym_choose(m.size() + 4, "rs"); int x = val("rv"); d.resize(n, Tok(x)); m.resize(n, x); break; }
    case 8: { d.shrink_to_fit(); break; }
    case 9: { size_t p = sym_choose(m.size() + 1, "cp"), c = sym_choose(4, "cc"); int x = val("cv"); d.insert(d.begin() + p, c, Tok(x)); m.insert(m.begin() + p, c, x); break; }
    case 10: { size_t p = sym_choose(m.size() + 1, "gp"), c = sym_choose(4, "gc"); std::vector<Tok> src; for (size_t i = 0; i < c; ++i) { int x = val("gv"); src.push_back(Tok(x)); m.insert(m.begin() + p + i, x); } d.insert(d.begin() + p, src.begin(), src.end()); break; }
    case 11: { D e(d); D f(std::move(d)); sym_assert(d.empty(), "moved-from is empty"); d = e; e = std::move(f); M k = m; same(e, k, "move assignment"); std::swap(d, e); break; }
    case 12: { d.reserve(m.size() + sym_choose(3, "rc")); break; }
    case 13: { d.clear(); m.clear(); break; }
    case 14: { int x = val("av"); size_t c = sym_choose(4, "ac"); d.assign(c, Tok(x)); m.assign(c, x); break; }
    case 15: { size_t n = sym_choose(m.size() + 3, "rz"); d.resize(n); m.resize(n, 0); break; }
  }
}
static void history(int maxn, int steps, int ops) {
  g_live = 0;
  {
    D d; M m;
    start(d, m, maxn);
    for (int i = 0; i < steps; ++i) { unsigned op = sym_choose(ops, "op"); step(d, m, op); sym_assert(g_live == (int)m.size(), "exactly the stored elements are alive"); }
    same(d, m, "agrees with the model");
  }
  sym_assert(g_live == 0, "every element destroyed exactly once");
  sym_reached("end");
}
SYM_HARNESS(one_op) { history(6, 1, 16); }
SYM_HARNESS(two_ops) { history(2, 2, 16); }
SYM_HARNESS(T_three_ops) { history(3, 3, 16); }
SYM_HARNESS(push_pop) { history(5, 4, 4); }
