// Concrete replay of a harness on the natively compiled code (no instrumentation).
// usage: h <harness> <file with lines "name hexvalue">; exit 1 and a message when an assertion fails.
#include <gmpxx.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <cstdint>
#include <fstream>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
using std::string;
static std::map<string, mpz_class> g_in; static std::vector<mpz_class> Z; static int g_fail = 0;
static std::vector<std::pair<string, void (*)()>>& regs() { static std::vector<std::pair<string, void (*)()>> r; return r; }
static string occ(const char* n) { static std::map<string, unsigned> c; unsigned k = c[n]++; string s = n; for (char& x : s) if (x == ' ') x = '_'; return k ? s + "#" + std::to_string(k) : s; }
extern "C" {
void sym_register(const char* n, void (*f)()) { regs().push_back({n, f}); }
void sym_make(void* p, size_t n, const char* name) { memset(p, 0, n); mpz_class v = g_in[occ(name)]; size_t c; if (v != 0 && mpz_sizeinbase(v.get_mpz_t(), 256) <= n) mpz_export(p, &c, -1, 1, 0, 0, v.get_mpz_t()); }
uint64_t sym_choose(uint64_t n, const char* name) { return n <= 1 ? 0 : g_in[occ(name)].get_ui() % n; }
void sym_assume(bool c) { if (!c) { puts("REPLAY: assumption does not hold"); _exit(0); } }
void sym_assert(bool c, const char* m) { if (!c) { printf("REPLAY-FAIL: %s\n", m); g_fail++; } }
void sym_reached(const char*) {} uint64_t sym_concretize(uint64_t v) { return v; } void sym_arith(int) {} void sym_note_skip(const char*) {} bool sym_replaying() { return true; }
int zi_limbs(const void* p, size_t n) { mpz_class r; mpz_import(r.get_mpz_t(), n, -1, 1, 0, 0, p); Z.push_back(r); return Z.size() - 1; }
int zi_dec(const char* d) { Z.push_back(mpz_class(d)); return Z.size() - 1; }
int zi_add(int a, int b) { Z.push_back(Z[a] + Z[b]); return Z.size() - 1; }
int zi_sub(int a, int b) { Z.push_back(Z[a] - Z[b]); return Z.size() - 1; }
int zi_mul(int a, int b) { Z.push_back(Z[a] * Z[b]); return Z.size() - 1; }
void zi_assume_lt(int a, int b) { sym_assume(Z[a] < Z[b]); }
void zi_assert_lt(int a, int b, const char* m) { sym_assert(Z[a] < Z[b], m); }
void zi_assert_eq(int a, int b, const char* m) { sym_assert(Z[a] == Z[b], m); }
void zi_assert_cong(int a, int b, const char* md, const char* m) { mpz_class d = Z[a] - Z[b], q(md); sym_assert(mpz_divisible_p(d.get_mpz_t(), q.get_mpz_t()), m); }
}
static void (*g_init)(); extern "C" void sym_set_init(void (*f)()) { g_init = f; }
static void onSig(int s) { printf("REPLAY-FAIL: crash: signal %s\n", strsignal(s)); fflush(stdout); _exit(1); }
int main(int argc, char** argv) {
  std::ifstream f(argv[2]); string n, v; while (f >> n >> v) g_in[n] = mpz_class(v, 16);
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGTRAP}) signal(s, onSig);
  if (g_init) g_init();
  for (auto& r : regs()) if (r.first == argv[1]) { try { r.second(); } catch (...) { printf("REPLAY-FAIL: uncaught exception\n"); g_fail++; } fflush(stdout); _exit(g_fail ? 1 : 0); }
  return 2;
}
