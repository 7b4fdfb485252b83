// Native replay of a harness: the uninstrumented real code, inputs read from a
// file ("name=value" lines).  Exit codes: 0 the property held, 1 it failed
// (message on stdout), 77 the inputs do not satisfy an assumption, >=100 crash.
#include "sym.h"
// live heap blocks of the program under test
static long g_live = 0;
struct Uncounted { const long n = g_live; ~Uncounted() { g_live = n; } };
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <execinfo.h>

static std::map<std::string, std::string> g_in;
static std::map<std::string, unsigned> g_cnt;
static bool g_search = false;
static unsigned long long g_rng = 1;
static int g_attempt = 0;
static std::vector<std::pair<std::string, std::string>> g_used;
static char* g_shared = nullptr;  // shared with the parent in search mode
static bool g_close_exact = false;

static std::string uniq(const char* n) { unsigned k = g_cnt[n]++; return k ? std::string(n) + "#" + std::to_string(k) : std::string(n); }
static unsigned long long rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return g_rng; }
static void dump(const char* kind, const char* label) {
  if (g_shared) {
    std::string s = std::string(kind) + "\n" + label + "\n"; for (auto& p : g_used) s += p.first + "=" + p.second + "\n";
    strncpy(g_shared, s.c_str(), 60000); 
  }
}
static void fail(const char* kind, const char* label) {
  if (!g_shared) { printf("FAILED %s: %s\n", kind, label); fflush(stdout); }
  dump(kind, label); _exit(1);
}
static long cfgv(const char* n, long d) { const char* s = getenv("SYM_CFG"); if (!s) return d; size_t k = strlen(n); while (*s) { if (!strncmp(s, n, k) && s[k] == '=') return strtol(s + k + 1, 0, 10); while (*s && *s != ',') s++; if (*s) s++; } return d; }
extern "C" {
long sym_cfg_(const char* n, long d) { return cfgv(n, d); }
double sym_double_(const char* name) { Uncounted uncounted;
  std::string n = uniq(name); double v;
  auto it = g_in.find(n);
  if (g_search && g_attempt > 0) {
    static const double grid[] = {0, 1, -1, 2, -2, 3, -3, 0.5, -0.5, 1.5, -1.5, 0.25, 4, -4, 5, 2.5, -2.5, 0.75, 1.25, -0.75, 10, -10, 0.1, 7.25, -6.5};
    v = grid[rnd() % (sizeof grid / sizeof *grid)];
    if (it != g_in.end() && rnd() % 4 == 0) v = strtod(it->second.c_str(), 0);
    if (rnd() % 5 == 0) v += (double)(rnd() % 1000) / 1024.0;
  } else v = it == g_in.end() ? 0.0 : strtod(it->second.c_str(), 0);
  char b[64]; snprintf(b, sizeof b, "%a", v); g_used.push_back({n, b});
  return v;
}
int64_t sym_int_(const char* name, int64_t lo, int64_t hi) { Uncounted uncounted;
  std::string n = uniq(name); auto it = g_in.find(n);
  int64_t v = it == g_in.end() ? lo : strtoll(it->second.c_str(), 0, 10);
  if (g_search && g_attempt > 0 && rnd() % 3 == 0) v = (hi - lo < 1000 && hi >= lo) ? lo + (int64_t)(rnd() % (unsigned long long)(hi - lo + 1)) : v;
  g_used.push_back({n, std::to_string(v)}); return v;
}
unsigned sym_choice_(const char* name, unsigned k) { Uncounted uncounted;
  std::string n = uniq(name); auto it = g_in.find(n);
  unsigned v = it == g_in.end() ? 0 : (unsigned)strtoul(it->second.c_str(), 0, 10);
  if (k && v >= k) v = k - 1;
  g_used.push_back({n, std::to_string(v)}); return v;
}
void sym_assume_(bool c) { if (!c) _exit(77); }
void sym_assert_(bool c, const char* l) { if (!c) fail("property", l); }
void sym_assert_close_(double a, double b, const char* l) {
  if (std::isnan(a) && std::isnan(b)) return;
  if (a == b) return;
  if (g_close_exact || std::isnan(a) || std::isnan(b) || std::isinf(a) || std::isinf(b) || !(std::fabs(a - b) <= 1e-6 * (1 + std::fabs(a) + std::fabs(b)))) {
    if (!g_shared) printf("got %.17g expected %.17g\n", a, b);
    fail("property", l);
  }
}
void sym_reach_(const char*) {}
void sym_prefer_(bool) {}
bool sym_native_() { return true; }
void sym_end_() { _exit(78); }
void sym_link_() {}
}
#include <new>
#ifdef SYM_COUNT_ALLOC
void* operator new(size_t n) { g_live++; void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new[](size_t n) { g_live++; void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void operator delete(void* p) noexcept { if (p) g_live--; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) g_live--; free(p); }
void operator delete[](void* p) noexcept { if (p) g_live--; free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) g_live--; free(p); }
#endif
extern "C" long sym_live_() { return g_live; }
static void onsig(int s) {
  char b[64]; snprintf(b, sizeof b, "signal %d", s);
  if (s == SIGALRM) { fail("hang", "did not terminate"); }
  fail("crash", b);
}
static int run() {
  for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL, SIGALRM}) signal(s, onsig);
  alarm(g_search ? 10 : 60);
  try { harness(); }
  catch (std::exception& e) { fail("exception", e.what()); }
  catch (...) { fail("exception", "unknown"); }
  return 0;
}
int main(int argc, char** argv) {
  std::string file; int n = 0; std::string out;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "--search") n = atoi(argv[++i]); else if (a == "--seed") g_rng = strtoull(argv[++i], 0, 10) * 2654435761ull + 1; else if (a == "-o") out = argv[++i]; else if (a == "--exact") g_close_exact = true; else file = a; }
  if (!file.empty()) { std::ifstream f(file); std::string l; while (std::getline(f, l)) { if (l.empty() || l[0] == '#') continue; size_t p = l.find('='); if (p != std::string::npos) g_in[l.substr(0, p)] = l.substr(p + 1); } }
  if (!n) return run();
  // search near the given inputs for one that fails (choices stay fixed)
  g_search = true;
  g_shared = (char*)mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int k = 0; k < n; k++) {
    unsigned long long r = rnd(); fflush(stdout);
    pid_t p = fork();
    if (p == 0) { g_rng = r | 1; g_attempt = k; int dn = 2; (void)dn; FILE* q = freopen("/dev/null", "w", stderr); (void)q; _exit(run()); }
    int st; waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 1) {
      printf("FAILED after %d attempts\n%s", k + 1, g_shared);
      if (!out.empty()) { std::ofstream f(out); std::string s = g_shared; size_t a = s.find('\n'); size_t b = s.find('\n', a + 1); f << "# " << s.substr(0, a) << ": " << s.substr(a + 1, b - a - 1) << "\n" << s.substr(b + 1); }
      return 1;
    }
  }
  printf("not reproduced in %d attempts\n", n);
  return 0;
}
