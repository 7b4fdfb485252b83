// Runtime of the symbolic engine: expression DAG, shadow memory, path
// exploration (fork server, one process per path), Z3 back end.
#include <algorithm>
#include <cassert>
#include <cerrno>
#include <cfloat>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <new>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <z3.h>

#define API extern "C" __attribute__((visibility("default"), used))
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

void harness();

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------------ options
static bool REAL = false;     // doubles are exact reals (else IEEE-754)
static bool g_running = false;  // inside a path process
static double g_deadline = 0;
static unsigned g_qtimeout = 5000, g_qtimeout2 = 20000;
static u64 g_maxpaths = 2000000;
static u32 g_conc_limit = 300;
static unsigned g_path_cpu = 120;

// --------------------------------------------------------------- expressions
enum Op : u8 {
  CONST, VAR, UF,
  // bv
  ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  CONCAT, EXTRACT, ZEXT, SEXT, ITE, B2BV,
  // bool
  NOT, BAND, BOR, EQ, ULT, ULE, SLT, SLE, FEQ, FLT, FLE, FNAN, FINF, ISINT, FNEGSIGN, OVF,
  // double
  FADD, FSUB, FMUL, FDIV, FNEG, FABS, FFLOOR, FCEIL, FTRUNC, FRINT, FROUND, FSQRT, F2BITS, BITS2F, F2SI, F2UI, SI2F, UI2F, FMAKE
};
enum Sort : u8 { BV = 0, FP = 1, BO = 2 };

struct alignas(16) E {
  Op op; Sort so; u8 w; u8 sp;  // sp: contains special (inf/nan) const in Real mode
  u32 id; u64 c; u32 nk; u32 fnid; E* k[3]; E** more; Z3_ast z; bool uf; bool hasvar; u8 aux;
};

static u32 g_nexp = 0;
struct Key { Op op; Sort so; u8 w; u8 aux; u64 c; u32 fnid; E* k[3]; std::vector<E*> m; };
static bool same(const E* e, const Key& k) {
  if (e->op != k.op || e->so != k.so || e->w != k.w || e->c != k.c || e->fnid != k.fnid || e->aux != k.aux) return false;
  if (e->nk > 3) { if (k.m.size() != e->nk) return false; for (u32 i = 0; i < e->nk; i++) if (e->more[i] != k.m[i]) return false; return true; }
  return e->k[0] == k.k[0] && e->k[1] == k.k[1] && e->k[2] == k.k[2] && k.m.empty();
}
static u64 hk(const Key& k) {
  u64 h = k.op * 0x9E3779B97F4A7C15ull + k.so * 7 + k.w * 131 + k.c * 0xC2B2AE3D27D4EB4Full + k.fnid * 977 + k.aux * 31;
  for (int i = 0; i < 3; i++) h = (h ^ (u64)k.k[i]) * 0x165667B19E3779F9ull + (h >> 29);
  for (auto* e : k.m) h = (h ^ (u64)e) * 0x165667B19E3779F9ull + (h >> 29);
  return h;
}
static std::unordered_map<u64, std::vector<E*>>* g_tab;
static std::vector<std::string>* g_names;  // var and uf names
static std::map<std::string, u32>* g_nameid;
static u32 nameId(const std::string& s) {
  auto it = g_nameid->find(s); if (it != g_nameid->end()) return it->second;
  g_names->push_back(s); return (*g_nameid)[s] = g_names->size() - 1;
}
static void initTables() {
  if (g_tab) return;
  g_tab = new std::unordered_map<u64, std::vector<E*>>(); g_names = new std::vector<std::string>(); g_nameid = new std::map<std::string, u32>();
  nameId("");
}
static inline bool isC(const E* e) { return e->op == CONST; }
static inline double asD(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static inline u64 asB(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static inline u64 mask(u64 v, unsigned w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
static inline int64_t sx(u64 v, unsigned w) { if (w >= 64) return (int64_t)v; u64 m = 1ull << (w - 1); v = mask(v, w); return (int64_t)((v ^ m) - m); }

static E* mk(Op op, Sort so, unsigned w, std::vector<E*> kids, u64 c = 0, u32 fnid = 0, u8 aux = 0) {
  initTables();
  Key k; k.op = op; k.so = so; k.w = (u8)w; k.aux = aux; k.c = c; k.fnid = fnid; k.k[0] = k.k[1] = k.k[2] = nullptr;
  if (kids.size() > 3) k.m = kids; else for (size_t i = 0; i < kids.size(); i++) k.k[i] = kids[i];
  auto& b = (*g_tab)[hk(k)];
  for (auto* e : b) if (same(e, k)) return e;
  E* e = (E*)aligned_alloc(16, sizeof(E)); memset((void*)e, 0, sizeof *e);
  e->op = op; e->so = so; e->w = (u8)w; e->c = c; e->fnid = fnid; e->id = g_nexp++; e->nk = kids.size(); e->aux = aux;
  if (kids.size() > 3) { e->more = (E**)malloc(kids.size() * sizeof(E*)); for (size_t i = 0; i < kids.size(); i++) e->more[i] = kids[i]; }
  else for (size_t i = 0; i < kids.size(); i++) e->k[i] = kids[i];
  e->uf = op == UF; e->hasvar = op == VAR || op == UF;
  for (auto* q : kids) { e->uf |= q->uf; e->hasvar |= q->hasvar; e->sp |= q->sp; }
  if (so == BO && op != ITE) e->sp = 0;
  if (op == CONST && so == FP) { double d = asD(c); e->sp = REAL && !std::isfinite(d); }
  b.push_back(e);
  return e;
}
static inline E* kid(const E* e, unsigned i) { return e->nk > 3 ? e->more[i] : e->k[i]; }
static E* cBV(u64 v, unsigned w) { return mk(CONST, BV, w, {}, mask(v, w)); }
static E* cB(bool b) { return mk(CONST, BO, 1, {}, b); }
static E* cF(double d) { if (std::isnan(d)) d = NAN; if (REAL && d == 0) d = 0; return mk(CONST, FP, 64, {}, asB(d)); }
static E* cFb(u64 b) { return cF(asD(b)); }

// forward
static bool branchE(E* c, bool conc, u32 site);
static E* mkNot(E* a);
static E* mkIte(E* c, E* a, E* b);
static E* mkAnd(E* a, E* b) {
  if (isC(a)) return a->c ? b : a; if (isC(b)) return b->c ? a : b; if (a == b) return a;
  return mk(BAND, BO, 1, {a, b});
}
static E* mkOr(E* a, E* b) {
  if (isC(a)) return a->c ? a : b; if (isC(b)) return b->c ? b : a; if (a == b) return a;
  return mk(BOR, BO, 1, {a, b});
}
static E* mkNot(E* a) {
  if (isC(a)) return cB(!a->c); if (a->op == NOT) return a->k[0];
  return mk(NOT, BO, 1, {a});
}
static E* mkExtract(E* e, unsigned lo, unsigned w);
static E* mkZExt(E* e, unsigned w) {
  if (e->so == BO) { if (isC(e)) return cBV(e->c, w); if (w == 1) return mk(B2BV, BV, 1, {e}); return mk(B2BV, BV, w, {e}); }
  if (e->w == w) return e; if (isC(e)) return cBV(e->c, w);
  if (e->op == ZEXT) return mkZExt(e->k[0], w); if (e->op == B2BV) return mkZExt(e->k[0], w);
  if (e->op == ITE && (isC(e->k[1]) || isC(e->k[2]))) return mkIte(e->k[0], mkZExt(e->k[1], w), mkZExt(e->k[2], w));
  return mk(ZEXT, BV, w, {e});
}
static E* mkSExt(E* e, unsigned w) {
  if (e->so == BO) { if (isC(e)) return cBV(e->c ? ~0ull : 0, w); return mkIte(e, cBV(~0ull, w), cBV(0, w)); }
  if (e->w == w) return e; if (isC(e)) return cBV((u64)sx(e->c, e->w), w);
  if (e->op == ZEXT || e->op == B2BV) return mkZExt(e->k[0], w);
  if (e->op == ITE && (isC(e->k[1]) || isC(e->k[2]))) return mkIte(e->k[0], mkSExt(e->k[1], w), mkSExt(e->k[2], w));
  return mk(SEXT, BV, w, {e});
}
static E* mkConcat(E* hi, E* lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return cBV((hi->c << lo->w) | lo->c, w);
  if (isC(hi) && hi->c == 0) return mkZExt(lo, w);
  if (hi->op == EXTRACT && lo->op == EXTRACT && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w) return mkExtract(hi->k[0], lo->c, w);
  return mk(CONCAT, BV, w, {hi, lo});
}
static E* mkExtract(E* e, unsigned lo, unsigned w) {
  if (e->so == FP) { fprintf(stderr, "extract of FP\n"); abort(); }
  if (e->so == BO) return mkZExt(e, w);
  if (lo == 0 && w == e->w) return e;
  if (isC(e)) return cBV(e->c >> lo, w);
  if (e->op == EXTRACT) return mkExtract(e->k[0], lo + e->c, w);
  if (e->op == CONCAT) { unsigned lw = e->k[1]->w; if (lo + w <= lw) return mkExtract(e->k[1], lo, w); if (lo >= lw) return mkExtract(e->k[0], lo - lw, w); }
  if (e->op == ZEXT) { unsigned lw = e->k[0]->w; if (lo + w <= lw) return mkExtract(e->k[0], lo, w); if (lo >= lw) return cBV(0, w); if (lo == 0) return mkZExt(e->k[0], w); }
  if (e->op == SEXT) { unsigned lw = e->k[0]->w; if (lo + w <= lw) return mkExtract(e->k[0], lo, w); }
  if (e->op == B2BV) { if (lo >= 1) return cBV(0, w); return mkZExt(e->k[0], w); }
  if (e->op == ITE && (isC(e->k[1]) || isC(e->k[2]))) return mkIte(e->k[0], mkExtract(e->k[1], lo, w), mkExtract(e->k[2], lo, w));
  return mk(EXTRACT, BV, w, {e}, lo);
}
static E* toBool(E* e) {  // BV -> Bool: bit 0
  if (e->so == BO) return e;
  if (isC(e)) return cB(e->c & 1);
  if (e->op == B2BV) return e->k[0];
  if (e->w > 1) return toBool(mkExtract(e, 0, 1));
  if (e->op == ITE && isC(e->k[1]) && isC(e->k[2])) { return mkIte(e->k[0], cB(e->k[1]->c & 1), cB(e->k[2]->c & 1)); }
  return mk(EQ, BO, 1, {e, cBV(1, 1)});
}
static E* mkIte(E* c, E* a, E* b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == NOT) return mkIte(c->k[0], b, a);
  if (a->so == BO) {
    if (isC(a) && isC(b)) return a->c ? c : mkNot(c);
    if (isC(a)) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isC(b)) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (a->so == BV && isC(a) && isC(b) && b->c == 0 && a->c == 1) return mkZExt(c, a->w);
  if (a->op == ITE && a->k[0] == c) return mkIte(c, a->k[1], b);
  if (b->op == ITE && b->k[0] == c) return mkIte(c, a, b->k[2]);
  return mk(ITE, a->so, a->w, {c, a, b});
}
static E* toBV(E* e) { if (e->so == BO) return mkZExt(e, 1); return e; }
static E* mkEq(E* a, E* b) {
  if (a == b) return cB(true);
  if (a->so == BO) {
    if (isC(a)) return a->c ? b : mkNot(b); if (isC(b)) return b->c ? a : mkNot(a);
    return mk(EQ, BO, 1, {a, b});
  }
  if (isC(a) && isC(b)) return cB(a->c == b->c);
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (a->op == B2BV) return b->c == 1 ? a->k[0] : b->c == 0 ? mkNot(a->k[0]) : cB(false);
    if (a->op == ZEXT) { if (b->c >> a->k[0]->w) return cB(false); return mkEq(a->k[0], cBV(b->c, a->k[0]->w)); }
    if (a->op == SEXT) { if (sx(b->c, a->k[0]->w) != sx(b->c, b->w)) return cB(false); return mkEq(a->k[0], cBV(b->c, a->k[0]->w)); }
    if (a->op == ITE && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mkEq(a->k[1], b), mkEq(a->k[2], b));
    if (a->op == ADD && isC(a->k[1])) return mkEq(a->k[0], cBV(b->c - a->k[1]->c, b->w));
    if (a->op == XOR && isC(a->k[1])) return mkEq(a->k[0], cBV(b->c ^ a->k[1]->c, b->w));
  }
  if (a->id > b->id && !isC(b)) std::swap(a, b);
  return mk(EQ, BO, 1, {a, b});
}
static E* mkCmpBV(Op op, E* a, E* b) {
  if (a->so == BO) { a = mkZExt(a, 1); b = toBV(b); }
  if (b->so == BO) b = mkZExt(b, 1);
  unsigned w = a->w;
  if (a == b) return cB(op == ULE || op == SLE);
  if (isC(a) && isC(b)) switch (op) {
    case ULT: return cB(a->c < b->c); case ULE: return cB(a->c <= b->c);
    case SLT: return cB(sx(a->c, w) < sx(b->c, w)); default: return cB(sx(a->c, w) <= sx(b->c, w));
  }
  if (op == ULT && isC(b) && b->c == 0) return cB(false);
  if (op == ULE && isC(a) && a->c == 0) return cB(true);
  if (op == ULT && isC(b) && b->c == 1) return mkEq(a, cBV(0, w));
  if (a->op == ITE && isC(a->k[1]) && isC(a->k[2]) && isC(b)) return mkIte(a->k[0], mkCmpBV(op, a->k[1], b), mkCmpBV(op, a->k[2], b));
  if (b->op == ITE && isC(b->k[1]) && isC(b->k[2]) && isC(a)) return mkIte(b->k[0], mkCmpBV(op, a, b->k[1]), mkCmpBV(op, a, b->k[2]));
  if (a->op == B2BV && isC(b)) return mkIte(a->k[0], mkCmpBV(op, cBV(1, w), b), mkCmpBV(op, cBV(0, w), b));
  if (b->op == B2BV && isC(a)) return mkIte(b->k[0], mkCmpBV(op, a, cBV(1, w)), mkCmpBV(op, a, cBV(0, w)));
  return mk(op, BO, 1, {a, b});
}
static const u64 FNV_PRIME = 1099511628211ull;
static E* mkUF(const char* n, Sort so, unsigned w, std::vector<E*> a) { return mk(UF, so, w, a, 0, nameId(n)); }
static E* mkBin(Op op, E* a, E* b);
// seed ^ (h + 0x9e3779b9 + (seed << 6) + (seed >> 2)), the mixing step of dreal's hash_combine, becomes an
// uninterpreted function of (seed, h): equal operands mix equally, nothing else is known.
static void addends(E* e, std::vector<E*>& v, u64& k) {
  if (isC(e)) { k += e->c; return; }
  if (e->op == ADD) { addends(e->k[0], v, k); addends(e->k[1], v, k); return; }
  v.push_back(e);
}
static E* hashComb(E* seed, E* sum) {
  const u64 G = 0x9e3779b9ull;
  std::vector<E*> v; u64 k = 0; addends(sum, v, k);
  if (isC(seed)) { if (v.size() != 1 || (v[0]->op != UF && v[0]->op != ITE)) return nullptr; u64 s = seed->c; u64 h = k - G - (s << 6) - (s >> 2); if (h != 0) return nullptr; return mkUF("hashcomb", BV, 64, {seed, v[0]}); }
  if (v.size() < 2 || v.size() > 3) return nullptr;
  E *l = mkBin(SHL, seed, cBV(6, 64)), *r = mkBin(LSHR, seed, cBV(2, 64));
  auto il = std::find(v.begin(), v.end(), l); if (il == v.end()) return nullptr; v.erase(il);
  auto ir = std::find(v.begin(), v.end(), r); if (ir == v.end()) return nullptr; v.erase(ir);
  E* h = v.empty() ? cBV(k - G, 64) : k == G ? v[0] : nullptr;
  return h ? mkUF("hashcomb", BV, 64, {seed, h}) : nullptr;
}
static E* mkBin(Op op, E* a, E* b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) {
    u64 x = a->c, y = b->c, r = 0; bool ok = true;
    switch (op) {
      case ADD: r = x + y; break; case SUB: r = x - y; break; case MUL: r = x * y; break;
      case UDIV: if (y) r = x / y; else ok = false; break; case UREM: if (y) r = x % y; else ok = false; break;
      case SDIV: if (y && !(sx(y, w) == -1)) r = (u64)(sx(x, w) / sx(y, w)); else if (y) r = 0 - x; else ok = false; break;
      case SREM: if (y && !(sx(y, w) == -1)) r = (u64)(sx(x, w) % sx(y, w)); else if (y) r = 0; else ok = false; break;
      case AND: r = x & y; break; case OR: r = x | y; break; case XOR: r = x ^ y; break;
      case SHL: r = y < w ? x << y : 0; break; case LSHR: r = y < w ? x >> y : 0; break;
      case ASHR: r = (u64)(sx(x, w) >> (y < w ? y : w - 1)); break;
      default: ok = false;
    }
    if (ok) return cBV(r, w);
  }
  if (op == XOR && w == 64) { if (E* r = hashComb(a, b)) return r; if (E* r = hashComb(b, a)) return r; }
  bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR;
  if (comm && isC(a)) std::swap(a, b);
  if (isC(b)) {
    u64 y = b->c;
    if (y == 0) switch (op) { case ADD: case SUB: case OR: case XOR: case SHL: case LSHR: case ASHR: return a; case MUL: case AND: return b; default: break; }
    if (y == mask(~0ull, w)) { if (op == AND) return a; if (op == OR) return b; }
    if (y == 1) { if (op == MUL || op == UDIV || op == SDIV) return a; if (op == UREM) return cBV(0, w); }
    if (op == SUB) return mkBin(ADD, a, cBV(0 - y, w));
    if (op == ADD && a->op == ADD && isC(a->k[1])) return mkBin(ADD, a->k[0], cBV(y + a->k[1]->c, w));
    if (op == AND && ((y + 1) & y) == 0 && y) { unsigned n = 64 - __builtin_clzll(y); return mkZExt(mkExtract(a, 0, n), w); }
    if (op == SHL && y < w && a->op == ZEXT && a->k[0]->w + y <= w && 0) {}
    if (op == SHL && y < w) return mkConcat(mkExtract(a, 0, w - y), cBV(0, y));
    if (op == LSHR && y < w) return mkZExt(mkExtract(a, y, w - y), w);
    if (op == MUL && w == 64 && y == FNV_PRIME) return mkUF("hashmul", BV, 64, {a});
    if ((op == OR || op == XOR || op == ADD) && a->op == CONCAT && isC(a->k[1]) && a->k[1]->c == 0 && y < (1ull << a->k[1]->w)) return mkConcat(a->k[0], cBV(y, a->k[1]->w));
    if ((op == UREM || op == UDIV) && a->op == ZEXT && y < (1ull << a->k[0]->w)) return mkZExt(mkBin(op, a->k[0], cBV(y, a->k[0]->w)), w);
    if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
    if (a->op == B2BV && op != SHL) return mkIte(a->k[0], mkBin(op, cBV(1, w), b), mkBin(op, cBV(0, w), b));
  }
  if (a == b) switch (op) { case SUB: case XOR: return cBV(0, w); case AND: case OR: return a; default: break; }
  if (op == OR || op == XOR || op == ADD) {
    // disjoint zero-extended pieces
    auto piece = [&](E* hi, E* lo) -> E* {
      if (hi->op == CONCAT && isC(hi->k[1]) && hi->k[1]->c == 0) {
        unsigned n = hi->k[1]->w;
        if (lo->op == ZEXT && lo->k[0]->w <= n) return mkConcat(hi->k[0], mkZExt(lo->k[0], n));
        if (lo->op == B2BV) return mkConcat(hi->k[0], mkZExt(lo->k[0], n));
      }
      return nullptr;
    };
    if (E* r = piece(a, b)) return r; if (E* r = piece(b, a)) return r;
  }
  if (comm && a->id > b->id && !isC(b)) std::swap(a, b);
  return mk(op, BV, w, {a, b});
}
static E* mkBoolBin(Op op, E* a, E* b) {
  switch (op) {
    case AND: case MUL: return mkAnd(a, b); case OR: return mkOr(a, b);
    case XOR: case ADD: case SUB: return mkNot(mkEq(a, b));
    default: return nullptr;
  }
}

// ---- doubles
static E* mkFcmp(Op op, E* a, E* b);
static E* mkFbin(Op op, E* a, E* b);
static E* mkF1(Op op, E* a);
static bool special(E* e) { return e->op == CONST && e->sp; }
static bool isZeroC(E* e) { return isC(e) && asD(e->c) == 0; }
static E* mkFcmp(Op op, E* a, E* b) {  // FEQ FLT FLE, ordered
  if (isC(a) && isC(b)) { double x = asD(a->c), y = asD(b->c); return cB(op == FEQ ? x == y : op == FLT ? x < y : x <= y); }
  if (REAL) {
    if (a->op == ITE && (a->sp || (isC(a->k[1]) && isC(a->k[2]) && isC(b)))) return mkIte(a->k[0], mkFcmp(op, a->k[1], b), mkFcmp(op, a->k[2], b));
    if (b->op == ITE && (b->sp || (isC(b->k[1]) && isC(b->k[2]) && isC(a)))) return mkIte(b->k[0], mkFcmp(op, a, b->k[1]), mkFcmp(op, a, b->k[2]));
    if (special(a) || special(b)) {
      double x = special(a) ? asD(a->c) : 0, y = special(b) ? asD(b->c) : 0;  // the other one is finite
      return cB(op == FEQ ? x == y && special(a) == special(b) : op == FLT ? x < y : x <= y);
    }
    if (a == b) return cB(op != FLT);
    if (op == FEQ && a->id > b->id) std::swap(a, b);
    return mk(op, BO, 1, {a, b});
  }
  if (a == b) { if (op == FLT) return cB(false); return mkNot(mk(FNAN, BO, 1, {a})); }
  if (a->op == ITE && isC(a->k[1]) && isC(a->k[2]) && isC(b)) return mkIte(a->k[0], mkFcmp(op, a->k[1], b), mkFcmp(op, a->k[2], b));
  if (op == FEQ && a->id > b->id) std::swap(a, b);
  return mk(op, BO, 1, {a, b});
}
static E* mkNan(E* a) {
  if (isC(a)) return cB(std::isnan(asD(a->c)));
  if (REAL) { if (a->op == ITE && a->sp) return mkIte(a->k[0], mkNan(a->k[1]), mkNan(a->k[2])); return cB(false); }
  if (a->op == ITE) return mkIte(a->k[0], mkNan(a->k[1]), mkNan(a->k[2]));
  if (a->op == FNEG || a->op == FABS) return mkNan(a->k[0]);
  if (a->op == SI2F || a->op == UI2F) return cB(false);
  return mk(FNAN, BO, 1, {a});
}
static E* mkInf(E* a) {
  if (isC(a)) return cB(std::isinf(asD(a->c)));
  if (REAL) { if (a->op == ITE && a->sp) return mkIte(a->k[0], mkInf(a->k[1]), mkInf(a->k[2])); return cB(false); }
  return mk(FINF, BO, 1, {a});
}
static E* mkFbin(Op op, E* a, E* b) {
  if (isC(a) && isC(b)) {
    double x = asD(a->c), y = asD(b->c), r = op == FADD ? x + y : op == FSUB ? x - y : op == FMUL ? x * y : x / y;
    // in Real mode fold only when exact
    if (!REAL) return cF(r);
    if (!std::isfinite(r) || !std::isfinite(x) || !std::isfinite(y)) { if (op == FDIV && y == 0) y = 0; return cF(r); }
    bool exact = false;
    if (op == FADD) exact = (r - x == y && r - y == x); else if (op == FSUB) exact = (r + y == x && x - r == y);
    else if (op == FMUL) exact = std::fma(x, y, -r) == 0 && fabs(r) > 1e-250; else exact = std::fma(r, y, -x) == 0 && fabs(x) > 1e-250;
    if (op == FMUL && (x == 0 || y == 0)) exact = true; if (op == FDIV && x == 0 && y != 0) exact = true;
    if (exact) return cF(r);
  }
  if (REAL) {
    if (a->op == ITE && a->sp) return mkIte(a->k[0], mkFbin(op, a->k[1], b), mkFbin(op, a->k[2], b));
    if (b->op == ITE && b->sp) return mkIte(b->k[0], mkFbin(op, a, b->k[1]), mkFbin(op, a, b->k[2]));
    if (special(a) || special(b)) {
      if (special(a) && std::isnan(asD(a->c))) return a; if (special(b) && std::isnan(asD(b->c))) return b;
      if (op == FADD) return special(a) ? a : b;
      if (op == FSUB) return special(a) ? a : cF(-asD(b->c));
      if (op == FDIV && special(b)) return cF(0);
      E* x = special(a) ? b : a; double s = special(a) ? asD(a->c) : asD(b->c);
      if (op == FDIV) return mkIte(mkFcmp(FLT, x, cF(0)), cF(-s), cF(s));
      return mkIte(mkFcmp(FLT, cF(0), x), cF(s), mkIte(mkFcmp(FLT, x, cF(0)), cF(-s), cF(NAN)));
    }
    if (op == FADD) { if (isZeroC(a)) return b; if (isZeroC(b)) return a; }
    if (op == FSUB) { if (isZeroC(b)) return a; if (a == b) return cF(0); }
    if (op == FMUL) { if (isZeroC(a)) return a; if (isZeroC(b)) return b; if (isC(a) && asD(a->c) == 1) return b; if (isC(b) && asD(b->c) == 1) return a; }
    if (op == FDIV) {
      if (isC(b) && asD(b->c) == 1) return a;
      bool z = isC(b) ? asD(b->c) == 0 : branchE(mkFcmp(FEQ, b, cF(0)), false, 0xD0000001);
      if (z) { if (branchE(mkFcmp(FLT, cF(0), a), true, 0xD0000002)) return cF(INFINITY); if (branchE(mkFcmp(FLT, a, cF(0)), true, 0xD0000003)) return cF(-INFINITY); return cF(NAN); }
      if (isZeroC(a)) return a;
    }
    if ((op == FADD || op == FMUL) && a->id > b->id) std::swap(a, b);
    return mk(op, FP, 64, {a, b});
  }
  if (op == FMUL && isC(b) && asD(b->c) == 1) return a;
  if (op == FMUL && isC(a) && asD(a->c) == 1) return b;
  if ((op == FADD || op == FMUL) && a->id > b->id) std::swap(a, b);
  return mk(op, FP, 64, {a, b});
}
static double foldF1(Op op, double x) {
  switch (op) { case FNEG: return -x; case FABS: return fabs(x); case FFLOOR: return floor(x); case FCEIL: return ceil(x); case FTRUNC: return trunc(x); case FRINT: return rint(x); case FROUND: return round(x); default: return sqrt(x); }
}
static E* mkF1(Op op, E* a) {
  if (isC(a)) { double r = foldF1(op, asD(a->c)); if (!REAL || op != FSQRT || !std::isfinite(r) || std::fma(r, r, -asD(a->c)) == 0) return cF(r); }
  if (a->op == ITE && (a->sp || op == FNEG || op == FABS)) return mkIte(a->k[0], mkF1(op, a->k[1]), mkF1(op, a->k[2]));
  if (op == FNEG && a->op == FNEG) return a->k[0];
  if (REAL) {
    if (op == FABS) return mkIte(mkFcmp(FLT, a, cF(0)), mkF1(FNEG, a), a);
    if (op == FCEIL) return mkF1(FNEG, mkF1(FFLOOR, mkF1(FNEG, a)));
    if (op == FTRUNC) return mkIte(mkFcmp(FLT, a, cF(0)), mkF1(FCEIL, a), mkF1(FFLOOR, a));
    if (op == FROUND) return mkIte(mkFcmp(FLT, a, cF(0)), mkF1(FCEIL, mkFbin(FSUB, a, cF(0.5))), mkF1(FFLOOR, mkFbin(FADD, a, cF(0.5))));
    if (op == FSQRT) {
      if (!isC(a)) if (branchE(mkFcmp(FLT, a, cF(0)), true, 0xD0000004)) return cF(NAN);
    }
  } else if (op == FABS && a->op == FABS) return a;
  return mk(op, FP, 64, {a});
}

// --------------------------------------------------------------------- Z3
static Z3_context Z;
static Z3_solver SV;
static Z3_sort zF, zB;
static Z3_func_decl zVarDecl(E* e);
static Z3_ast zRM_RNE, zRM_RTZ, zRM_RTN, zRM_RTP, zRM_RNA;
struct Stats { u64 q = 0, sat = 0, unsat = 0, unk = 0; double t = 0; u64 br = 0, conc = 0, second = 0; };
static Stats st;
static std::map<std::string, u64> g_reach, g_asserts, g_incomp;
static std::vector<Z3_ast>* g_pc;       // all asserted formulas (for fresh solver)
static std::vector<Z3_ast>* g_pend;     // axioms waiting to be asserted
static std::map<std::pair<u32, u32>, std::vector<E*>>* g_ufapps;
static std::vector<E*>* g_vars;
static std::vector<E*>* g_pows; static std::vector<E*>* g_sqrts;
static Z3_model g_model = nullptr;

static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(97); }
static void zinit() {
  if (Z) return;
  Z3_config cfg = Z3_mk_config();
  Z = Z3_mk_context(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(Z, zerr);
  zB = Z3_mk_bool_sort(Z);
  zF = REAL ? Z3_mk_real_sort(Z) : Z3_mk_fpa_sort_double(Z);
  if (!REAL) {
    zRM_RNE = Z3_mk_fpa_rne(Z); zRM_RTZ = Z3_mk_fpa_rtz(Z); zRM_RTN = Z3_mk_fpa_rtn(Z); zRM_RTP = Z3_mk_fpa_rtp(Z); zRM_RNA = Z3_mk_fpa_rna(Z);
  }
  SV = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, SV);
  Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
  Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), g_qtimeout);
  Z3_solver_set_params(Z, SV, p); Z3_params_dec_ref(Z, p);
  if (!g_pc) { g_pc = new std::vector<Z3_ast>(); g_pend = new std::vector<Z3_ast>(); g_ufapps = new std::map<std::pair<u32, u32>, std::vector<E*>>(); }
}
static std::string pow2str(unsigned k) {
  std::string s = "1";
  for (unsigned i = 0; i < k; i++) { int c = 0; for (size_t j = s.size(); j-- > 0;) { int d = (s[j] - '0') * 2 + c; s[j] = '0' + d % 10; c = d / 10; } if (c) s.insert(s.begin(), '0' + c); }
  return s;
}
static std::string mulstr(std::string a, u64 m) {  // decimal * 64-bit via schoolbook
  std::vector<unsigned __int128> out; std::string s = a; std::string res; unsigned __int128 c = 0;
  for (size_t j = s.size(); j-- > 0;) { c += (unsigned __int128)(s[j] - '0') * m; res.insert(res.begin(), '0' + (int)(c % 10)); c /= 10; }
  while (c) { res.insert(res.begin(), '0' + (int)(c % 10)); c /= 10; }
  return res;
}
static Z3_ast zReal(double d) {
  if (d == 0) return Z3_mk_numeral(Z, "0", zF);
  int e; double m = frexp(d, &e); int64_t mi = (int64_t)ldexp(m, 53); e -= 53;
  while ((mi & 1) == 0) { mi >>= 1; e++; }
  std::string s;
  u64 am = mi < 0 ? -(u64)mi : (u64)mi;
  if (e >= 0) s = mulstr(pow2str(e), am); else s = std::to_string(am) + "/" + pow2str(-e);
  if (mi < 0) s = "-" + s;
  return Z3_mk_numeral(Z, s.c_str(), zF);
}
static Z3_sort zsort(Sort so, unsigned w) { return so == BO ? zB : so == FP ? zF : Z3_mk_bv_sort(Z, w); }
static Z3_ast zz(E* e);
static Z3_ast zTrue() { return Z3_mk_true(Z); }
static Z3_ast zand(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_and(Z, 2, x); }
static Z3_ast zor(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_or(Z, 2, x); }
static Z3_ast zmul(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_mul(Z, 2, x); }
static Z3_ast zadd(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_add(Z, 2, x); }
static Z3_ast zeqF(Z3_ast a, Z3_ast b) { return Z3_mk_eq(Z, a, b); }
static Z3_ast zxt(Z3_ast b, unsigned w) { return Z3_mk_ite(Z, b, Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, w)), Z3_mk_unsigned_int64(Z, 0, Z3_mk_bv_sort(Z, w))); }
static void axiom(Z3_ast a) { g_pend->push_back(a); }
static Z3_ast zUF(E* e) {
  // Ackermann: a fresh constant per application plus pairwise congruence
  Z3_ast v = Z3_mk_fresh_const(Z, ("uf_" + (*g_names)[e->fnid]).c_str(), zsort(e->so, e->w));
  e->z = v;
  auto& apps = (*g_ufapps)[{e->fnid, e->nk}];
  std::vector<Z3_ast> args; for (u32 i = 0; i < e->nk; i++) args.push_back(zz(kid(e, i)));
  const std::string& n = (*g_names)[e->fnid];
  for (E* o : apps) {
    Z3_ast c = zTrue(); bool diff = false;
    for (u32 i = 0; i < e->nk; i++) { E *x = kid(e, i), *y = kid(o, i); if (x == y) continue; if (isC(x) && isC(y)) { diff = true; break; } c = zand(c, zeqF(args[i], zz(y))); }
    if (!diff) axiom(Z3_mk_implies(Z, c, zeqF(v, o->z)));
    if (REAL && n == "hashmul") {}
  }
  if (REAL && e->so == FP) {
    Z3_ast zero = zReal(0), one = zReal(1);
    bool allc = true; for (u32 i = 0; i < e->nk; i++) allc &= isC(kid(e, i));
    if (allc && e->nk) {  // a libm function of a constant: its value within 1e-9
      double a = asD(kid(e, 0)->c), b = e->nk > 1 ? asD(kid(e, 1)->c) : 0, r = NAN;
      if (n == "sin") r = sin(a); else if (n == "cos") r = cos(a); else if (n == "tan") r = tan(a); else if (n == "asin") r = asin(a); else if (n == "acos") r = acos(a);
      else if (n == "atan") r = atan(a); else if (n == "sinh") r = sinh(a); else if (n == "cosh") r = cosh(a); else if (n == "tanh") r = tanh(a); else if (n == "exp") r = exp(a); else if (n == "log") r = log(a);
      else if (n == "pow" || n == "pown") r = pow(a, b); else if (n == "atan2") r = atan2(a, b);
      if (std::isfinite(r)) { double w = 1e-9 * fabs(r) + 1e-300; axiom(Z3_mk_ge(Z, v, zReal(r - w))); axiom(Z3_mk_le(Z, v, zReal(r + w))); }
    }
    Z3_ast x = args.empty() ? zero : args[0];
    if (n == "exp") { axiom(Z3_mk_gt(Z, v, zero)); axiom(Z3_mk_implies(Z, zeqF(x, zero), zeqF(v, one))); axiom(Z3_mk_implies(Z, Z3_mk_gt(Z, x, zero), Z3_mk_gt(Z, v, one))); axiom(Z3_mk_implies(Z, Z3_mk_lt(Z, x, zero), Z3_mk_lt(Z, v, one))); }
    if (n == "log") { axiom(Z3_mk_implies(Z, zeqF(x, one), zeqF(v, zero))); }
    if (n == "sin" || n == "tan" || n == "asin" || n == "atan" || n == "sinh" || n == "tanh") axiom(Z3_mk_implies(Z, zeqF(x, zero), zeqF(v, zero)));
    if (n == "cos" || n == "cosh") axiom(Z3_mk_implies(Z, zeqF(x, zero), zeqF(v, one)));
    if (n == "sin" || n == "cos" || n == "tanh") { axiom(Z3_mk_le(Z, v, one)); axiom(Z3_mk_ge(Z, v, zReal(-1))); }
    if (n == "atan2") axiom(Z3_mk_implies(Z, zand(zeqF(x, zero), Z3_mk_ge(Z, args[1], zero)), zeqF(v, zero)));
    if (n == "acos") axiom(Z3_mk_implies(Z, zeqF(x, one), zeqF(v, zero)));
    if (n == "cosh") axiom(Z3_mk_ge(Z, v, one));
    if (n == "pow") {  // args: base>0, exponent (any)
      Z3_ast y = args[1];
      axiom(Z3_mk_gt(Z, v, zero));
      axiom(Z3_mk_implies(Z, zeqF(x, one), zeqF(v, one)));
      axiom(Z3_mk_implies(Z, zeqF(y, zero), zeqF(v, one)));
      axiom(Z3_mk_implies(Z, zeqF(y, one), zeqF(v, x)));
      axiom(Z3_mk_implies(Z, zeqF(y, zReal(2)), zeqF(v, zmul(x, x))));
      axiom(Z3_mk_implies(Z, zeqF(y, zReal(3)), zeqF(v, zmul(x, zmul(x, x)))));
      axiom(Z3_mk_implies(Z, zeqF(y, zReal(-1)), zeqF(zmul(v, x), one)));
      axiom(Z3_mk_implies(Z, zeqF(y, zReal(-2)), zeqF(zmul(v, zmul(x, x)), one)));
      axiom(Z3_mk_implies(Z, zeqF(y, zReal(0.5)), zeqF(zmul(v, v), x)));
      axiom(Z3_mk_implies(Z, zeqF(y, zReal(-0.5)), zeqF(zmul(zmul(v, v), x), one)));
      auto link = [&](E* p, E* q, E* r) {  // p*q == r when same base and ep+eq=er
        Z3_ast pb = zz(kid(p, 0)), qb = zz(kid(q, 0)), rb = zz(kid(r, 0));
        axiom(Z3_mk_implies(Z, zand(zand(zeqF(pb, qb), zeqF(pb, rb)), zeqF(zadd(zz(kid(p, 1)), zz(kid(q, 1))), zz(kid(r, 1)))), zeqF(zmul(p->z, q->z), r->z)));
      };
      auto link2 = [&](E* p, E* q) {
        // ep + eq = 0 -> p*q = 1 ; ep+eq=1 -> p*q = b
        Z3_ast pb = zz(kid(p, 0)), qb = zz(kid(q, 0)); Z3_ast s = zadd(zz(kid(p, 1)), zz(kid(q, 1)));
        axiom(Z3_mk_implies(Z, zand(zeqF(pb, qb), zeqF(s, zero)), zeqF(zmul(p->z, q->z), one)));
        axiom(Z3_mk_implies(Z, zand(zeqF(pb, qb), zeqF(s, one)), zeqF(zmul(p->z, q->z), pb)));
        // b^(e+1) = b^e * b
        axiom(Z3_mk_implies(Z, zand(zeqF(pb, qb), zeqF(zadd(zz(kid(p, 1)), one), zz(kid(q, 1)))), zeqF(q->z, zmul(p->z, pb))));
        axiom(Z3_mk_implies(Z, zand(zeqF(pb, qb), zeqF(zadd(zz(kid(q, 1)), one), zz(kid(p, 1)))), zeqF(p->z, zmul(q->z, pb))));
        // (b^e)^f chains: q = pow(p, f), r = pow(b, e*f) handled below
      };
      std::vector<E*> all = apps; 
      if (all.size() < 7) {
        for (E* p : all) { link2(p, e); }
        link2(e, e);
        for (E* p : all) for (E* q : all) { if (p->id <= q->id) link(p, q, e); link(p, e, q); }
        for (E* p : all) { link(e, e, p); link(p, e, e); }
        std::vector<E*> al2 = all; al2.push_back(e);
        for (E* p : al2) for (E* q : al2) {
          if (kid(q, 0) == p) for (E* r : al2)  // q=(b^e1)^e2
            if (p == e || q == e || r == e)
              axiom(Z3_mk_implies(Z, zand(zeqF(zz(kid(r, 0)), zz(kid(p, 0))), zeqF(zz(kid(r, 1)), zmul(zz(kid(p, 1)), zz(kid(q, 1))))), zeqF(r->z, q->z)));
        }
      }
    }
  }
  apps.push_back(e);
  return v;
}
static Z3_ast zz(E* e) {
  if (e->z) return e->z;
  Z3_ast r = nullptr;
  auto K = [&](unsigned i) { return zz(kid(e, i)); };
  Z3_ast two[2];
  switch (e->op) {
    case CONST:
      if (e->so == BO) r = e->c ? Z3_mk_true(Z) : Z3_mk_false(Z);
      else if (e->so == BV) r = Z3_mk_unsigned_int64(Z, e->c, Z3_mk_bv_sort(Z, e->w));
      else if (REAL) { if (e->sp) { fprintf(stderr, "special const reached the solver\n"); g_incomp["special constant in solver term"]++; r = zReal(0); } else r = zReal(asD(e->c)); }
      else r = Z3_mk_fpa_to_fp_bv(Z, Z3_mk_unsigned_int64(Z, e->c, Z3_mk_bv_sort(Z, 64)), zF);
      break;
    case VAR: r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, (*g_names)[e->fnid].c_str()), zsort(e->so, e->w)); break;
    case UF: return zUF(e);
    case ADD: r = Z3_mk_bvadd(Z, K(0), K(1)); break; case SUB: r = Z3_mk_bvsub(Z, K(0), K(1)); break;
    case MUL: r = Z3_mk_bvmul(Z, K(0), K(1)); break; case UDIV: r = Z3_mk_bvudiv(Z, K(0), K(1)); break;
    case SDIV: r = Z3_mk_bvsdiv(Z, K(0), K(1)); break; case UREM: r = Z3_mk_bvurem(Z, K(0), K(1)); break;
    case SREM: r = Z3_mk_bvsrem(Z, K(0), K(1)); break; case AND: r = Z3_mk_bvand(Z, K(0), K(1)); break;
    case OR: r = Z3_mk_bvor(Z, K(0), K(1)); break; case XOR: r = Z3_mk_bvxor(Z, K(0), K(1)); break;
    case SHL: r = Z3_mk_bvshl(Z, K(0), K(1)); break; case LSHR: r = Z3_mk_bvlshr(Z, K(0), K(1)); break;
    case ASHR: r = Z3_mk_bvashr(Z, K(0), K(1)); break; case CONCAT: r = Z3_mk_concat(Z, K(0), K(1)); break;
    case EXTRACT: r = Z3_mk_extract(Z, e->c + e->w - 1, e->c, K(0)); break;
    case ZEXT: r = Z3_mk_zero_ext(Z, e->w - e->k[0]->w, K(0)); break; case SEXT: r = Z3_mk_sign_ext(Z, e->w - e->k[0]->w, K(0)); break;
    case B2BV: r = zxt(K(0), e->w); break;
    case ITE: r = Z3_mk_ite(Z, K(0), K(1), K(2)); break;
    case NOT: r = Z3_mk_not(Z, K(0)); break;
    case BAND: two[0] = K(0); two[1] = K(1); r = Z3_mk_and(Z, 2, two); break;
    case BOR: two[0] = K(0); two[1] = K(1); r = Z3_mk_or(Z, 2, two); break;
    case EQ: r = Z3_mk_eq(Z, K(0), K(1)); break;
    case ULT: r = Z3_mk_bvult(Z, K(0), K(1)); break; case ULE: r = Z3_mk_bvule(Z, K(0), K(1)); break;
    case SLT: r = Z3_mk_bvslt(Z, K(0), K(1)); break; case SLE: r = Z3_mk_bvsle(Z, K(0), K(1)); break;
    case OVF: {
      Z3_ast a = K(0), b = K(1), o; bool sg = e->aux & 1; unsigned op = e->aux >> 1;
      if (op == 0) { o = Z3_mk_bvadd_no_overflow(Z, a, b, sg); if (sg) o = zand(o, Z3_mk_bvadd_no_underflow(Z, a, b)); }
      else if (op == 1) { o = Z3_mk_bvsub_no_underflow(Z, a, b, sg); if (sg) o = zand(o, Z3_mk_bvsub_no_overflow(Z, a, b)); }
      else { o = Z3_mk_bvmul_no_overflow(Z, a, b, sg); if (sg) o = zand(o, Z3_mk_bvmul_no_underflow(Z, a, b)); }
      r = Z3_mk_not(Z, o); break;
    }
    case FEQ: r = REAL ? Z3_mk_eq(Z, K(0), K(1)) : Z3_mk_fpa_eq(Z, K(0), K(1)); break;
    case FLT: r = REAL ? Z3_mk_lt(Z, K(0), K(1)) : Z3_mk_fpa_lt(Z, K(0), K(1)); break;
    case FLE: r = REAL ? Z3_mk_le(Z, K(0), K(1)) : Z3_mk_fpa_leq(Z, K(0), K(1)); break;
    case FNAN: r = Z3_mk_fpa_is_nan(Z, K(0)); break;
    case FINF: r = Z3_mk_fpa_is_infinite(Z, K(0)); break;
    case FNEGSIGN: r = REAL ? Z3_mk_lt(Z, K(0), zReal(0)) : Z3_mk_fpa_is_negative(Z, K(0)); break;
    case ISINT: r = Z3_mk_is_int(Z, K(0)); break;
    case FADD: r = REAL ? zadd(K(0), K(1)) : Z3_mk_fpa_add(Z, zRM_RNE, K(0), K(1)); break;
    case FSUB: if (REAL) { two[0] = K(0); two[1] = K(1); r = Z3_mk_sub(Z, 2, two); } else r = Z3_mk_fpa_sub(Z, zRM_RNE, K(0), K(1)); break;
    case FMUL: r = REAL ? zmul(K(0), K(1)) : Z3_mk_fpa_mul(Z, zRM_RNE, K(0), K(1)); break;
    case FDIV:
      if (!REAL) r = Z3_mk_fpa_div(Z, zRM_RNE, K(0), K(1));
      else if (isC(e->k[1])) r = Z3_mk_div(Z, K(0), K(1));
      else { r = Z3_mk_fresh_const(Z, "quot", zF); e->z = r; axiom(zeqF(zmul(r, K(1)), K(0))); }  // divisor != 0 on this path
      break;
    case FNEG: r = REAL ? Z3_mk_unary_minus(Z, K(0)) : Z3_mk_fpa_neg(Z, K(0)); break;
    case FABS: r = Z3_mk_fpa_abs(Z, K(0)); break;
    case FFLOOR: r = REAL ? Z3_mk_int2real(Z, Z3_mk_real2int(Z, K(0))) : Z3_mk_fpa_round_to_integral(Z, zRM_RTN, K(0)); break;
    case FCEIL: r = Z3_mk_fpa_round_to_integral(Z, zRM_RTP, K(0)); break;
    case FTRUNC: r = Z3_mk_fpa_round_to_integral(Z, zRM_RTZ, K(0)); break;
    case FRINT: if (REAL) { r = Z3_mk_int2real(Z, Z3_mk_real2int(Z, zadd(K(0), zReal(0.5)))); } else r = Z3_mk_fpa_round_to_integral(Z, zRM_RNE, K(0)); break;
    case FROUND: r = Z3_mk_fpa_round_to_integral(Z, zRM_RNA, K(0)); break;
    case FSQRT:
      if (!REAL) r = Z3_mk_fpa_sqrt(Z, zRM_RNE, K(0));
      else { Z3_ast x = K(0); r = Z3_mk_fresh_const(Z, "sqrt", zF); e->z = r; axiom(Z3_mk_ge(Z, r, zReal(0))); axiom(zeqF(zmul(r, r), x)); }
      break;
    case F2BITS:
      if (!REAL) {
        // fresh bit-vector whose fp value is the operand (NaN payload free)
        Z3_ast x = K(0); r = Z3_mk_fresh_const(Z, "bits", Z3_mk_bv_sort(Z, 64)); e->z = r; axiom(Z3_mk_eq(Z, Z3_mk_fpa_to_fp_bv(Z, r, zF), x));
        axiom(Z3_mk_implies(Z, Z3_mk_fpa_is_nan(Z, x), Z3_mk_eq(Z, r, Z3_mk_unsigned_int64(Z, asB(NAN), Z3_mk_bv_sort(Z, 64)))));
      } else { std::vector<E*> v{e->k[0]}; E* u = mkUF("bits", BV, 64, v); r = zz(u); }
      break;
    case BITS2F: if (!REAL) r = Z3_mk_fpa_to_fp_bv(Z, K(0), zF); else { E* u = mkUF("ofbits", FP, 64, {e->k[0]}); r = zz(u); g_incomp["Real mode: double made from bits"]++; } break;
    case F2SI: r = REAL ? Z3_mk_int2bv(Z, e->w, Z3_mk_real2int(Z, zz(mkF1(FTRUNC, e->k[0])))) : Z3_mk_fpa_to_sbv(Z, zRM_RTZ, K(0), e->w); break;
    case F2UI: r = REAL ? Z3_mk_int2bv(Z, e->w, Z3_mk_real2int(Z, zz(mkF1(FTRUNC, e->k[0])))) : Z3_mk_fpa_to_ubv(Z, zRM_RTZ, K(0), e->w); break;
    case SI2F: r = REAL ? Z3_mk_int2real(Z, Z3_mk_bv2int(Z, K(0), true)) : Z3_mk_fpa_to_fp_signed(Z, zRM_RNE, K(0), zF); break;
    case UI2F: r = REAL ? Z3_mk_int2real(Z, Z3_mk_bv2int(Z, K(0), false)) : Z3_mk_fpa_to_fp_unsigned(Z, zRM_RNE, K(0), zF); break;
    default: fprintf(stderr, "zz: bad op %d\n", e->op); abort();
  }
  e->z = r;
  return r;
}
static void flushAxioms() {
  // axioms must be asserted at the base level; we never hold a push while
  // translating, so this is safe.
  for (auto a : *g_pend) { g_pc->push_back(a); Z3_solver_assert(Z, SV, a); }
  g_pend->clear();
}
static void setModel(Z3_model m) {
  if (g_model) Z3_model_dec_ref(Z, g_model);
  g_model = m; if (m) Z3_model_inc_ref(Z, m);
}
static bool g_in_solver = false;
static bool g_dumpq = false;
// 1 sat, 0 unsat, -1 unknown.  out: model (caller owns one ref) when sat.
static int checkZ(Z3_ast extra, Z3_model* out) {
  zinit(); flushAxioms();
  g_in_solver = true;
  double t0 = now(); st.q++;
  Z3_solver_push(Z, SV);
  if (extra) Z3_solver_assert(Z, SV, extra);
  int r = Z3_solver_check(Z, SV);
  if (r == 1 && out) { *out = Z3_solver_get_model(Z, SV); Z3_model_inc_ref(Z, *out); }
  Z3_solver_pop(Z, SV, 1);
  if (r == 0) {  // unknown: fresh, non-incremental solver with a tactic
    st.second++;
    Z3_solver s2;
    Z3_tactic t;
    if (REAL) t = Z3_mk_tactic(Z, "default");
    else t = Z3_mk_tactic(Z, "qffpbv");
    Z3_tactic_inc_ref(Z, t);
    s2 = Z3_mk_solver_from_tactic(Z, t); Z3_solver_inc_ref(Z, s2);
    Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), g_qtimeout2);
    Z3_solver_set_params(Z, s2, p);
    for (auto a : *g_pc) Z3_solver_assert(Z, s2, a);
    if (extra) Z3_solver_assert(Z, s2, extra);
    r = Z3_solver_check(Z, s2);
    if (r == 1 && out) { *out = Z3_solver_get_model(Z, s2); Z3_model_inc_ref(Z, *out); }
    if (r == 0 && g_dumpq) { fprintf(stderr, "UNKNOWN QUERY:\n%s\n", Z3_solver_to_string(Z, s2)); }
    Z3_solver_dec_ref(Z, s2);
  }
  st.t += now() - t0;
  g_in_solver = false;
  if (r == 1) st.sat++; else if (r == -1) st.unsat++; else st.unk++;
  if (getenv("SYM_SLOW") && now() - t0 > atof(getenv("SYM_SLOW"))) fprintf(stderr, "SLOW QUERY %.2fs r=%d extra=%s\n", now() - t0, r, extra ? Z3_ast_to_string(Z, extra) : "-");
  return r == 1 ? 1 : r == -1 ? 0 : -1;
}
static void assertE(E* e) { if (isC(e)) return; zinit(); Z3_ast a = zz(e); flushAxioms(); g_pc->push_back(a); Z3_solver_assert(Z, SV, a); }
// evaluate bool under model: 1/0/-1
static int evalBool(Z3_model m, E* c) {
  Z3_ast r; if (!Z3_model_eval(Z, m, zz(c), true, &r)) return -1;
  Z3_lbool b = Z3_get_bool_value(Z, r); return b == Z3_L_TRUE ? 1 : b == Z3_L_FALSE ? 0 : -1;
}

// ------------------------------------------------------------- path handling
struct Dec { u32 tag; u64 v; };
struct Item { std::vector<Dec> d; std::vector<std::pair<std::string, std::string>> in; };
static Item g_item;          // the prefix to replay
static std::vector<Dec> g_trace;
static std::vector<std::pair<std::string, std::string>> g_choices;  // choices taken, for replay files
static bool g_garbage = false;  // concrete values no longer follow the path
static int g_out = -1;
static bool g_have_model = false;
static u64 g_steps = 0;
static std::map<std::string, u32>* g_namecount;

static void wr(char t, const std::string& s) {
  u32 n = s.size(); std::string b; b.push_back(t); b.append((char*)&n, 4); b += s;
  size_t o = 0; while (o < b.size()) { ssize_t k = write(g_out, b.data() + o, b.size() - o); if (k < 0) { if (errno == EINTR) continue; _exit(98); } o += k; }
}
static void put32(std::string& s, u32 v) { s.append((char*)&v, 4); }
static void put64(std::string& s, u64 v) { s.append((char*)&v, 8); }
static void putS(std::string& s, const std::string& t) { put32(s, t.size()); s += t; }
static std::string ser(const Item& it) {
  std::string s; put32(s, it.d.size()); for (auto& d : it.d) { put32(s, d.tag); put64(s, d.v); }
  put32(s, it.in.size()); for (auto& p : it.in) { putS(s, p.first); putS(s, p.second); }
  return s;
}
struct Rd { const char* p; u32 u() { u32 v; memcpy(&v, p, 4); p += 4; return v; } u64 U() { u64 v; memcpy(&v, p, 8); p += 8; return v; } std::string S() { u32 n = u(); std::string s(p, n); p += n; return s; } };
static Item unser(const std::string& b) {
  Rd r{b.data()}; Item it; u32 n = r.u(); for (u32 i = 0; i < n; i++) { u32 t = r.u(); u64 v = r.U(); it.d.push_back({t, v}); }
  n = r.u(); for (u32 i = 0; i < n; i++) { std::string a = r.S(), b2 = r.S(); it.in.push_back({a, b2}); }
  return it;
}
static std::string numD(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
static std::string modelVal(Z3_model m, E* v) {
  Z3_ast r; if (!Z3_model_eval(Z, m, zz(v), true, &r)) return "0";
  if (v->so == BV) { u64 x = 0; Z3_get_numeral_uint64(Z, r, &x); return std::to_string((long long)sx(x, v->w)); }
  if (v->so == BO) return Z3_get_bool_value(Z, r) == Z3_L_TRUE ? "1" : "0";
  if (REAL) {
    if (Z3_get_ast_kind(Z, r) == Z3_NUMERAL_AST) {
      std::string s = Z3_get_numeral_string(Z, r);
      size_t sl = s.find('/');
      if (sl == std::string::npos) return numD(strtod(s.c_str(), 0));
      std::string ds = Z3_get_numeral_decimal_string(Z, r, 30); if (!ds.empty() && ds.back() == '?') ds.pop_back();
      return numD(strtod(ds.c_str(), 0));
    }
    if (Z3_is_algebraic_number(Z, r)) { std::string ds = Z3_get_numeral_decimal_string(Z, r, 30); if (!ds.empty() && ds.back() == '?') ds.pop_back(); return numD(strtod(ds.c_str(), 0)); }
    return "0";
  }
  // FP numeral -> bits
  if (Z3_fpa_is_numeral_nan(Z, r)) return "nan";
  bool neg = Z3_fpa_is_numeral_negative(Z, r);
  if (Z3_fpa_is_numeral_inf(Z, r)) return neg ? "-inf" : "inf";
  if (Z3_fpa_is_numeral_zero(Z, r)) return neg ? "-0" : "0";
  u64 sig = 0; int64_t ex = 0; Z3_fpa_get_numeral_significand_uint64(Z, r, &sig); Z3_fpa_get_numeral_exponent_int64(Z, r, &ex, true);
  u64 bits = (neg ? 1ull << 63 : 0) | ((u64)ex << 52) | sig;
  char b[64]; snprintf(b, sizeof b, "%a", asD(bits)); return b;
}
static std::vector<std::pair<std::string, std::string>> inputsOf(Z3_model m) {
  std::vector<std::pair<std::string, std::string>> o = g_choices;
  if (g_vars) for (E* v : *g_vars) o.push_back({(*g_names)[v->fnid], m ? modelVal(m, v) : "0"});
  return o;
}
static void incomplete(const std::string& why) { g_incomp[why]++; }

static void sendEnd(char how) {
  std::string s; s.push_back(how);
  put64(s, st.q); put64(s, st.sat); put64(s, st.unsat); put64(s, st.unk); put64(s, (u64)(st.t * 1e6)); put64(s, st.br); put64(s, st.conc); put64(s, st.second);
  auto m = [&](std::map<std::string, u64>& x) { put32(s, x.size()); for (auto& p : x) { putS(s, p.first); put64(s, p.second); } };
  m(g_reach); m(g_asserts); m(g_incomp);
  // sample: the inputs of this path
  auto in = inputsOf(g_model); put32(s, in.size()); for (auto& p : in) { putS(s, p.first); putS(s, p.second); }
  put32(s, g_trace.size());
  wr('T', s);
}
[[noreturn]] static void finish(char how) { g_running = false; sendEnd(how); _exit(0); }

static bool replaying() { return g_trace.size() < g_item.d.size(); }
static Dec nextDec(u32 tag) {
  Dec d = g_item.d[g_trace.size()];
  if (d.tag != tag) {
    char b[200]; snprintf(b, sizeof b, "nondeterminism: expected tag %x got %x at decision %zu", d.tag, tag, g_trace.size());
    incomplete(b); finish('X');
  }
  return d;
}
static void spawn(u32 tag, u64 v, Z3_model m) {
  Item it; it.d = g_trace; it.d.push_back({tag, v});
  if (m) it.in = inputsOf(m); else it.in = g_item.in;
  wr('S', ser(it));
}
static void dec(u32 tag, u64 v) { g_trace.push_back({tag, v}); }
static void ensureModel() {
  if (g_have_model) return;
  Z3_model m = nullptr; int r = checkZ(nullptr, &m);
  if (r == 1) { setModel(m); Z3_model_dec_ref(Z, m); g_have_model = true; }
  else if (r == 0) { finish('I'); }  // infeasible path (only after an unknown)
}
static void violation(const std::string& kind, const std::string& label, Z3_model m) {
  std::string s; putS(s, kind); putS(s, label); auto in = inputsOf(m); put32(s, in.size()); for (auto& p : in) { putS(s, p.first); putS(s, p.second); }
  wr('V', s);
}
// a fatal event on this path
[[noreturn]] static void fatal(const std::string& kind, const std::string& msg) {
  Z3_model m = nullptr; int r = 1;
  bool any = g_vars && !g_vars->empty();
  if (any) { zinit(); r = checkZ(nullptr, &m); }
  if (r == 0) finish('I');
  if (r < 0) { incomplete("fatal event on a path the solver could not decide: " + msg); }
  if (r == 1) violation(kind, msg, m);
  finish('F');
}

static std::unordered_map<E*, u64>* g_known;  // concretised

static bool branchE(E* c, bool conc, u32 site) {
  if (isC(c)) return c->c;
  if (!g_running) { fprintf(stderr, "symbolic branch outside a path\n"); abort(); }
  st.br++;
  if (++g_steps > 3000000) { fatal("hang", "more than 3000000 symbolic branches on one path"); }
  if (c->op == NOT) return !branchE(c->k[0], !conc, site);
  if (g_known) { auto it = g_known->find(c); if (it != g_known->end()) return it->second; }
  else g_known = new std::unordered_map<E*, u64>();
  u32 tag = site;
  if (replaying()) {
    Dec d = nextDec(tag); bool v = d.v & 1; bool forced = d.v & 2;
    dec(tag, d.v); if (!forced) assertE(v ? c : mkNot(c));
    if (!REAL && !g_garbage && conc != v) {
      if (c->uf || (d.v & 4)) g_garbage = true;
      else if (!replaying()) { g_garbage = true; incomplete("divergence: concrete run left the predicted path"); }
      else g_garbage = true;
    }
    (*g_known)[c] = v; return v;
  }
  zinit();
  bool side; bool side_known = false;
  if (!REAL && !g_garbage) { side = conc; side_known = true; }
  else {
    ensureModel();
    if (g_have_model) { zz(c); if (g_pend->empty()) { int e = evalBool(g_model, c); if (e >= 0) { side = e; side_known = true; } }
      else {  // new axioms: the model may not extend; re-check
        g_have_model = false; ensureModel(); if (g_have_model) { int e = evalBool(g_model, c); if (e >= 0) { side = e; side_known = true; } } } }
  }
  if (!side_known) {
    Z3_model m = nullptr; int r = checkZ(zz(c), &m);
    if (r == 1) { side = true; setModel(m); Z3_model_dec_ref(Z, m); g_have_model = true; }
    else if (r == 0) { side = false; }
    else side = true;
  }
  E* other = side ? mkNot(c) : c;
  Z3_model m = nullptr; int r = checkZ(zz(other), &m);
  if (r != 0) spawn(tag, (u64)!side | (r < 0 ? 4 : 0), r == 1 ? m : nullptr);
  if (r < 0) g_reach["~unknown-branch"]++;
  if (m) Z3_model_dec_ref(Z, m);
  dec(tag, (u64)side | (r == 0 ? 2 : 0));
  if (r != 0) assertE(side ? c : mkNot(c));
  (*g_known)[c] = side;
  return side;
}
// concretise a BV/FP/Bool expression: fork over all feasible values.
static u64 concE(E* e, u64 cv, u32 tag) {
  if (isC(e)) return e->c;
  if (e->so == BO) return branchE(e, cv & 1, tag);
  if (!g_known) g_known = new std::unordered_map<E*, u64>();
  auto it = g_known->find(e); if (it != g_known->end()) return it->second;
  st.conc++;
  auto eqc = [&](u64 v) { return e->so == FP ? (REAL ? mkFcmp(FEQ, e, cFb(v)) : std::isnan(asD(v)) ? mkNan(e) : mkEq(mk(F2BITS, BV, 64, {e}), cBV(v, 64))) : mkEq(e, cBV(v, e->w)); };
  if (replaying()) { Dec d = nextDec(tag); dec(tag, d.v); assertE(eqc(d.v)); if (!REAL && d.v != mask(cv, e->w) ) g_garbage = true; (*g_known)[e] = d.v; return d.v; }
  zinit();
  std::vector<u64> vals; std::vector<Z3_model> models;
  Z3_ast ex = zTrue(); bool complete = false;
  if (!REAL && !g_garbage) { vals.push_back(mask(cv, e->w)); models.push_back(nullptr); ex = zand(ex, Z3_mk_not(Z, zz(eqc(vals[0])))); }
  while (vals.size() <= g_conc_limit) {
    Z3_model m = nullptr; int r = checkZ(ex, &m);
    if (r == 0) { complete = true; break; }
    if (r < 0) break;
    Z3_ast val; Z3_model_eval(Z, m, zz(e), true, &val);
    u64 v = 0;
    if (e->so == BV) Z3_get_numeral_uint64(Z, val, &v);
    else { std::string s = modelVal(m, e); v = asB(strtod(s.c_str(), 0)); if (REAL && Z3_get_ast_kind(Z, val) != Z3_NUMERAL_AST) { incomplete("concretised an irrational"); } }
    vals.push_back(v); models.push_back(m);
    if (e->so == FP && REAL && vals.size() > 3) break;
    ex = zand(ex, Z3_mk_not(Z, zz(eqc(v))));
  }
  if (!complete) { char b[120]; snprintf(b, sizeof b, "concretisation not exhaustive (reason %u, sort %d)", tag & 0xffff, e->so); incomplete(b); }
  if (vals.empty()) finish('I');
  for (size_t i = 1; i < vals.size(); i++) spawn(tag, vals[i], models[i]);
  if (models[0]) { setModel(models[0]); g_have_model = true; }
  dec(tag, vals[0]); assertE(eqc(vals[0])); (*g_known)[e] = vals[0];
  return vals[0];
}

// -------------------------------------------------------------- shadow memory
// slot: E* | byte index (E is 16-aligned)
struct Page { u64 s[4096]; };
static const u32 NPG = 1u << 14;
static struct { u64 key; Page* p; } g_pg[NPG];
static u8 g_filt[1u << 16];
static u32 g_npages = 0;
static inline u32 fidx(u64 pg) { return (u32)((pg * 0x9E3779B97F4A7C15ull) >> 48); }
static Page* findPage(u64 pg) {
  u32 i = (u32)((pg * 0xD6E8FEB86659FD93ull) >> 50);
  for (;; i = (i + 1) & (NPG - 1)) { if (!g_pg[i].p) return nullptr; if (g_pg[i].key == pg) return g_pg[i].p; }
}
static Page* makePage(u64 pg) {
  u32 i = (u32)((pg * 0xD6E8FEB86659FD93ull) >> 50);
  for (;; i = (i + 1) & (NPG - 1)) {
    if (!g_pg[i].p) { if (++g_npages > NPG / 2) { fprintf(stderr, "too many shadow pages\n"); abort(); }
      g_pg[i].key = pg; g_pg[i].p = (Page*)calloc(1, sizeof(Page)); g_filt[fidx(pg)] = 1; return g_pg[i].p; }
    if (g_pg[i].key == pg) return g_pg[i].p;
  }
}
static inline bool maybeSym(u64 a, u64 n) {
  if (!g_npages) return false;
  u64 p0 = a >> 12, p1 = (a + n - 1) >> 12;
  if (p1 - p0 > 64) { for (u64 p = p0; p <= p1; p++) if (g_filt[fidx(p)]) return true; return false; }
  for (u64 p = p0; p <= p1; p++) if (g_filt[fidx(p)]) return true;
  return false;
}
static inline u64 slot(u64 a) { Page* p = findPage(a >> 12); return p ? p->s[a & 4095] : 0; }
static void setSlot(u64 a, u64 v) { Page* p = v ? makePage(a >> 12) : findPage(a >> 12); if (p) p->s[a & 4095] = v; }
static bool anySym(u64 a, u64 n) { if (!n || !maybeSym(a, n)) return false; for (u64 i = 0; i < n; i++) if (slot(a + i)) return true; return false; }
static E* slotByte(u64 s) {
  E* e = (E*)(s & ~15ull); unsigned i = s & 15;
  if (e->so == FP) e = mk(F2BITS, BV, 64, {e}); if (e->so == BO) e = mkZExt(e, 8);
  if (isC(e) && e->w < 8) return cBV(e->c, 8);
  unsigned w = e->w;
  if (i * 8 + 8 <= w) return mkExtract(e, i * 8, 8);
  return mkZExt(mkExtract(e, i * 8, w - i * 8), 8);
}
static E* f2bits(E* e) {
  if (isC(e)) return cBV(e->c, 64); if (e->op == BITS2F) return e->k[0];
  if (e->op == ITE && !e->sp && 0) return nullptr;
  return mk(F2BITS, BV, 64, {e});
}
static E* bits2f(E* e) {
  if (isC(e)) return cFb(e->c); if (e->op == F2BITS) return e->k[0];
  if (e->op == ITE) return mkIte(e->k[0], bits2f(e->k[1]), bits2f(e->k[2]));
  if (REAL && e->op == XOR && isC(e->k[1]) && e->k[1]->c == 1ull << 63 && e->k[0]->op == F2BITS) return mkF1(FNEG, e->k[0]->k[0]);
  return mk(BITS2F, FP, 64, {e});
}
static E* toKind(E* e, unsigned w, unsigned kind) {
  if (kind == 1) { if (e->so == FP) return e; if (e->so == BO) e = mkZExt(e, 64); return bits2f(e); }
  if (e->so == FP) e = f2bits(e);
  if (kind == 2) return toBool(e);
  if (e->so == BO) return mkZExt(e, w);
  if (e->w > w) return mkExtract(e, 0, w); if (e->w < w) return mkZExt(e, w);
  return e;
}
static u8 rdByte(u64 a) { return *(volatile u8*)a; }
static E* loadBytes(u64 a, u64 n) {  // BV of 8n bits (n<=8)
  E* r = nullptr;
  for (u64 i = n; i-- > 0;) { u64 s = slot(a + i); E* b = s ? slotByte(s) : cBV(rdByte(a + i), 8); r = r ? mkConcat(r, b) : b; }
  return r;
}

// ------------------------------------------------------------ program's heap
static const u64 ARENA = 0x100000000000ull, ARENA_SZ = 1ull << 30;
static u64 g_brk = 0; static u8* g_state = nullptr;  // per 16-byte granule
static long g_live = 0;
static std::unordered_map<u64, u64>* g_blk;
static void arenaInit() {
  void* p = mmap((void*)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)ARENA) { perror("arena"); abort(); }
  g_state = (u8*)mmap(nullptr, ARENA_SZ / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_brk = ARENA + 4096; g_blk = new std::unordered_map<u64, u64>();
}
static bool inArena(u64 a) { return a - ARENA < ARENA_SZ; }
static void* aalloc(u64 n) {
  if (!g_state) arenaInit();
  if (n == 0) n = 1;
  if (n > ARENA_SZ / 2 || g_brk + n + 32 > ARENA + ARENA_SZ) { if (g_running) { fatal("oom", "allocation of " + std::to_string(n) + " bytes"); } abort(); }
  u64 p = g_brk; g_brk += ((n + 15) & ~15ull) + 16;
  u64 g = (p - ARENA) / 16; for (u64 i = 0; i < n / 16; i++) g_state[g + i] = 16; if (n % 16) g_state[g + n / 16] = n % 16;
  (*g_blk)[p] = n; g_live++;
  return (void*)p;
}
static void afree(void* q) {
  if (!q) return; u64 p = (u64)q;
  if (!inArena(p)) { free(q); return; }
  auto it = g_blk->find(p);
  if (it == g_blk->end() || g_state[(p - ARENA) / 16] == 0xFF) { if (g_running) fatal("memory", it == g_blk->end() ? "free of a pointer that is not an allocation" : "double free"); abort(); }
  u64 n = it->second; u64 g = (p - ARENA) / 16; for (u64 i = 0; i < (n + 15) / 16; i++) g_state[g + i] = 0xFF;
  if (n <= 1 << 16) memset((void*)p, 0xDD, n);  // so that code outside the instrumented program trips over it too
  g_live--;
}
static void memErr(u64 a, u64 n, bool wrt) {
  u8 s = g_state[(a - ARENA) / 16];
  char b[160]; snprintf(b, sizeof b, "%s of %llu bytes: %s", wrt ? "write" : "read", (unsigned long long)n, s == 0xFF ? "heap use after free" : "heap out of bounds");
  fatal("memory", b);
}
static inline void chk(u64 a, u64 n, bool w) {
  if (!inArena(a)) return;
  if (!g_running) return;
  u64 g = (a - ARENA) / 16, o = a & 15; u8 s = g_state[g];
  if (o + n <= 16) { if (s == 0xFF || s < o + n) memErr(a, n, w); return; }
  if (s != 16) memErr(a, n, w);
  u64 e = a + n - 1; u8 s2 = g_state[(e - ARENA) / 16]; if (s2 == 0xFF || s2 < (e & 15) + 1) memErr(a, n, w);
}
// libstdc++.so and friends must not free arena memory with the real free
void operator delete(void* p) noexcept { if (p && inArena((u64)p)) { afree(p); return; } free(p); }
void operator delete(void* p, size_t) noexcept { if (p && inArena((u64)p)) { afree(p); return; } free(p); }
void operator delete[](void* p) noexcept { if (p && inArena((u64)p)) { afree(p); return; } free(p); }
void operator delete[](void* p, size_t) noexcept { if (p && inArena((u64)p)) { afree(p); return; } free(p); }

// ------------------------------------------------------- instrumentation API
extern "C" {
void* __sym_args[64]; void* __sym_ret[64]; void* __sym_callee; void* __sym_retfn;
extern char __start_symtext[], __stop_symtext[];
}
static inline bool instrumented(void* f) { return (char*)f >= __start_symtext && (char*)f < __stop_symtext; }

API E* __sym_load(void* p, u64 n, u32 w, u32 kind) {
  u64 a = (u64)p; chk(a, n, false);
  if (!maybeSym(a, n)) return nullptr;
  u64 s0 = slot(a); bool any = s0 != 0, run = s0 != 0;
  for (u64 i = 1; i < n; i++) { u64 s = slot(a + i); if (s) any = true; if (s != s0 + i) run = false; }
  if (!any) return nullptr;
  if (run) {
    E* e = (E*)(s0 & ~15ull); unsigned i0 = s0 & 15;
    if (i0 == 0 && (e->so == BO ? 1 : (e->w + 7) / 8) == n) return toKind(e, w, kind);
    if (e->so == FP) e = f2bits(e);
    if (e->so == BV && i0 * 8 + n * 8 <= e->w) return toKind(mkExtract(e, i0 * 8, n * 8), w, kind);
  }
  return toKind(loadBytes(a, n), w, kind);
}
API void __sym_store_conc(void* p, u64 n) { u64 a = (u64)p; chk(a, n, true); if (!maybeSym(a, n)) return; for (u64 i = 0; i < n; i++) setSlot(a + i, 0); }
static bool g_dbg = getenv("SYM_TRACE") != nullptr;
API void __sym_store(void* p, u64 n, E* e) {
  if (g_dbg && g_running) { zinit(); fprintf(stderr, "STORE %p %llu %s conc %g\n", p, (unsigned long long)n, e ? Z3_ast_to_string(Z, zz(e)) : "-", n == 8 ? *(double*)p : 0); }
  u64 a = (u64)p; chk(a, n, true);
  if (!e) { if (maybeSym(a, n)) for (u64 i = 0; i < n; i++) setSlot(a + i, 0); return; }
  for (u64 i = 0; i < n; i++) setSlot(a + i, (u64)e | i);
}
API void __sym_clear(void* p, u64 n) { u64 a = (u64)p; if (!n || !maybeSym(a, n)) return; for (u64 i = 0; i < n; i++) setSlot(a + i, 0); }
API void __sym_load_unsup(void* p, u64 n) { if (anySym((u64)p, n)) incomplete("load of an unsupported type from symbolic memory"); }
static void copyShadow(u64 d, u64 s, u64 n) {
  if (!n || (!maybeSym(s, n) && !maybeSym(d, n))) return;
  std::vector<u64> t(n); for (u64 i = 0; i < n; i++) t[i] = slot(s + i);
  for (u64 i = 0; i < n; i++) setSlot(d + i, t[i]);
}
API void __sym_memcpy(void* d, void* s, u64 n) { if (!n) return; chk((u64)s, n, false); chk((u64)d, n, true); copyShadow((u64)d, (u64)s, n); }
API void __sym_memset(void* d, E* v, u64 n) {
  if (!n) return; chk((u64)d, n, true);
  if (!v) { __sym_clear(d, n); return; }
  v = toKind(v, 8, 0); for (u64 i = 0; i < n; i++) setSlot((u64)d + i, (u64)v);
}
static struct { void* src; u64 n; } g_byval[64];
API void __sym_byval(u32 i, void* s, u64 n) { if (i < 64) { g_byval[i].src = s; g_byval[i].n = n; } }
API void __sym_byval_copy(u32 i, void* d, u64 n) {
  if (i >= 64) return;
  if (g_byval[i].src && g_byval[i].n == n && memcmp(g_byval[i].src, d, n) == 0) copyShadow((u64)d, (u64)g_byval[i].src, n);
  else __sym_clear(d, n);
  g_byval[i].src = nullptr;
}
static E* lift(E* s, u64 v, unsigned w) { if (s) return s->so == BO && w > 1 ? mkZExt(s, w) : s; return cBV(v, w); }
static E* liftF(E* s, u64 v) { return s ? s : cFb(v); }
static E* liftB(E* s, u64 v) { return s ? toBool(s) : cB(v & 1); }
API E* __sym_binop(u32 op, E* sa, u64 a, E* sb, u64 b, u32 w) {
  if (!sa && !sb) {
    if (!REAL || !g_running || (op != 14 && op != 16 && op != 18 && op != 21)) return nullptr;
    E* r = mkFbin(op == 14 ? FADD : op == 16 ? FSUB : op == 18 ? FMUL : FDIV, cFb(a), cFb(b));  // keep inexact results exact
    return isC(r) ? nullptr : r;
  }
  // LLVM 18 opcodes: Add=13 FAdd=14 Sub=15 FSub=16 Mul=17 FMul=18 UDiv=19 SDiv=20 FDiv=21 URem=22 SRem=23 FRem=24 Shl=25 LShr=26 AShr=27 And=28 Or=29 Xor=30
  switch (op) {
    case 14: return mkFbin(FADD, liftF(sa, a), liftF(sb, b)); case 16: return mkFbin(FSUB, liftF(sa, a), liftF(sb, b));
    case 18: return mkFbin(FMUL, liftF(sa, a), liftF(sb, b)); case 21: return mkFbin(FDIV, liftF(sa, a), liftF(sb, b));
    case 24: { E *x = liftF(sa, a), *y = liftF(sb, b); if (REAL) return mkFbin(FSUB, x, mkFbin(FMUL, y, mkF1(FTRUNC, mkFbin(FDIV, x, y)))); incomplete("frem in FP mode"); return mkUF("fmod", FP, 64, {x, y}); }
  }
  static const Op M[] = {ADD, CONST, SUB, CONST, MUL, CONST, UDIV, SDIV, CONST, UREM, SREM, CONST, SHL, LSHR, ASHR, AND, OR, XOR};
  Op o = M[op - 13];
  if (w == 1) { E* r = mkBoolBin(o, liftB(sa, a), liftB(sb, b)); if (!r) { incomplete("i1 op"); return nullptr; } return r; }
  E *x = lift(sa, a, w), *y = lift(sb, b, w);
  if (o == UDIV || o == SDIV || o == UREM || o == SREM) {
    if (branchE(mkEq(y, cBV(0, w)), false, 0xD0000010)) fatal("arith", "integer division by zero");
  }
  return mkBin(o, x, y);
}
API u64 __sym_safediv(E* s, u64 v, u32 w) { if (!s) return v; if (isC(s)) return s->c; v = mask(v, w); return v == 0 || v == mask(~0ull, w) ? 1 : v; }
API E* __sym_cmp(u32 pred, E* sa, u64 a, E* sb, u64 b, u32 w) {
  if (!sa && !sb) return nullptr;
  if (pred < 16) {
    E *x = liftF(sa, a), *y = liftF(sb, b);
    if (REAL && ((x->op == ITE && x->sp) || (y->op == ITE && y->sp))) {
      E* s = (x->op == ITE && x->sp) ? x : y; bool left = s == x;
      bool c = branchE(s->k[0], true, 0xD0000020);
      E* n = c ? s->k[1] : s->k[2];
      return __sym_cmp(pred, left ? n : x, 0, left ? y : n, 0, w);
    }
    E* un = mkOr(mkNan(x), mkNan(y));
    switch (pred) {
      case 0: return cB(false); case 15: return cB(true); case 8: return un; case 7: return mkNot(un);
      case 1: return mkFcmp(FEQ, x, y); case 2: return mkFcmp(FLT, y, x); case 3: return mkFcmp(FLE, y, x); case 4: return mkFcmp(FLT, x, y); case 5: return mkFcmp(FLE, x, y);
      case 6: return mkAnd(mkNot(un), mkNot(mkFcmp(FEQ, x, y)));
      case 9: return mkOr(un, mkFcmp(FEQ, x, y)); case 10: return mkNot(mkFcmp(FLE, x, y)); case 11: return mkNot(mkFcmp(FLT, x, y)); case 12: return mkNot(mkFcmp(FLE, y, x)); case 13: return mkNot(mkFcmp(FLT, y, x));
      case 14: return mkNot(mkFcmp(FEQ, x, y));
    }
  }
  E *x, *y;
  if (w == 1) { x = liftB(sa, a); y = liftB(sb, b); } else { x = lift(sa, a, w); y = lift(sb, b, w); }
  switch (pred) {
    case 32: return mkEq(x, y); case 33: return mkNot(mkEq(x, y));
    case 34: return mkCmpBV(ULT, y, x); case 35: return mkCmpBV(ULE, y, x); case 36: return mkCmpBV(ULT, x, y); case 37: return mkCmpBV(ULE, x, y);
    case 38: return mkCmpBV(SLT, y, x); case 39: return mkCmpBV(SLE, y, x); case 40: return mkCmpBV(SLT, x, y); case 41: return mkCmpBV(SLE, x, y);
  }
  abort();
}
API E* __sym_overflow(u32 op, u32 sg, E* sa, u64 a, E* sb, u64 b, u32 w) {
  if (!sa && !sb) return nullptr;
  E *x = lift(sa, a, w), *y = lift(sb, b, w); u8 o = op == 13 ? 0 : op == 15 ? 1 : 2;
  if (isC(x) && isC(y)) { __int128 p = sg ? (__int128)sx(x->c, w) : (__int128)x->c, q = sg ? (__int128)sx(y->c, w) : (__int128)y->c, r = o == 0 ? p + q : o == 1 ? p - q : p * q;
    __int128 lo = sg ? -((__int128)1 << (w - 1)) : 0, hi = sg ? ((__int128)1 << (w - 1)) - 1 : ((__int128)1 << w) - 1; return cB(r < lo || r > hi); }
  return mk(OVF, BO, 1, {x, y}, 0, 0, (u8)((o << 1) | sg));
}
API E* __sym_select(E* sc, bool c, E* st_, u64 t, E* sf, u64 f, u32 w, u32 kind) {
  if (!sc) return c ? st_ : sf;
  E *x, *y;
  if (kind == 1) { x = liftF(st_, t); y = liftF(sf, f); } else if (kind == 2) { x = liftB(st_, t); y = liftB(sf, f); } else { x = lift(st_, t, w); y = lift(sf, f, w); }
  return mkIte(sc, x, y);
}
API E* __sym_cast(u32 op, E* s, u32 wf, u32 wt) {
  if (!s) return nullptr;
  // Trunc=38 ZExt=39 SExt=40 FPToUI=41 FPToSI=42 UIToFP=43 SIToFP=44
  switch (op) {
    case 38: if (wt == 1) return toBool(s); return mkExtract(s, 0, wt);
    case 39: return mkZExt(s, wt); case 40: return mkSExt(s, wt);
    case 41: case 42: {
      if (isC(s)) { double d = asD(s->c); return op == 42 ? cBV((u64)(int64_t)d, wt) : cBV((u64)d, wt); }
      if (REAL && s->op == ITE) return mkIte(s->k[0], __sym_cast(op, s->k[1], wf, wt), __sym_cast(op, s->k[2], wf, wt));
      if (s->op == SI2F && s->k[0]->w == wt && wt <= 53 && op == 42) return s->k[0];
      if (s->op == SI2F && s->k[0]->w < wt && op == 42 && s->k[0]->w <= 53) return mkSExt(s->k[0], wt);
      return mk(op == 42 ? F2SI : F2UI, BV, wt, {s});
    }
    case 43: case 44: {
      if (s->so == BO) { if (isC(s)) return cF(op == 44 && s->c ? -1 : (double)s->c); return mkIte(s, cF(op == 44 ? -1.0 : 1.0), cF(0)); }
      if (isC(s)) return cF(op == 44 ? (double)sx(s->c, s->w) : (double)s->c);
      if (s->op == ITE && (isC(s->k[1]) || isC(s->k[2]))) return mkIte(s->k[0], __sym_cast(op, s->k[1], wf, wt), __sym_cast(op, s->k[2], wf, wt));
      if (s->op == B2BV) return mkIte(s->k[0], cF(1), cF(0));
      return mk(op == 44 ? SI2F : UI2F, FP, 64, {s});
    }
    case 900: return f2bits(s); case 901: return bits2f(s->so == BO ? mkZExt(s, 64) : s); case 902: return s;
  }
  abort();
}
API E* __sym_fun1(u32 k, E* a) {
  if (!a) return nullptr;
  static const Op M[] = {FNEG, FABS, FFLOOR, FCEIL, FTRUNC, FRINT, FROUND, FSQRT};
  return mkF1(M[k], a);
}
static E* negSign(E* a) {
  if (isC(a)) return cB(std::signbit(asD(a->c)) && !std::isnan(asD(a->c)));
  if (REAL) { if (a->op == ITE && a->sp) return mkIte(a->k[0], negSign(a->k[1]), negSign(a->k[2])); return mkFcmp(FLT, a, cF(0)); }
  return mk(FNEGSIGN, BO, 1, {a});
}
API E* __sym_fpclass(E* a, u32 m) {
  if (!a) return nullptr;
  // bits: snan 1, qnan 2, -inf 4, -norm 8, -sub 16, -0 32, +0 64, +sub 128, +norm 256, +inf 512
  E* nan = mkNan(a); E* inf = mkInf(a); E* neg = negSign(a);
  E* zero = mkFcmp(FEQ, a, cF(0)); E* fin = mkAnd(mkNot(nan), mkNot(inf));
  E* absv = mkF1(FABS, a); E* sub = REAL ? cB(false) : mkAnd(mkNot(zero), mkFcmp(FLT, absv, cF(DBL_MIN)));
  E* norm = mkAnd(fin, mkAnd(mkNot(zero), mkNot(sub)));
  E* r = cB(false);
  if ((m & 3) == 3) r = mkOr(r, nan); else if (m & 3) { incomplete("is_fpclass snan/qnan"); }
  auto part = [&](u32 nb, u32 pb, E* c) { if ((m & nb) && (m & pb)) r = mkOr(r, c); else if (m & nb) r = mkOr(r, mkAnd(c, neg)); else if (m & pb) r = mkOr(r, mkAnd(c, mkNot(neg))); };
  part(4, 512, inf); part(8, 256, norm); part(16, 128, mkAnd(sub, fin)); part(32, 64, zero);
  return r;
}
API bool __sym_branch(E* c, bool v, u32 site) { if (!c) return v; return branchE(c, v, site); }
API u64 __sym_switch(E* s, u64 v, u32 w, u64* cases, u32 n, u64 dflt) {
  if (!s) return v; if (isC(s)) return s->c;
  s = s->so == BO ? mkZExt(s, w) : s;
  for (u32 i = 0; i < n; i++) if (branchE(mkEq(s, cBV(cases[i], w)), mask(v, w) == cases[i], 0xD0000030)) return cases[i];
  return dflt;
}
API u64 __sym_conc(E* s, u64 v, u32 w, u32 why) { if (!s) return v; return concE(s, v, 0xC0000000u | (why & 0xffff)); }
API void __sym_drop(E* s, u32 why) { if (s && !isC(s)) { char b[64]; snprintf(b, sizeof b, "symbolic operand dropped (op %u)", why); incomplete(b); } }
API u64 __sym_extarg(void* fn, E* s, u64 v, u32 w, const char* name) {
  if (s && !strncmp(name, "_ZNSo9_M_insertI", 16)) { g_reach["~prints a symbolic value"]++; return v; }
  if (!s || instrumented(fn)) return v;
  if (!isC(s)) { g_reach[std::string("~external-arg ") + name]++; }
  return concE(s, v, 0xC0008000u);
}
API void __sym_extdrop(void* fn, E* s, const char* name) { if (s && !instrumented(fn) && !isC(s)) incomplete(std::string("symbolic aggregate to external ") + name); }
static bool benignExt(const char* n) {
  static const char* L[] = {"_ZSt29_Rb_tree_insert_and_rebalance", "_ZSt18_Rb_tree_increment", "_ZSt18_Rb_tree_decrement", "_ZSt28_Rb_tree_rebalance_for_erase", "_ZSt28_Rb_tree_rebalance_for_erase",
    "__cxa_", "_ZNSt8__detail", "_ZNKSt8__detail", "_Unwind", "__gxx", "pthread_", "_ZNSt15__exception_ptr", "sym_", "__clang_call_terminate", "_ZNSt6thread", "__dynamic_cast", "__sym", "_ZSt17__throw", "_ZNSt9exception", "_ZNSt13runtime_error", "_ZNSt11logic_error", "_ZNSt8__detail15_List_node_base",
    "_ZNSolsE", "_ZNSo", "_ZNKSt7__cxx1119basic_ostringstream", "_ZNSt7__cxx1119basic_ostringstream", "_ZNKSt7__cxx1118basic_stringstream", "_ZNSt7__cxx1118basic_stringstream", "_ZSt4endl", "_ZStlsIcSt11char_traits", "_ZSt16__ostream_insert", 0};
  // the last group prints: what it prints is only text for messages
  for (int i = 0; L[i]; i++) if (!strncmp(n, L[i], strlen(L[i]))) return true;
  return false;
}
API void __sym_extmem(void* fn, const char* name, void* a, void* b, void* c) {
  if (!g_npages || instrumented(fn) || !g_running) return;
  void* p[3] = {a, b, c};
  for (int i = 0; i < 3; i++) {
    u64 x = (u64)p[i]; if (x < 4096) continue;
    u64 n = 16;
    if (anySym(x, n)) { if (!benignExt(name)) g_incomp[std::string("external reads symbolic memory: ") + name]++; return; }
  }
}

// ---------------------------------------------------------- wrapped externals
#define ARG(i) ((E*)__sym_args[i])
#define RET(fn, e) do { __sym_ret[0] = (e); __sym_retfn = (void*)(fn); } while (0)
static u64 cArg(unsigned i, u64 v) { return ARG(i) ? concE(ARG(i), v, 0xC0004000u + i) : v; }
#define PTRARG(i, p) (p) = (decltype(p))cArg(i, (u64)(p))
API void* __symw_malloc(size_t n) { n = cArg(0, n); return aalloc(n); }
API void* __symw_calloc(size_t a, size_t b) { a = cArg(0, a); b = cArg(1, b); void* p = aalloc(a * b); memset(p, 0, a * b); return p; }
API void* __symw_realloc(void* q, size_t n) {
  PTRARG(0, q); n = cArg(1, n); if (!q) return aalloc(n); if (!inArena((u64)q)) return realloc(q, n);
  void* p = aalloc(n); u64 o = (*g_blk)[(u64)q]; memcpy(p, q, o < n ? o : n); copyShadow((u64)p, (u64)q, o < n ? o : n); afree(q); return p;
}
API void __symw_free(void* p) { PTRARG(0, p); afree(p); }
API void* __symw__Znwm(size_t n) { n = cArg(0, n); return aalloc(n); }
API void* __symw__Znam(size_t n) { n = cArg(0, n); return aalloc(n); }
API void* __symw__ZnwmRKSt9nothrow_t(size_t n, void*) { n = cArg(0, n); return aalloc(n); }
API void __symw__ZdlPv(void* p) { PTRARG(0, p); afree(p); }
API void __symw__ZdlPvm(void* p, size_t) { PTRARG(0, p); afree(p); }
API void __symw__ZdaPv(void* p) { PTRARG(0, p); afree(p); }
API void __symw__ZdaPvm(void* p, size_t) { PTRARG(0, p); afree(p); }
API void __symw__ZdlPvRKSt9nothrow_t(void* p, void*) { PTRARG(0, p); afree(p); }
static E* byteAt(u64 a) { u64 s = slot(a); return s ? slotByte(s) : cBV(rdByte(a), 8); }
static int symCompare(void* fn, const u8* a, const u8* b, size_t n, bool strz) {
  // fork byte by byte; the result is then concrete
  for (size_t i = 0; strz ? i < n : i < n; i++) {
    chk((u64)a + i, 1, false); chk((u64)b + i, 1, false);
    E *x = byteAt((u64)a + i), *y = byteAt((u64)b + i);
    if (isC(x) && isC(y)) { if (x->c != y->c) return x->c < y->c ? -1 : 1; if (strz && x->c == 0) return 0; continue; }
    if (branchE(mkEq(x, y), a[i] == b[i], 0xD0000040)) { if (strz && branchE(mkEq(x, cBV(0, 8)), a[i] == 0, 0xD0000041)) return 0; continue; }
    return branchE(mkCmpBV(ULT, x, y), a[i] < b[i], 0xD0000042) ? -1 : 1;
  }
  return 0;
}
API int __symw_memcmp(const void* a, const void* b, size_t n) { PTRARG(0, a); PTRARG(1, b); n = cArg(2, n); RET(0, nullptr); if (!anySym((u64)a, n) && !anySym((u64)b, n)) { if (n) { chk((u64)a, n, 0); chk((u64)b, n, 0); } return memcmp(a, b, n); } return symCompare(0, (const u8*)a, (const u8*)b, n, false); }
API int __symw_bcmp(const void* a, const void* b, size_t n) { return __symw_memcmp(a, b, n); }
API int __symw_strcmp(const char* a, const char* b) { PTRARG(0, a); PTRARG(1, b); return symCompare(0, (const u8*)a, (const u8*)b, SIZE_MAX, true); }
API int __symw_strncmp(const char* a, const char* b, size_t n) { PTRARG(0, a); PTRARG(1, b); n = cArg(2, n); return symCompare(0, (const u8*)a, (const u8*)b, n, true); }
API size_t __symw_strlen(const char* s) {
  PTRARG(0, s); size_t i = 0;
  for (;; i++) { chk((u64)s + i, 1, false); E* x = byteAt((u64)s + i); if (isC(x)) { if (!x->c) return i; } else if (branchE(mkEq(x, cBV(0, 8)), s[i] == 0, 0xD0000043)) return i; }
}
API void* __symw_memchr(const void* s, int c, size_t n) {
  PTRARG(0, s); E* ce = ARG(1); ARG(1) ? (void)0 : (void)0; n = cArg(2, n);
  E* ch = ce ? mkExtract(ce, 0, 8) : cBV((u8)c, 8);
  for (size_t i = 0; i < n; i++) { chk((u64)s + i, 1, false); E* x = byteAt((u64)s + i); if (branchE(mkEq(x, ch), ((const u8*)s)[i] == (u8)c, 0xD0000044)) return (void*)((const u8*)s + i); }
  return nullptr;
}
API char* __symw_strchr(const char* s, int c) {
  PTRARG(0, s); E* ce = ARG(1); E* ch = ce ? mkExtract(ce, 0, 8) : cBV((u8)c, 8);
  for (size_t i = 0;; i++) { E* x = byteAt((u64)s + i); if (branchE(mkEq(x, ch), s[i] == (char)c, 0xD0000045)) return (char*)s + i; if (branchE(mkEq(x, cBV(0, 8)), s[i] == 0, 0xD0000046)) return nullptr; }
}
API void* __symw_memcpy(void* d, const void* s, size_t n) { PTRARG(0, d); PTRARG(1, s); n = cArg(2, n); __sym_memcpy(d, (void*)s, n); return memcpy(d, s, n); }
API void* __symw_memmove(void* d, const void* s, size_t n) { PTRARG(0, d); PTRARG(1, s); n = cArg(2, n); __sym_memcpy(d, (void*)s, n); return memmove(d, s, n); }
API void* __symw_memset(void* d, int c, size_t n) { PTRARG(0, d); n = cArg(2, n); __sym_memset(d, ARG(1), n); return memset(d, c, n); }

static double retF(void* fn, E* e, double cv) { RET(fn, e); if (e && isC(e)) return asD(e->c); return cv; }
static E* unspecial(E* x) {  // fork until x is not an Ite over special constants
  while (x->op == ITE && x->sp) x = branchE(x->k[0], true, 0xD0000050) ? x->k[1] : x->k[2];
  return x;
}
static bool brq(E* c) { return branchE(c, true, 0xD0000051); }
typedef double (*F1)(double);
static E* symLibm1(const char* n, F1 f, E* x) {
  std::string s = n;
  if (REAL) {
    x = unspecial(x);
    if (special(x)) return cF(f(asD(x->c)));
    if (isC(x)) { double r = f(asD(x->c)); if (!std::isfinite(r) || (asD(x->c) == 0 && s != "acos") || (asD(x->c) == 1 && (s == "log" || s == "acos"))) return cF(r); }
    if (s == "log") { if (brq(mkFcmp(FLT, x, cF(0)))) return cF(NAN); if (brq(mkFcmp(FEQ, x, cF(0)))) return cF(-INFINITY); }
    if (s == "asin" || s == "acos") { if (brq(mkOr(mkFcmp(FLT, x, cF(-1)), mkFcmp(FLT, cF(1), x)))) return cF(NAN); }
  } else if (isC(x)) return cF(f(asD(x->c)));
  return mkUF(n, FP, 64, {x});
}
#define LIBM1(n) API double __symw_##n(double x) { E* e = ARG(0); if (!e && !(REAL && g_running)) { RET(0, nullptr); return n(x); } if (!e) e = cF(x); return retF((void*)__symw_##n, symLibm1(#n, n, e), n(x)); }
LIBM1(sin) LIBM1(cos) LIBM1(tan) LIBM1(asin) LIBM1(acos) LIBM1(atan) LIBM1(sinh) LIBM1(cosh) LIBM1(tanh) LIBM1(exp) LIBM1(log)
#define LIBF1(n, op) API double __symw_##n(double x) { E* e = ARG(0); if (!e && !(op == FSQRT && REAL && g_running)) { RET(0, nullptr); return n(x); } if (!e) e = cFb(asB(x)); if (REAL) e = unspecial(e); return retF((void*)__symw_##n, mkF1(op, e), n(x)); }
LIBF1(sqrt, FSQRT) LIBF1(fabs, FABS) LIBF1(floor, FFLOOR) LIBF1(ceil, FCEIL) LIBF1(trunc, FTRUNC) LIBF1(rint, FRINT) LIBF1(nearbyint, FRINT) LIBF1(round, FROUND)
API long __symw_lround(double x) { E* e = ARG(0); if (!e) { RET(0, nullptr); return lround(x); } E* r = mk(F2SI, BV, 64, {mkF1(FROUND, e)}); RET(__symw_lround, r); return lround(x); }
API long long __symw_llround(double x) { return __symw_lround(x); }
API long __symw_lrint(double x) { E* e = ARG(0); if (!e) { RET(0, nullptr); return lrint(x); } E* r = mk(F2SI, BV, 64, {mkF1(FRINT, e)}); RET(__symw_lrint, r); return lrint(x); }
static E* powInt(E* x, int64_t n) {
  E* r = nullptr; E* p = x; u64 k = n < 0 ? -(u64)n : (u64)n;
  while (k) { if (k & 1) r = r ? mkFbin(FMUL, r, p) : p; k >>= 1; if (k) p = mkFbin(FMUL, p, p); }
  return r ? r : cF(1);
}
static E* symPow(E* x, E* y);
static E* posPow(E* x, E* y) {  // x > 0 and finite
  auto smallInt = [](E* k) { return isC(k) && fabs(asD(k->c)) <= 8 && asD(k->c) == std::floor(asD(k->c)); };
  if (isC(y)) { double d = asD(y->c); return 2 * d == std::floor(2 * d) && fabs(d) <= 40 ? symPow(x, y) : mkUF("pow", FP, 64, {x, y}); }
  if (y->op == FADD) return mkFbin(FMUL, posPow(x, y->k[0]), posPow(x, y->k[1]));
  if (y->op == FSUB) return mkFbin(FDIV, posPow(x, y->k[0]), posPow(x, y->k[1]));
  if (y->op == FNEG) return mkFbin(FDIV, cF(1), posPow(x, y->k[0]));
  if (y->op == FMUL && smallInt(y->k[0])) return symPow(posPow(x, y->k[1]), y->k[0]);
  if (y->op == FMUL && smallInt(y->k[1])) return symPow(posPow(x, y->k[0]), y->k[1]);
  if (x->op == UF && (*g_names)[x->fnid] == "pow") return posPow(x->k[0], mkFbin(FMUL, x->k[1], y));
  return mkUF("pow", FP, 64, {x, y});
}
static E* symPow(E* x, E* y) {
  if (!REAL) { if (isC(x) && isC(y)) return cF(pow(asD(x->c), asD(y->c))); return mkUF("pow", FP, 64, {x, y}); }
  x = unspecial(x); y = unspecial(y);
  if (isC(x) && isC(y)) { double r = pow(asD(x->c), asD(y->c)); if (special(x) || special(y) || !std::isfinite(r)) return cF(r); }
  if (special(x) || special(y)) {
    if (special(y) && std::isnan(asD(y->c))) { if (brq(mkFcmp(FEQ, x, cF(1)))) return cF(1); return cF(NAN); }
    if (special(x) && std::isnan(asD(x->c))) { if (brq(mkFcmp(FEQ, y, cF(0)))) return cF(1); return cF(NAN); }
    if (special(x) && asD(x->c) > 0) { if (brq(mkFcmp(FEQ, y, cF(0)))) return cF(1); return brq(mkFcmp(FLT, cF(0), y)) ? cF(INFINITY) : cF(0); }
    incomplete("pow with an infinite operand"); return cF(NAN);
  }
  if (isC(y)) {
    double d = asD(y->c);
    if (d == std::floor(d) && fabs(d) <= 40) {
      if (d >= 0) return powInt(x, (int64_t)d);
      return mkFbin(FDIV, cF(1), powInt(x, (int64_t)-d));
    }
    if (2 * d == std::floor(2 * d) && fabs(d) <= 40) {
      if (brq(mkFcmp(FLT, x, cF(0)))) return cF(NAN);
      E* s = mkF1(FSQRT, x); int64_t k = (int64_t)(2 * fabs(d));
      E* r = mkFbin(FMUL, powInt(x, k / 2), s);
      return d < 0 ? mkFbin(FDIV, cF(1), r) : r;
    }
  }
  if (brq(mkFcmp(FLT, cF(0), x))) return posPow(x, y);
  if (brq(mkFcmp(FEQ, x, cF(0)))) { if (brq(mkFcmp(FEQ, y, cF(0)))) return cF(1); return brq(mkFcmp(FLT, cF(0), y)) ? cF(0) : cF(INFINITY); }
  // x < 0
  for (int i = -3; i <= 3; i++) if (brq(mkFcmp(FEQ, y, cF(i)))) return symPow(x, cF(i));
  E* isint = mk(ISINT, BO, 1, {y});
  if (isC(y)) isint = cB(asD(y->c) == std::floor(asD(y->c)));
  if (!brq(isint)) return cF(NAN);
  return mkUF("pown", FP, 64, {x, y});
}
API double __symw_pow(double x, double y) { E *a = ARG(0), *b = ARG(1); if (!a && !b && !(REAL && g_running)) { RET(0, nullptr); return pow(x, y); } return retF((void*)__symw_pow, symPow(liftF(a, asB(x)), liftF(b, asB(y))), pow(x, y)); }
API double __symw_atan2(double x, double y) { E *a = ARG(0), *b = ARG(1); if (!a && !b && !(REAL && g_running)) { RET(0, nullptr); return atan2(x, y); } E *p = liftF(a, asB(x)), *q = liftF(b, asB(y)); if (REAL) { p = unspecial(p); q = unspecial(q); if (special(p) || special(q)) incomplete("atan2 of inf/nan"); } if (isC(p) && isC(q) && (!REAL || (isZeroC(p) && asD(q->c) >= 0))) return retF((void*)__symw_atan2, cF(atan2(asD(p->c), asD(q->c))), 0); return retF((void*)__symw_atan2, mkUF("atan2", FP, 64, {p, q}), atan2(x, y)); }
API double __symw_fmod(double x, double y) { E *a = ARG(0), *b = ARG(1); if (!a && !b) { RET(0, nullptr); return fmod(x, y); } return retF((void*)__symw_fmod, __sym_binop(24, a, asB(x), b, asB(y), 64), fmod(x, y)); }
static E* fminmax(E* p, E* q, bool mn) {
  E* lt = mn ? mkFcmp(FLT, p, q) : mkFcmp(FLT, q, p);
  return mkIte(mkNan(p), q, mkIte(mkNan(q), p, mkIte(lt, p, q)));
}
API double __symw_fmin(double x, double y) { E *a = ARG(0), *b = ARG(1); if (!a && !b) { RET(0, nullptr); return fmin(x, y); } return retF((void*)__symw_fmin, fminmax(liftF(a, asB(x)), liftF(b, asB(y)), true), fmin(x, y)); }
API double __symw_fmax(double x, double y) { E *a = ARG(0), *b = ARG(1); if (!a && !b) { RET(0, nullptr); return fmax(x, y); } return retF((void*)__symw_fmax, fminmax(liftF(a, asB(x)), liftF(b, asB(y)), false), fmax(x, y)); }
API double __symw_modf(double x, double* ip) {
  E* e = ARG(0); PTRARG(1, ip);
  if (!e) { __sym_store_conc(ip, 8); RET(0, nullptr); return modf(x, ip); }
  if (REAL) e = unspecial(e);
  E* t = mkF1(FTRUNC, e); E* fr = REAL ? mkFbin(FSUB, e, t) : mkIte(mkInf(e), cF(0), mkFbin(FSUB, e, t));
  double r = modf(x, ip); __sym_store(ip, 8, t); return retF((void*)__symw_modf, fr, r);
}
API double __symw_nextafter(double x, double y) {
  E *a = ARG(0), *b = ARG(1); if (!a && !b) { RET(0, nullptr); return nextafter(x, y); }
  E *p = liftF(a, asB(x)), *q = liftF(b, asB(y)); E* r;
  if (REAL) { incomplete("nextafter in Real mode"); r = p; }
  else {
    const u32 S = 0xD0000060;
    if (branchE(mkOr(mkNan(p), mkNan(q)), std::isnan(x) || std::isnan(y), S)) r = cF(NAN);
    else if (branchE(mkFcmp(FEQ, p, q), x == y, S + 1)) r = q;
    else {
      bool up = branchE(mkFcmp(FLT, p, q), x < y, S + 2);
      if (branchE(mkFcmp(FEQ, p, cF(0)), x == 0, S + 3)) r = cF(up ? 4.9406564584124654e-324 : -4.9406564584124654e-324);
      else { bool pos = branchE(mkFcmp(FLT, cF(0), p), 0 < x, S + 4); E* bt = f2bits(p); r = bits2f(mkBin(ADD, bt, cBV(pos == up ? 1 : ~0ull, 64))); }
    }
  }
  return retF((void*)__symw_nextafter, r, nextafter(x, y));
}
API double __symw_ldexp(double x, int n) { E* a = ARG(0); n = (int)cArg(1, (u32)n); if (!a) { RET(0, nullptr); return ldexp(x, n); } return retF((void*)__symw_ldexp, mkFbin(FMUL, a, cF(ldexp(1.0, n))), ldexp(x, n)); }
static bool g_link = false;
API void sym_link_() { g_link = true; }
API size_t __symw__ZSt11_Hash_bytesPKvmm(const void* p, size_t n, size_t seed) {
  PTRARG(0, p); n = cArg(1, n); seed = cArg(2, seed);
  extern size_t realHash(const void*, size_t, size_t);
  size_t h = realHash(p, n, seed);
  // when symbolic doubles enter hashed objects, hashes of concrete doubles must stay comparable with them:
  // same function symbol for both
  bool link = n == 8 && g_link;
  if (!anySym((u64)p, n) && !link) { RET(0, nullptr); return h; }
  std::vector<E*> k; k.push_back(cBV(n, 64)); k.push_back(cBV(seed, 64)); 
  if (REAL && !anySym((u64)p, n) && std::isfinite(*(const double*)p)) k.push_back(mk(F2BITS, BV, 64, {cFb(*(const u64*)p)}));
  else for (size_t i = 0; i < n; i += 8) k.push_back(mkZExt(loadBytes((u64)p + i, std::min<size_t>(8, n - i)), 64));
  RET(__symw__ZSt11_Hash_bytesPKvmm, mkUF("Hash_bytes", BV, 64, k)); return h;
}
#include <functional>
size_t realHash(const void* p, size_t n, size_t s) { return std::_Hash_bytes(p, n, s); }
API void __symw___assert_fail(const char* e, const char* f, unsigned l, const char* fn) {
  const char* b = strrchr(f, '/'); fatal("assert", std::string("assertion failed: ") + e + " (" + (b ? b + 1 : f) + ")");
}
API void __symw_abort() { fatal("abort", "abort() called"); }
API void __symw__ZSt9terminatev() { fatal("terminate", "std::terminate called"); }
API void __symw_exit(int) { fatal("exit", "exit() called"); }
API void __symw__exit(int) { fatal("exit", "_exit() called"); }

// ------------------------------------------------------------- harness API
static std::string uniq(const char* n) { if (!g_namecount) g_namecount = new std::map<std::string, u32>(); u32 k = (*g_namecount)[n]++; return k ? std::string(n) + "#" + std::to_string(k) : std::string(n); }
static const std::string* given(const std::string& n) { for (auto& p : g_item.in) if (p.first == n) return &p.second; return nullptr; }
static E* mkVar(const std::string& n, Sort so, unsigned w) { E* e = mk(VAR, so, w, {}, 0, nameId(n)); if (!g_vars) g_vars = new std::vector<E*>(); g_vars->push_back(e); return e; }
API double sym_double_(const char* name) {
  std::string n = uniq(name); E* e = mkVar(n, FP, 64);
  const std::string* g = given(n); double v = g ? strtod(g->c_str(), 0) : 0.0;
  if (g_have_model) {}
  RET(sym_double_, e); return v;
}
static void assumeE(E* c, bool cv);
API int64_t sym_int_(const char* name, int64_t lo, int64_t hi) {
  std::string n = uniq(name); 
  unsigned w = 64; const std::string* g = given(n); int64_t v = g ? strtoll(g->c_str(), 0, 10) : lo;
  if (lo == 0 && hi == 1) { E* b = mkVar(n, BO, 1); RET(sym_int_, mkZExt(b, 64)); return v; }
  if (lo >= -128 && hi <= 127) w = 8; else if (lo >= -32768 && hi <= 32767) w = 16; else if (lo >= INT32_MIN && hi <= INT32_MAX) w = 32;
  E* e = mkVar(n, BV, w); E* x = mkSExt(e, 64);
  if (w < 64 || lo != INT64_MIN || hi != INT64_MAX) {
    E* c = mkAnd(mkCmpBV(SLE, cBV((u64)lo, w), e), mkCmpBV(SLE, e, cBV((u64)hi, w)));
    if (!isC(c)) { zinit(); assertE(c); if (g_have_model) g_have_model = false; }
  }
  RET(sym_int_, x); return v;
}
static std::string g_ctx;
API unsigned sym_choice_(const char* name, unsigned k) {
  { E* ke = ARG(1); const bool mine = __sym_callee == (void*)sym_choice_; __sym_callee = 0; if (ke && mine) k = (unsigned)concE(ke, k, 0xC0004001u); }
  std::string n = uniq(name); u32 tag = 0xE0000000u;
  RET(sym_choice_, nullptr);
  if (k == 0) finish('Q');
  u64 v;
  static const char* fixs = getenv("SYM_FIX"); long fv = -1;
  if (fixs) { std::string f = std::string(",") + fixs, key = "," + n + "="; size_t p = f.find(key); if (p != std::string::npos) fv = atol(f.c_str() + p + key.size()); }
  if (replaying()) { Dec d = nextDec(tag); v = d.v; dec(tag, v); }
  else if (fv >= 0) { v = fv; dec(tag, v); }
  else {
    for (unsigned i = k; i-- > 1;) { spawn(tag, i, nullptr); }
    v = 0; dec(tag, 0);
  }
  g_choices.push_back({n, std::to_string(v)});
  return (unsigned)v;
}
static void assumeE(E* c, bool cv) {
  if (isC(c)) { if (!c->c) finish('A'); return; }
  if (!g_known) g_known = new std::unordered_map<E*, u64>();
  u32 tag = 0xE0000001u;
  if (replaying()) { Dec d = nextDec(tag); dec(tag, d.v); assertE(c); (*g_known)[c] = 1; return; }
  zinit();
  bool holds = false;
  if (!REAL && !g_garbage) holds = cv;
  else { zz(c); if (!g_pend->empty()) g_have_model = false; ensureModel(); if (g_have_model) holds = evalBool(g_model, c) == 1; }
  if (!holds) {
    Z3_model m = nullptr; int r = checkZ(zz(c), &m);
    if (r == 0) finish('A');
    if (!REAL && !g_garbage) { spawn(tag, 1, m); finish('M'); }  // restart with fitting inputs
    if (r == 1) { setModel(m); Z3_model_dec_ref(Z, m); g_have_model = true; } else g_have_model = false;
  }
  dec(tag, 1); assertE(c); (*g_known)[c] = 1;
}
API void sym_assume_(bool c) { E* e = ARG(0); bool s = __sym_callee == (void*)sym_assume_; __sym_callee = 0; if (!e || !s) { if (!c) finish('A'); return; } assumeE(toBool(e), c); }
static std::vector<E*>* g_prefer;
API void sym_prefer_(bool c) { E* e = ARG(0); bool s = __sym_callee == (void*)sym_prefer_; __sym_callee = 0; if (e && s) { if (!g_prefer) g_prefer = new std::vector<E*>(); g_prefer->push_back(toBool(e)); } (void)c; }
static void niceModel(Z3_ast neg, Z3_model* m) {
  // a counterexample with small round inputs replays best
  if (!REAL || !g_vars) return;
  for (int lvl = 0; lvl < 3; lvl++) {
    Z3_ast x = neg;
    for (E* v : *g_vars) if (v->so == FP) {
      double lim = lvl == 0 ? 4 : lvl == 1 ? 16 : 1000;
      x = zand(x, zand(Z3_mk_le(Z, zz(v), zReal(lim)), Z3_mk_ge(Z, zz(v), zReal(-lim))));
      if (lvl < 2) x = zand(x, Z3_mk_is_int(Z, zmul(zz(v), zReal(lvl == 0 ? 1 : 4))));
    }
    if (lvl == 0 && g_prefer) for (E* p : *g_prefer) x = zand(x, zz(p));
    unsigned q = g_qtimeout, q2 = g_qtimeout2; g_qtimeout2 = 2000;
    Z3_model m2 = nullptr; int r = checkZ(x, &m2);
    g_qtimeout = q; g_qtimeout2 = q2;
    if (r == 1) { if (*m) Z3_model_dec_ref(Z, *m); *m = m2; return; }
  }
}
static void doAssert(E* c, E* strongNeg, const char* label) {
  g_asserts[label]++;
  if (getenv("SYM_DEBUG")) { zinit(); fprintf(stderr, "ASSERT %s: %s\n", label, Z3_ast_to_string(Z, zz(c))); fprintf(stderr, "PC %s\n", Z3_solver_to_string(Z, SV)); }
  if (isC(c)) {
    if (c->c) return;
    Z3_model m = nullptr; int r = 1; if (g_vars && !g_vars->empty()) { zinit(); r = checkZ(nullptr, &m); if (r == 1) niceModel(zTrue(), &m); }
    if (r == 0) finish('I'); if (r < 0) { incomplete(std::string("solver unknown: ") + label); finish('F'); }
    violation("property", label, m); finish('F');
  }
  zinit();
  if (replaying()) { assertE(c); g_asserts[label]--; return; }   // decided by an ancestor path
  Z3_ast neg = zz(mkNot(c));
  Z3_model m = nullptr; int r = checkZ(neg, &m);
  if (r == 0) { assertE(c); return; }
  if (r < 0) { incomplete(std::string("solver unknown on assertion: ") + label); if (strongNeg) { r = checkZ(zz(strongNeg), &m); if (r == 1) { violation("property", label, m); finish('F'); } } assertE(c); g_have_model = false; return; }
  if (strongNeg) { Z3_model m2 = nullptr; int r2 = checkZ(zz(strongNeg), &m2); if (r2 == 1) { Z3_model_dec_ref(Z, m); m = m2; neg = zz(strongNeg); } }
  niceModel(neg, &m);
  violation("property", label, m);
  finish('F');
}
API void sym_assert_(bool c, const char* label) {
  E* e = ARG(0); bool s = __sym_callee == (void*)sym_assert_; __sym_callee = 0;
  if (!e || !s) e = cB(c);
  doAssert(toBool(e), nullptr, label);
}
API void sym_assert_close_(double a, double b, const char* label) {
  E *x = ARG(0), *y = ARG(1); bool s = __sym_callee == (void*)sym_assert_close_; __sym_callee = 0;
  if (!s) x = y = nullptr;
  x = liftF(x, asB(a)); y = liftF(y, asB(b));
  if (REAL) {
    x = unspecial(x); y = unspecial(y);
    if (special(x) || special(y)) {
      bool eq = special(x) && special(y) && (x == y || (std::isnan(asD(x->c)) && std::isnan(asD(y->c))));
      doAssert(cB(eq), nullptr, label); return;
    }
    if (isC(x) && isC(y)) { double p = asD(x->c), q = asD(y->c); doAssert(cB(fabs(p - q) <= 1e-6 * (1 + fabs(p) + fabs(q))), nullptr, label); return; }
    E* d = mkFbin(FSUB, x, y); E* ad = mkF1(FABS, d);
    E* sc = mkFbin(FADD, cF(1), mkFbin(FADD, mkF1(FABS, x), mkF1(FABS, y)));
    E* strong = mkFcmp(FLT, mkFbin(FMUL, cF(0.0009765625), sc), ad);
    doAssert(mkFcmp(FEQ, x, y), strong, label); return;
  }
  doAssert(mkOr(mkFcmp(FEQ, x, y), mkAnd(mkNan(x), mkNan(y))), nullptr, label);
}
API void sym_reach_(const char* label) { g_reach[label]++; }
API bool sym_native_() { RET(sym_native_, nullptr); return false; }
API long sym_live_() { RET(sym_live_, nullptr); return g_live; }
static long cfgv(const char* n, long d) { const char* s = getenv("SYM_CFG"); if (!s) return d; size_t k = strlen(n); while (*s) { if (!strncmp(s, n, k) && s[k] == '=') return strtol(s + k + 1, 0, 10); while (*s && *s != ',') s++; if (*s) s++; } return d; }
API long sym_cfg_(const char* n, long d) { RET(sym_cfg_, nullptr); return cfgv(n, d); }
API void sym_end_() { finish('Q'); }

// -------------------------------------------------------------- path process
static void onsig(int s) {
  if (g_in_solver || !g_running) { _exit(96); }
  if (s == SIGXCPU || s == SIGALRM) { fatal("hang", "path exceeded its CPU limit"); }
  static bool once = false; if (once) _exit(95); once = true;
  fatal("crash", std::string("signal ") + std::to_string(s) + (s == SIGSEGV ? " (SIGSEGV)" : s == SIGFPE ? " (SIGFPE)" : s == SIGABRT ? " (SIGABRT)" : ""));
}
static void runPath() {
  g_running = true;
  static char alt[1 << 20];
  stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL, SIGXCPU}) sigaction(s, &sa, nullptr);
  struct rlimit rl; rl.rlim_cur = g_path_cpu; rl.rlim_max = g_path_cpu + 60; setrlimit(RLIMIT_CPU, &rl);
  rl.rlim_cur = rl.rlim_max = 6ull << 30; setrlimit(RLIMIT_AS, &rl);
  rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
  if (REAL) g_garbage = false;
  if (g_item.in.empty() && !g_item.d.empty()) {}
  try { harness(); }
  catch (std::exception& e) { fatal("exception", std::string("uncaught exception: ") + e.what()); }
  catch (...) { fatal("exception", "uncaught exception"); }
  g_trace.size();
  finish('D');
}
// ---------------------------------------------------------------- coordinator
struct Child { pid_t pid; int fd; std::string buf; double t0; bool ended; };
static std::string jstr(const std::string& s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
int main(int argc, char** argv) {
  std::string outf = "-"; int jobs = 8; double budget = 600; bool quiet = false; unsigned maxviol = 80;
  const char* m = getenv("SYM_MODE"); std::string mode = m ? m : "fp";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--real") mode = "real"; else if (a == "--fp") mode = "fp"; else if (a == "-o") outf = argv[++i]; else if (a == "-j") jobs = atoi(argv[++i]);
    else if (a == "--budget") budget = atof(argv[++i]); else if (a == "--qtimeout") g_qtimeout = atoi(argv[++i]); else if (a == "--qtimeout2") g_qtimeout2 = atoi(argv[++i]);
    else if (a == "--maxpaths") g_maxpaths = atoll(argv[++i]); else if (a == "--conc") g_conc_limit = atoi(argv[++i]); else if (a == "-q") quiet = true; else if (a == "--dumpq") g_dumpq = true;
    else if (a == "--pathcpu") g_path_cpu = atoi(argv[++i]); else if (a == "--maxviol") maxviol = atoi(argv[++i]);
  }
  REAL = mode == "real";
  if (!g_state) arenaInit();
  initTables();
  double T0 = now(); g_deadline = T0 + budget;
  zinit();  // once, shared copy-on-write by all paths
  { Z3_ast w = Z3_mk_const(Z, Z3_mk_string_symbol(Z, "warm"), zF); Z3_solver_push(Z, SV); Z3_solver_assert(Z, SV, REAL ? Z3_mk_lt(Z, zReal(0), w) : Z3_mk_fpa_eq(Z, w, w)); Z3_solver_check(Z, SV); Z3_model m2 = Z3_solver_get_model(Z, SV); Z3_model_inc_ref(Z, m2); Z3_model_dec_ref(Z, m2); Z3_solver_pop(Z, SV, 1); }
  std::deque<Item> work; work.push_back(Item());
  std::vector<Child> ch; 
  Stats tot; std::map<std::string, u64> reach, asserts, incomp, ends; u64 paths = 0, dead = 0, maxdec = 0; double ttot = 0;
  struct Viol { std::string kind, label; std::vector<std::pair<std::string, std::string>> in; u64 n; };
  std::vector<Viol> viol; std::map<std::string, size_t> vidx; std::map<std::string, u64> vcount;
  std::vector<std::vector<std::pair<std::string, std::string>>> samples;
  bool timeout = false;
  while (!work.empty() || !ch.empty()) {
    if (now() > g_deadline || paths > g_maxpaths || viol.size() >= maxviol) { timeout = true; for (auto& c : ch) { kill(c.pid, SIGKILL); waitpid(c.pid, nullptr, 0); close(c.fd); } break; }
    while (!work.empty() && (int)ch.size() < jobs) {
      // any order explores the same paths; a random one samples all shapes when time is short
      if (work.size() > 1) std::swap(work.back(), work[rand() % work.size()]);
      Item it = std::move(work.back()); work.pop_back();
      int p[2]; if (pipe(p)) { perror("pipe"); return 2; }
      fflush(stdout); fflush(stderr);
      pid_t pid = fork();
      if (pid == 0) { close(p[0]); for (auto& c : ch) close(c.fd); g_out = p[1]; g_item = it; runPath(); _exit(0); }
      if (pid < 0) { perror("fork"); return 2; }
      close(p[1]); ch.push_back({pid, p[0], "", now(), false}); paths++;
    }
    std::vector<pollfd> pf; for (auto& c : ch) pf.push_back({c.fd, POLLIN, 0});
    poll(pf.data(), pf.size(), 200);
    for (size_t i = 0; i < ch.size();) {
      Child& c = ch[i]; bool eof = false;
      if (i < pf.size() && (pf[i].revents & (POLLIN | POLLHUP))) {
        char b[65536]; ssize_t k = read(c.fd, b, sizeof b);
        if (k > 0) c.buf.append(b, k); else if (k == 0) eof = true;
      }
      size_t o = 0;
      while (c.buf.size() - o >= 5) {
        u32 n; memcpy(&n, c.buf.data() + o + 1, 4); if (c.buf.size() - o < 5 + (size_t)n) break;
        char t = c.buf[o]; std::string body = c.buf.substr(o + 5, n); o += 5 + n;
        if (t == 'S') work.push_back(unser(body));
        else if (t == 'V') {
          Rd r{body.data()}; std::string kind = r.S(), lab = r.S(); u32 k = r.u(); Viol v; v.kind = kind; v.label = lab; v.n = 1; for (u32 j = 0; j < k; j++) { std::string a = r.S(), b2 = r.S(); v.in.push_back({a, b2}); }
          u64& cnt = vcount[kind + "|" + lab]; cnt++; if (cnt <= 20) viol.push_back(v);
        } else if (t == 'T') {
          c.ended = true; Rd r{body.data()}; char how = *r.p++; ends[std::string(1, how)]++;
          tot.q += r.U(); tot.sat += r.U(); tot.unsat += r.U(); tot.unk += r.U(); ttot += r.U() * 1e-6; tot.br += r.U(); tot.conc += r.U(); tot.second += r.U();
          auto rm = [&](std::map<std::string, u64>& x) { u32 k = r.u(); for (u32 j = 0; j < k; j++) { std::string a = r.S(); u64 v = r.U(); if (v) x[a] += v; } };
          rm(reach); rm(asserts); rm(incomp);
          std::vector<std::pair<std::string, std::string>> in; u32 k = r.u(); for (u32 j = 0; j < k; j++) { std::string a = r.S(), b2 = r.S(); in.push_back({a, b2}); }
          u32 nd = r.u(); if (nd > maxdec) maxdec = nd;
          if (how == 'D') { if (samples.size() < 5) samples.push_back(in); else if (rand() % ends["D"] == 0) samples[rand() % 5] = in; }
        }
      }
      c.buf.erase(0, o);
      if (eof) {
        int stt; waitpid(c.pid, &stt, 0); close(c.fd);
        if (!c.ended) { dead++; char b[100]; snprintf(b, sizeof b, "path process died (status %x)", stt); incomp[b]++; }
        ch.erase(ch.begin() + i); pf.erase(pf.begin() + i);
      } else i++;
    }
    if (!quiet) { static double last = 0; if (now() - last > 10) { last = now(); fprintf(stderr, "[%.0fs] paths %llu queue %zu queries %llu solver %.1fs viol %zu\n", now() - T0, (unsigned long long)paths, work.size(), (unsigned long long)tot.q, ttot, viol.size()); } }
  }
  FILE* f = outf == "-" ? stdout : fopen(outf.c_str(), "w");
  fprintf(f, "{\n \"mode\": \"%s\", \"wall_s\": %.2f, \"paths\": %llu, \"completed\": %llu, \"queue_left\": %zu, \"timeout\": %s,\n", mode.c_str(), now() - T0, (unsigned long long)paths, (unsigned long long)ends["D"], work.size(), timeout ? "true" : "false");
  fprintf(f, " \"queries\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"solver_s\": %.2f, \"branches\": %llu, \"concretisations\": %llu, \"second_try\": %llu, \"max_decisions\": %llu,\n", (unsigned long long)tot.q, (unsigned long long)tot.sat, (unsigned long long)tot.unsat, (unsigned long long)tot.unk, ttot, (unsigned long long)tot.br, (unsigned long long)tot.conc, (unsigned long long)tot.second, (unsigned long long)maxdec);
  auto jm = [&](const char* n, std::map<std::string, u64>& x) { fprintf(f, " \"%s\": {", n); bool first = true; for (auto& p : x) { if (!p.second) continue; fprintf(f, "%s%s: %llu", first ? "" : ", ", jstr(p.first).c_str(), (unsigned long long)p.second); first = false; } fprintf(f, "},\n"); };
  jm("ends", ends); jm("reach", reach); jm("asserts", asserts); jm("incomplete", incomp); jm("violation_counts", vcount);
  auto ji = [&](std::vector<std::pair<std::string, std::string>>& in) { fprintf(f, "{"); bool first = true; for (auto& p : in) { fprintf(f, "%s%s: %s", first ? "" : ", ", jstr(p.first).c_str(), jstr(p.second).c_str()); first = false; } fprintf(f, "}"); };
  fprintf(f, " \"violations\": ["); for (size_t i = 0; i < viol.size(); i++) { fprintf(f, "%s\n  {\"kind\": %s, \"label\": %s, \"inputs\": ", i ? "," : "", jstr(viol[i].kind).c_str(), jstr(viol[i].label).c_str()); ji(viol[i].in); fprintf(f, "}"); } fprintf(f, "],\n");
  fprintf(f, " \"samples\": ["); for (size_t i = 0; i < samples.size(); i++) { if (i) fprintf(f, ", "); ji(samples[i]); } fprintf(f, "]\n}\n");
  if (f != stdout) fclose(f);
  return 0;
}
