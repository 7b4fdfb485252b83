// Harness interface, shared by the symbolic engine (rt.cpp) and by the native
// replay build (native.cpp).
#pragma once
#include <cstdint>
#include <string>
#include <stdexcept>

extern "C" {
double sym_double_(const char* name);                        // any double
int64_t sym_int_(const char* name, int64_t lo, int64_t hi);  // symbolic, not enumerated
unsigned sym_choice_(const char* name, unsigned n);          // 0..n-1, one path each
void sym_assume_(bool c);
void sym_assert_(bool c, const char* label);
void sym_assert_close_(double a, double b, const char* label);
void sym_reach_(const char* label);
void sym_prefer_(bool c);
bool sym_native_();
long sym_live_();  // number of live heap blocks of the program under test
long sym_cfg_(const char* name, long dflt);  // bound, from SYM_CFG="name=value,..."
void sym_link_(); // symbolic doubles will enter hashed objects
void sym_end_();   // stop this path quietly
}

inline double sym_double(const char* n) { return sym_double_(n); }
inline int64_t sym_int(const char* n, int64_t lo, int64_t hi) { return sym_int_(n, lo, hi); }
inline bool sym_bool(const char* n) { return sym_int_(n, 0, 1) != 0; }
inline unsigned sym_choice(const char* n, unsigned k) { return sym_choice_(n, k); }
inline void sym_assume(bool c) { sym_assume_(c); }
inline void sym_assert(bool c, const char* l) { sym_assert_(c, l); }
inline void sym_assert_close(double a, double b, const char* l) { sym_assert_close_(a, b, l); }
inline long sym_cfg(const char* n, long d) { return sym_cfg_(n, d); }
inline void sym_reach(const char* l) { sym_reach_(l); }

// Every harness defines this.
void harness();
