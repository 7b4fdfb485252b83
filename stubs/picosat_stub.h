// Behaviour of the PicoSAT stand-in; included by one harness.
#pragma once
#include <picosat.h>
#include <cassert>
#include "sym.h"
PicoSAT* picosat_init() { return new PicoSAT; }
void picosat_reset(PicoSAT* s) { delete s; }
void picosat_set_seed(PicoSAT*, unsigned) {}
void picosat_set_global_default_phase(PicoSAT*, int) {}
int picosat_save_original_clauses(PicoSAT* s) { s->save = true; return 1; }
int picosat_inc_max_var(PicoSAT* s) { return ++s->max_var; }
int picosat_variables(PicoSAT* s) { return s->max_var; }
int picosat_added_original_clauses(PicoSAT* s) { return static_cast<int>(s->clauses.size()); }
int picosat_add(PicoSAT* s, int lit) {
  if (lit) { const int v = lit < 0 ? -lit : lit; if (v > s->max_var) s->max_var = v; s->current.push_back(lit); }
  else { s->clauses.push_back(s->current); s->current.clear(); }
  return 0;
}
inline bool picosat_stub_holds(const PicoSAT* s, const std::vector<int>& m) {
  for (const auto& c : s->clauses) {
    bool ok = false;
    for (int l : c) { const int v = m[l < 0 ? -l : l]; if (v && (v > 0) == (l > 0)) { ok = true; break; } }
    if (!ok) return false;
  }
  return true;
}
inline bool picosat_stub_extend(const PicoSAT* s, std::vector<int>& m, int v) {
  // m is total on 1..v-1; can it be extended?
  for (const auto& c : s->clauses) {
    bool ok = false;
    for (int l : c) { const int x = l < 0 ? -l : l; if (x >= v || (m[x] > 0) == (l > 0)) { ok = true; break; } }
    if (!ok) return false;
  }
  if (v > s->max_var) return true;
  for (int val : {1, -1}) { m[v] = val; if (picosat_stub_extend(s, m, v + 1)) return true; }
  m[v] = 0;
  return false;
}
int picosat_sat(PicoSAT* s, int) {
  assert(s->current.empty());
  std::vector<int> m(s->max_var + 1, 0);
  if (!picosat_stub_extend(s, m, 1)) { s->model.clear(); s->partial.clear(); return PICOSAT_UNSATISFIABLE; }
  for (int v = 1; v <= s->max_var; ++v) {
    std::vector<int> a(m), b(m);
    a[v] = 1; b[v] = -1;
    const bool pa = picosat_stub_extend(s, a, v + 1), pb = picosat_stub_extend(s, b, v + 1);
    m[v] = pa && pb ? (sym_choice("value", 2) ? -1 : 1) : pa ? 1 : -1;
  }
  s->model = m;
  if (s->save && sym_choice("partial", 2)) {
    for (int v = 1; v <= s->max_var; ++v) { const int k = m[v]; m[v] = 0; if (!picosat_stub_holds(s, m)) m[v] = k; }
  }
  s->partial = m;
  return PICOSAT_SATISFIABLE;
}
int picosat_deref(PicoSAT* s, int l) { return s->model.at(l); }
int picosat_deref_partial(PicoSAT* s, int l) { assert(s->save); return s->partial.at(l); }
int picosat_push(PicoSAT* s) { s->marks.push_back(s->clauses.size()); return ++s->max_var; }
int picosat_pop(PicoSAT* s) { assert(!s->marks.empty()); s->clauses.resize(s->marks.back()); s->marks.pop_back(); return 0; }
