// Stand-in for PicoSAT (not installed here): it searches all assignments, and
// which of the satisfying assignments it returns is left to the solver.
#pragma once
#include <vector>
#define PICOSAT_UNKNOWN 0
#define PICOSAT_SATISFIABLE 10
#define PICOSAT_UNSATISFIABLE 20
struct PicoSAT {
  std::vector<std::vector<int>> clauses;
  std::vector<int> current;
  std::vector<size_t> marks;
  std::vector<int> model;    // 1-based; 1 or -1
  std::vector<int> partial;  // 0: not needed
  int max_var{0};
  bool save{false};
};
PicoSAT* picosat_init();
void picosat_reset(PicoSAT*);
void picosat_set_seed(PicoSAT*, unsigned);
void picosat_set_global_default_phase(PicoSAT*, int);
int picosat_save_original_clauses(PicoSAT*);
int picosat_inc_max_var(PicoSAT*);
int picosat_variables(PicoSAT*);
int picosat_added_original_clauses(PicoSAT*);
int picosat_add(PicoSAT*, int lit);
int picosat_sat(PicoSAT*, int limit);
int picosat_deref(PicoSAT*, int lit);
int picosat_deref_partial(PicoSAT*, int lit);
int picosat_push(PicoSAT*);
int picosat_pop(PicoSAT*);
