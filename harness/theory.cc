// The theory solver: a conjunction of literals is refuted only if no point of
// the box satisfies it, and the explanation alone is contradictory on the box.
#include <cmath>
#include <set>
#include <vector>
#include "dreal/solver/theory_solver.h"
#include "ibex_stub.h"
#include "sym.h"

namespace {
using namespace dreal;  // NOLINT
using std::vector;

constexpr double DELTA = 1.0;
struct F { Formula f; bool holds; };
F literal(const Variable& x, const Variable& y, const Variable& n, double a, double b, double c, unsigned k) {
  switch (k) {
    case 0: return {x >= 3, a >= 3};
    case 1: return {n > 2, c > 2};
    case 2: return {x + n <= 4, a + c <= 4};
    case 3: return {x + y >= 5, a + b >= 5};
    case 4: return {!(y > 1), b <= 1};
    case 5: return {n == 1, c == 1};
    case 6: return {!(n < 2), c >= 2};
    case 7: return {y - n == 1, b - c == 1};
    default: return {x <= 1, a <= 1};
  }
}
}  // namespace

void harness() {
  const Variable x{"x"}, y{"y"}, n{"n", Variable::Type::INTEGER};
  const double a = sym_double("x"), b = sym_double("y"), c = static_cast<double>(sym_choice("n", 4));
  sym_assume(0 <= a); sym_assume(a <= 4); sym_assume(-1 <= b); sym_assume(b <= 3);
  ibex::stub_point() = {{"x", a}, {"y", b}, {"n", c}};
  Config config;
  config.mutable_precision() = DELTA;
  if (sym_cfg("worklist", 0)) config.mutable_use_worklist_fixpoint() = true;
  if (sym_cfg("polytope", 0)) config.mutable_use_polytope() = true;
  TheorySolver t{config};
  Box box;
  box.Add(x, 0, 4); box.Add(y, -1, 3); box.Add(n, 0, 3);
  const unsigned rounds = static_cast<unsigned>(sym_cfg("rounds", 1));
  for (unsigned r = 0; r < rounds; ++r) {
    vector<F> fs;
    vector<Formula> assertions;
    const unsigned nf = static_cast<unsigned>(sym_cfg("literals", 3));
    bool all = true;
    unsigned used = 0;
    for (unsigned i = 0; i < nf; ++i) {
      const unsigned k = sym_choice("literal", 9);
      if (used & (1u << k)) sym_end_();
      used |= 1u << k;
      fs.push_back(literal(x, y, n, a, b, c, k));
      assertions.push_back(fs.back().f);
      all = all & fs.back().holds;
    }
    const bool sat = t.CheckSat(box, assertions);
    sym_reach("checked");
    if (sat) {
      const Box& m = t.GetModel();
      sym_assert(!m.empty(), "an answer that is not a refutation has a model");
      for (int i = 0; i < 3; ++i) sym_assert((box[i].lb() <= m[i].lb()) & (m[i].ub() <= box[i].ub()), "the model lies in the box");
      continue;
    }
    sym_reach("refuted");
    sym_assert(!all, "no point of the box satisfies refuted literals");
    const std::set<Formula> ex{t.GetExplanation()};
    bool every = true;
    for (const Formula& e : ex) {
      bool known = false;
      for (const F& f : fs) if (f.f.EqualTo(e)) { every = every & f.holds; known = true; break; }
      sym_assert(known, "the explanation is a subset of the literals");
    }
    sym_assert(!every, "no point of the box satisfies the explanation of a refutation");
  }
}
