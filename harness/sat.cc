// The propositional layer: a program of assertions, scopes, learned clauses and
// satisfiability checks, against any assignment of the variables.
#include <set>
#include <string>
#include <vector>
#include "dreal/solver/sat_solver.h"
#include "picosat_stub.h"
#include "sym.h"

namespace {
using namespace dreal;  // NOLINT
using std::vector;

constexpr int N = 4;  // atoms: two Boolean variables, two relations
struct World {
  Variable x{"x"}, y{"y"}, a{"a", Variable::Type::BOOLEAN}, b{"b", Variable::Type::BOOLEAN};
  Formula atom[N] = {Formula{a}, Formula{b}, x + y > 1, y == 2};
  bool val[N];
  Environment env;
};
// A formula and its truth value under the assignment.
struct F { Formula f; bool v; };
F literal(World& w) {
  const int i = static_cast<int>(sym_choice("atom", sym_cfg("atoms", N)));
  return sym_choice("negated", 2) ? F{!w.atom[i], !w.val[i]} : F{w.atom[i], w.val[i]};
}
F both(bool conj, const F& p, const F& q) { return conj ? F{p.f && q.f, (p.v & q.v) != 0} : F{p.f || q.f, (p.v | q.v) != 0}; }
F formula(World& w) {
  const unsigned k = sym_choice("shape", sym_cfg("shapes", 5));
  if (k == 0) return literal(w);
  const F p = literal(w), q = literal(w);
  if (k <= 2) return both(k == 1, p, q);
  const F r = literal(w);
  return both(k == 3, p, both(k != 3, q, r));
}
}  // namespace

void harness() {
  World w;
  const double x = sym_double("x"), y = sym_double("y");
  w.val[0] = sym_bool("a"); w.val[1] = sym_bool("b"); w.val[2] = x + y > 1; w.val[3] = y == 2;
  w.env.insert(w.x, x); w.env.insert(w.y, y);
  Config config;
  SatSolver sat{config};
  vector<bool> scopes{true};  // whether the assignment satisfies what is asserted in each open scope
  // a fixed program: add is 0, push 1, pop 2, check 3
  static const char* scripts[] = {nullptr, "10203", "103203", "010203", "10130203203"};
  const unsigned which = sym_cfg("scripts", 0) ? 1 + sym_choice("script", sym_cfg("scripts", 0)) : 0;
  const char* const script = scripts[which];
  const unsigned steps = script ? static_cast<unsigned>(std::string(script).size()) : sym_cfg("steps", 4);
  unsigned checks = 0, adds = 0;
  for (unsigned s = 0; s < steps; ++s) {
    const unsigned k = script ? static_cast<unsigned>(script[s] - '0') : s + 1 == steps ? 3 : sym_choice("step", 4);
    if (k == 0) {
      if (!script && adds++ == sym_cfg("adds", 3)) sym_end_();
      const F f = formula(w);
      if (is_true(f.f) || is_false(f.f)) sym_end_();
      sat.AddFormula(f.f);
      scopes.back() = scopes.back() & f.v;
    } else if (k == 1) {
      sat.Push();
      scopes.push_back(scopes.back());
    } else if (k == 2) {
      if (scopes.size() == 1) sym_end_();
      sat.Pop();
      scopes.pop_back();
    } else {
      if (!script && s + 1 != steps && checks++ == sym_cfg("checks", 1)) sym_end_();
      const auto r = sat.CheckSat();
      sym_reach("checked");
      if (!r) { sym_assert(!scopes.back(), "no assignment satisfies assertions found unsatisfiable"); continue; }
      bool agrees = true;
      unsigned seen = 0;
      for (const auto& p : r->first) {
        const int i = p.first.equal_to(w.a) ? 0 : p.first.equal_to(w.b) ? 1 : -1;
        sym_assert(i >= 0 && !(seen >> i & 1), "the Boolean model speaks once of each Boolean variable");
        if (i < 0) continue;
        seen |= 1u << i;
        agrees = agrees & (w.val[i] == p.second);
      }
      std::set<Formula> theory;
      bool learned = false;
      for (const auto& p : r->second) {
        const Formula f{sat.theory_literal(p.first)};
        agrees = agrees & (f.Evaluate(w.env) == p.second);
        theory.insert(p.second ? f : !f);
      }
      sym_assert(theory.size() == r->second.size() && theory.size() <= 2, "the theory model speaks once of each relation");
      for (const Formula& f : theory) sym_assert(theory.count(!f) == 0, "the theory model is consistent");
      sym_assert(!agrees | scopes.back(), "every assignment that agrees with the model satisfies the assertions");
      // The theory rejects the model, or a part of it.
      if (!theory.empty() && s + 1 != steps && sym_choice("learn", 2)) {
        if (theory.size() > 1 && sym_choice("part", 2)) theory.erase(theory.begin());
        sat.AddLearnedClause(theory);
        for (const Formula& f : theory) learned = learned | !f.Evaluate(w.env);
        scopes.back() = scopes.back() & learned;
        sym_reach("learned");
      }
    }
  }
}
