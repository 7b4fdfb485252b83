// A solver context: domains and models, the encoding of minimisation, options.
#include <cmath>
#include <limits>
#include <string>
#include <vector>
#include "dreal/solver/context.h"
#include "ibex_stub.h"
#include "picosat_stub.h"
#include "sym.h"

namespace {
using namespace dreal;  // NOLINT
using std::string;
using std::vector;

// Integer variables: the domain and bounds on the variable decide the answer.
void integers() {
  static const double pool[] = {-3, -0.5, 0.25, 0.75, 1, 2.5, 3, 4, 5e9 + 0.5, std::numeric_limits<double>::infinity()};
  const unsigned np = sizeof pool / sizeof *pool;
  const bool binary = sym_choice("binary", 2);
  const Variable n{"n", binary ? Variable::Type::BINARY : Variable::Type::INTEGER}, p{"p", Variable::Type::BOOLEAN};
  const double lo = binary ? 0 : sym_choice("unbounded", 2) ? -std::numeric_limits<double>::infinity() : pool[sym_choice("lo", np - 1)];
  const double hi = binary ? 1 : pool[sym_choice("hi", np)];
  if (!(lo <= hi)) sym_end_();
  const int64_t k = sym_int("k", -10, 10);  // any value of the variable
  double point = 1e10;                      // one of them, for the stand-in of IBEX
  bool holds = true, inDomain = false;
  for (int64_t i = -10; i <= 10; ++i) if (lo <= static_cast<double>(i) && static_cast<double>(i) <= hi) { inDomain = inDomain | (k == i); }
  Config config;
  config.mutable_precision() = 0.25;
  Context ctx{config};
  ctx.DeclareVariable(n);
  if (!binary) ctx.SetInterval(n, lo, hi);
  ctx.DeclareVariable(p);
  const unsigned na = sym_choice("assertions", 3);
  struct A { int op; double c; } as[2];
  for (unsigned i = 0; i < na; ++i) {
    A& a = as[i];
    a.op = static_cast<int>(sym_choice("op", 5)); a.c = pool[sym_choice("c", np - 2)];
    switch (a.op) {
      case 0: ctx.Assert(n <= a.c); break;
      case 1: ctx.Assert(n >= a.c); break;
      case 2: ctx.Assert(n == a.c); break;
      case 3: ctx.Assert(a.c >= n); break;
      default: ctx.Assert(!(n > a.c)); break;
    }
    bool t = false;
    for (int64_t j = -10; j <= 10; ++j) { const double d = static_cast<double>(j); if (a.op == 1 ? d >= a.c : a.op == 2 ? d == a.c : d <= a.c) t = t | (k == j); }
    holds = holds & t;
  }
  (void)point;
  if (sym_choice("boolean", 2)) ctx.Assert(Formula{p} || !(n == n + 1));
  const auto r = ctx.CheckSat();
  sym_reach("checked");
  if (!r) { sym_assert(!(holds & inDomain), "no integer satisfies bounds answered unsatisfiable"); return; }
  const double l = (*r)[n].lb(), u = (*r)[n].ub();
  sym_reach("delta-sat");
  sym_assert(l == u && std::floor(l) == l, "the model of an integer is an integer");
  sym_assert(lo <= l && u <= hi, "the model lies in the declared domains");
  for (unsigned i = 0; i < na; ++i) sym_assert(as[i].op == 1 ? l >= as[i].c : as[i].op == 2 ? l == as[i].c : l <= as[i].c, "the model satisfies the bounds");
}

// Continuous variables with any domain.
void reals() {
  const Variable x{"x"}, y{"y"};
  const double lo = sym_double("lo"), hi = sym_double("hi"), c = sym_double("c"), w = sym_double("w");
  sym_assume(lo <= hi); sym_assume(std::fabs(c) < 1e6); 
  sym_assume(std::fabs(lo) < 1e6); sym_assume(std::fabs(hi) < 1e6);
  Config config;
  config.mutable_precision() = 0.25;
  Context ctx{config};
  ctx.DeclareVariable(x, lo, hi);
  ctx.DeclareVariable(y, -1, 1, false);
  bool h = lo <= w && w <= hi;
  const bool ge = sym_choice("ge", 2);
  if (sym_choice("assert", 2)) { ctx.Assert(ge ? x >= c : x <= c); h = h && (ge ? w >= c : w <= c); }
  const auto r = ctx.CheckSat();
  sym_reach("checked");
  if (!r) { sym_assert(!h, "no point satisfies bounds answered unsatisfiable"); return; }
  sym_assert(r->size() == 1 && r->has_variable(x), "the model has the model variables only");
  const double l = (*r)[x].lb(), u = (*r)[x].ub();
  sym_assert(l <= u && lo <= l && u <= hi, "the model lies in the declared domains");
  sym_assert(u - l <= 0.25, "every interval of the model is at most delta wide");
}
// Minimisation: the universally quantified assertion says that no point of the
// feasible set has a smaller objective.
void minimize() {
  const Variable x{"x"}, y{"y"}, u{"u", sym_choice("integer", 2) ? Variable::Type::INTEGER : Variable::Type::CONTINUOUS}, p{"p", Variable::Type::BOOLEAN};
  const Variable vs[3] = {x, y, u};
  static const char* an[3] = {"x", "y", "u"};
  static const char* bn[3] = {"x'", "y'", "u'"};
  double a[3], b[3];  // the point at which the objective is minimal, and any other
  for (int i = 0; i < 3; ++i) { a[i] = sym_double(an[i]); b[i] = sym_double(bn[i]); }
  Context ctx;
  ctx.DeclareVariable(x, 0, 4);
  ctx.DeclareVariable(y);
  ctx.DeclareVariable(u, -5, 5);
  ctx.DeclareVariable(p);
  struct C { bool holds; unsigned vars; C(bool h, unsigned v) : holds(h), vars(v) {} };  // at the other point
  vector<C> cs;
  cs.emplace_back((0 <= b[0]) & (b[0] <= 4), 1u); cs.emplace_back((-5 <= b[2]) & (b[2] <= 5), 4u);
  const unsigned nc = sym_choice("constraints", 1 + static_cast<unsigned>(sym_cfg("constraints", 2)));
  for (unsigned i = 0; i < nc; ++i) {
    switch (sym_choice("constraint", 7)) {
      case 0: ctx.Assert(x + y >= 1); cs.emplace_back(b[0] + b[1] >= 1, 3u); break;
      case 1: ctx.Assert(x <= 3); cs.emplace_back(b[0] <= 3, 1u); break;
      case 2: ctx.Assert(y - u <= 1); cs.emplace_back(b[1] - b[2] <= 1, 6u); break;
      case 3: ctx.Assert(y >= -2); cs.emplace_back(b[1] >= -2, 2u); break;
      case 4: ctx.Assert(x >= y || u <= 1); cs.emplace_back(((b[0] >= b[1]) | (b[2] <= 1)) != 0, 7u); break;
      case 5: ctx.Assert(!(x == 2)); cs.emplace_back(b[0] != 2, 1u); break;
      default: ctx.Assert(!(u > 3)); cs.emplace_back(b[2] <= 3, 4u); break;
    }
  }
  const size_t before = ctx.assertions().size();
  vector<Expression> fs;
  vector<double> fa, fb;
  unsigned rel = 0;
  const unsigned k = sym_choice("objective", 5);
  if (k == 0 || k == 3) { fs.push_back(x - 2 * y); fa.push_back(a[0] - 2 * a[1]); fb.push_back(b[0] - 2 * b[1]); rel |= 3; }
  if (k == 1) { fs.push_back(x); fa.push_back(a[0]); fb.push_back(b[0]); rel |= 1; }
  if (k == 2 || k == 3) { fs.push_back(x * u + 1); fa.push_back(a[0] * a[2] + 1); fb.push_back(b[0] * b[2] + 1); rel |= 5; }
  if (k == 4) { fs.push_back(y);  fa.push_back(-a[1]); fb.push_back(-b[1]); rel |= 2; ctx.Maximize(fs[0]); } else if (fs.size() == 1) { ctx.Minimize(fs[0]); } else { ctx.Minimize(fs); }
  for (bool go = true; go;) { go = false; for (const C& c : cs) if ((c.vars & rel) && (c.vars & ~rel)) { rel |= c.vars; go = true; } }
  bool all = true, related = true, best = false;
  for (const C& c : cs) { all = all & c.holds; if (c.vars & rel) related = related & c.holds; }
  for (size_t i = 0; i < fa.size(); ++i) best = best | (fa[i] <= fb[i]);
  sym_assert(ctx.assertions().size() == before + 1, "minimisation adds one assertion");
  if (ctx.assertions().size() != before + 1) return;
  const Formula psi{ctx.assertions().last()};
  Environment env;
  for (int i = 0; i < 3; ++i) env.insert(vs[i], a[i]);
  size_t zs = 0;
  Variables other;
  Formula body;
  for (const Formula& f : get_operands(psi)) {
    if (is_forall(f)) { body = get_quantified_formula(f); other = get_quantified_variables(f); }
  }
  // z_i = f_i(x): the values of the new variables
  for (const Formula& f : get_operands(psi)) {
    if (is_forall(f)) continue;
    const Expression l{get_lhs_expression(f)}, r{get_rhs_expression(f)};
    for (int side = 0; side < 2; ++side) {
      const Expression& e = side ? r : l;
      if (!is_variable(e)) continue;
      const Variable z{get_variable(e)};
      if (z.equal_to(x) || z.equal_to(y) || z.equal_to(u)) continue;
      env.insert(z, (side ? l : r).Evaluate(env));
      ++zs;
      break;
    }
  }
  sym_assert(zs == fs.size(), "there is a variable for every objective");
  for (const Variable& v : other) {
    bool known = false;
    for (int i = 0; i < 3; ++i) if (v.get_name() == vs[i].get_name() + "_") { env.insert(v, b[i]); known = v.get_type() == vs[i].get_type(); }
    sym_assert(known, "the quantified variables are copies of variables");
  }
  for (const Formula& f : get_operands(psi)) if (!is_forall(f)) sym_assert(f.Evaluate(env), "the new variables are the objectives");
  const bool t = body.Evaluate(env);
  sym_reach("minimised");
  sym_assert(!t | !all | best, "no feasible point is better than a minimal one");
  sym_assert(t | (related & !best), "a point that no feasible point betters is minimal");
}
}  // namespace

void harness() {
  switch (sym_cfg("what", 0)) {
    case 0: return integers();
    case 1: return reals();
    default: return minimize();
  }
}
