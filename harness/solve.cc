// The solver as a whole: programs of declarations, assertions, scopes and
// checks. An unsatisfiable answer excludes every point; a box answered for
// delta-satisfiability holds only points that satisfy the delta-weakening.
#include <cmath>
#include <vector>
#include "dreal/solver/context.h"
#include "ibex_stub.h"
#include "picosat_stub.h"
#include "sym.h"

namespace {
using namespace dreal;  // NOLINT
using std::vector;

constexpr double DELTA = 1.0;
struct World {
  Variable x{"x"}, y{"y"}, n{"n", Variable::Type::INTEGER}, p{"p", Variable::Type::BOOLEAN}, z{"z"}, u{"u"};
  double wx, wy, wn, wz, wu;
  bool wp;
};
// A formula, whether the point satisfies it, and its delta-weakening.
struct F { Formula f; bool holds; bool weak; };
long forced = -1;
F atom(World& w, bool neg) {
  const Variable &x = w.x, &y = w.y, &n = w.n;
  const double a = w.wx, b = w.wy, c = w.wn;
  static const long only = sym_cfg("atom", -1);
  switch (forced >= 0 ? forced : only >= 0 ? only : sym_choice("atom", sym_cfg("atoms", 6))) {
    case 0: return neg ? F{!(x + y >= 2), a + b < 2, a + b < 2 + DELTA} : F{x + y >= 2, a + b >= 2, a + b >= 2 - DELTA};
    case 1: return neg ? F{!Formula{w.p}, !w.wp, !w.wp} : F{Formula{w.p}, w.wp, w.wp};
    case 2: return neg ? F{!(y <= 1), b > 1, b > 1 - DELTA} : F{y <= 1, b <= 1, b <= 1 + DELTA};
    case 3: return neg ? F{!(x - n < 1), a - c >= 1, a - c >= 1 - DELTA} : F{x - n < 1, a - c < 1, a - c < 1 + DELTA};
    case 4: return neg ? F{!(x == y + 1), a != b + 1, true} : F{x == y + 1, a == b + 1, ((a - b - 1 <= DELTA) & (a - b - 1 >= -DELTA)) != 0};
    case 8: return neg ? F{!(x + w.z >= 2), a + w.wz < 2, a + w.wz < 2 + DELTA} : F{x + w.z >= 2, a + w.wz >= 2, a + w.wz >= 2 - DELTA};
    case 9: return neg ? F{!(x + w.u >= 2), a + w.wu < 2, a + w.wu < 2 + DELTA} : F{x + w.u >= 2, a + w.wu >= 2, a + w.wu >= 2 - DELTA};
    case 5: return neg ? F{!(n > 1), c <= 1, c <= 1 + DELTA} : F{n > 1, c > 1, c > 1 - DELTA};
    default: return neg ? F{n == 2, c == 2, ((c <= 2 + DELTA) & (c >= 2 - DELTA)) != 0} : F{!(n == 2), c != 2, true};
  }
}
F literal(World& w) { return atom(w, sym_choice("negated", 2)); }
long forcedShape = -1;
F formula(World& w) {
  const unsigned k = forcedShape >= 0 ? static_cast<unsigned>(forcedShape) : sym_choice("shape", sym_cfg("shapes", 3));
  const F a = literal(w);
  if (k == 0) return a;
  const F b = literal(w);
  if (k == 1) return F{a.f || b.f, (a.holds | b.holds) != 0, (a.weak | b.weak) != 0};
  if (k == 2) return F{a.f && b.f, (a.holds & b.holds) != 0, (a.weak & b.weak) != 0};
  // if-then-else: the auxiliary variable stands for the value at the point
  const double v = a.holds ? w.wx : w.wn;
  ibex::stub_point()["ITE"] = v;
  return F{if_then_else(a.f, Expression{w.x}, Expression{w.n}) + w.y >= 1, v + w.wy >= 1, true};
}
struct Scope { bool holds{true}, weak{true}; bool z{false}, u{false}; };
bool inside(const Box& b, const Variable& v, double d) { return (b[v].lb() <= d) & (d <= b[v].ub()); }
bool within(const Box& b, const Variable& v, double lo, double hi) { return (lo <= b[v].lb()) & (b[v].ub() <= hi); }
}  // namespace

void harness() {
  World w;
  w.wx = sym_double("x"); w.wy = sym_double("y"); w.wz = sym_double("z"); w.wu = sym_double("u");
  w.wn = sym_choice("n", sym_cfg("ns", 2)) ? 1 : 2;
  w.wp = sym_bool("p");
  sym_assume(0 <= w.wx); sym_assume(w.wx <= 4); sym_assume(-1 <= w.wy); sym_assume(w.wy <= 3); sym_assume(0 <= w.wz); sym_assume(w.wz <= 1); sym_assume(0 <= w.wu); sym_assume(w.wu <= 1);
  sym_assume(!(1 < w.wy && w.wy < 1.000001));  // a double, or as good as one: strict bounds step to the next double
  ibex::stub_point() = {{"x", w.wx}, {"y", w.wy}, {"n", w.wn}, {"z", w.wz}, {"u", w.wu}, {"p", w.wp ? 1.0 : 0.0}};
  Config config;
  config.mutable_precision() = DELTA;
  if (sym_cfg("worklist", 0)) config.mutable_use_worklist_fixpoint() = true;
  if (sym_cfg("polytope", 0)) config.mutable_use_polytope() = true;
  Context ctx{config};
  ctx.DeclareVariable(w.x, 0, 4);
  ctx.DeclareVariable(w.y, -1, 3);
  ctx.DeclareVariable(w.n, 0, 3);
  ctx.DeclareVariable(w.p);
  vector<Scope> scopes(1);
  static const char* scripts[] = {nullptr, "(D1a?)(D1a?)", "(D2a?)D2a?", "(D)I?", "(D1)I?"};
  const char* script = scripts[sym_cfg("script", 0)];
  const unsigned steps = sym_cfg("steps", 2);
  unsigned checks = 0;
  for (unsigned s = 0; script ? *script != 0 : s < steps; ++s) {
    char c = script ? *script++ : s + 1 == steps ? '?' : "a()?D"[sym_choice("step", sym_cfg("kinds", 5))];
    Scope& now = scopes.back();
    if (c == 'a' || c == 'I') {
      if (c == 'I') forcedShape = 3; else if (script) forced = now.z && (!now.u || sym_choice("about", 2)) ? 8 : now.u ? 9 : 0;
      const F f = formula(w);
      ctx.Assert(f.f);
      now.holds = now.holds & f.holds; now.weak = now.weak & f.weak;
    } else if (c == '(') {
      ctx.Push(1); scopes.push_back(Scope{scopes.back()});
    } else if (c == ')') {
      if (scopes.size() == 1) sym_end_();
      ctx.Pop(1); scopes.pop_back();
    } else if (c == 'D') {
      const bool two = script && (*script == '1' || *script == '2');
      if (two) ++script;
      if (now.z) sym_end_();
      if (two && sym_choice("u first", 2)) { ctx.DeclareVariable(w.u, 0, 1); now.u = true; }
      ctx.DeclareVariable(w.z, 0, 1); now.z = true;
    } else {
      if (!script && s + 1 != steps && checks++ == sym_cfg("checks", 0)) sym_end_();
      const auto r = ctx.CheckSat();
      sym_reach("checked");
      if (!r) {
        sym_assert(!now.holds, "no point satisfies assertions answered unsatisfiable");
        sym_assert(ctx.get_model().empty(), "no model after an unsatisfiable answer");
        continue;
      }
      sym_reach("delta-sat");
      const Box& b = *r;
      sym_assert(!b.empty(), "a delta-satisfiable answer has a model");
      sym_assert(ctx.get_model() == b, "the model is kept");
      sym_assert(b.size() == 4 + now.z + now.u && b.has_variable(w.x) && b.has_variable(w.y) && b.has_variable(w.n) && b.has_variable(w.p) && b.has_variable(w.z) == now.z && b.has_variable(w.u) == now.u,
                 "the model has the declared variables and no other");
      sym_assert(within(b, w.x, 0, 4) & within(b, w.y, -1, 3) & within(b, w.n, 0, 3) & within(b, w.p, 0, 1),
                 "the model lies in the declared domains");
      for (int i = 0; i < b.size(); ++i) sym_assert((b[i].lb() <= b[i].ub()) & (b[i].ub() - b[i].lb() <= DELTA), "every interval of the model is at most delta wide");
      bool in = inside(b, w.x, w.wx) & inside(b, w.y, w.wy) & inside(b, w.n, w.wn) & inside(b, w.p, w.wp ? 1 : 0);
      if (now.z) in = in & inside(b, w.z, w.wz);
      if (now.u) in = in & inside(b, w.u, w.wu);
      sym_assert((!in) | now.weak, "every point of the model satisfies the delta-weakened assertions");
    }
  }
}
