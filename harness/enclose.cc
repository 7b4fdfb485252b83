// Interval evaluation and conversion to IBEX: the enclosure computed over a box
// contains the value at every point of it, verdicts on relations are right, and
// the tree handed to IBEX has the value of the expression.
// what 0: ExpressionEvaluator; 1: RelationalFormulaEvaluator; 2: IbexConverter
// on expressions; 3: IbexConverter on formulas.
#include <cmath>
#include <limits>
#include "dreal/solver/expression_evaluator.h"
#include "dreal/solver/formula_evaluator.h"
#include "dreal/solver/relational_formula_evaluator.h"
#include "dreal/util/ibex_converter.h"
#include "eshape.h"
#include "ibex_stub.h"

namespace {
bool contains(const std::string& s, const char* t) { return s.find(t) != std::string::npos; }
bool hasAny(const Node* n, Op o) { return n && (n->op == o || hasAny(n->a, o) || hasAny(n->b, o)); }
const double kInf = std::numeric_limits<double>::infinity();
// A box with the witness point env inside; kinds: bounded, half-bounded, a point.
void put(Box& box, const Variable& v, double w, const char* l, const char* u) {
  double lo = -kInf, hi = kInf;
  switch (sym_choice("domain", sym_cfg("domains", 3))) {
    case 0: lo = sym_double(l); hi = sym_double(u); sym_assume(std::fabs(lo) < 1e9); sym_assume(std::fabs(hi) < 1e9); sym_assume(lo <= w); sym_assume(w <= hi); break;
    case 1: lo = hi = w; break;
    default: break;
  }
  box[v].bounds(lo, hi);
  box[v].pin(w);
}
struct Rel { Formula f; bool truth; bool neq; bool simple; };
Rel relation(Gen& g, Env& env) {
  const FOp o = static_cast<FOp>(FEQ_ + sym_choice("rel", 6));
  Node *a, *b;
  switch (sym_choice("sides", 7)) {
    case 0: a = leaf(X); b = leaf(Y); break;
    case 1: a = leaf(X); b = symc(); break;
    case 2: a = symc(); b = leaf(X); break;
    case 3: a = bin(MUL, leaf(X), leaf(Y)); b = symc(); break;
    case 4: a = bin(ADD, bin(POW, leaf(X), konst(2)), konst(1)); b = bin(MUL, konst(-3), leaf(Y)); break;
    case 5: a = un(SIN, leaf(X)); b = bin(SUB, leaf(Y), konst(1)); break;
    default: a = bin(DIV, leaf(X), leaf(Y)); b = un(EXP, leaf(X)); break;
  }
  env.draw();
  const double va = eval(a, env), vb = eval(b, env);
  const unsigned nots = sym_choice("nots", 2);
  Rel r;
  r.f = buildF(rel(o, a, b), env);
  r.truth = refRel(o, va, vb);
  r.neq = o == FNE_;
  r.simple = (a->op == X && b->op == C) || (a->op == C && b->op == X);
  if (nots) { r.f = !r.f; r.truth = !r.truth; r.neq = o == FEQ_; }
  return r;
}
}  // namespace

void harness() {
  sym_link_();
  Env env;
  Gen g;
  const long what = sym_cfg("what", 0);
  if (what == 0 || what == 2) {
    Node* n = shape(g);
    if (hasIte(n)) { sym_end_(); return; }
    env.draw();
    const double r = eval(n, env);
    sym_reach("defined");
    const Expression e{build(n, env)};
    Box box{std::vector<Variable>{env.x, env.y}};
    put(box, env.x, env.vx, "xl", "xu");
    put(box, env.y, env.vy, "yl", "yu");
    if (what == 0) {
      const ExpressionEvaluator ev{e};
      const Box::Interval iv{ev(box)};
      sym_assert(!iv.is_empty(), "the enclosure of a defined value is not empty");
      if (!iv.is_empty() && iv.has_witness()) sym_assert_close(iv.witness(), r, "the enclosure contains the value");
      else sym_assert(iv.lb() <= r && r <= iv.ub(), "the enclosure contains the value");
      const Box::Interval x = box[env.x];
      sym_assert(x.has_witness(), "evaluation leaves the box alone");
    } else {
      const Variable z{"z"};  // the tree of e = z is e - z; z is 0 at the witness
      box.Add(z);
      box[z].bounds(-1, 1);
      box[z].pin(0);
      const bool left = sym_choice("left", 2);
      const Formula f{left ? e == z : z == e};
      IbexConverter c{box};
      const ibex::ExprCtr* t = c.Convert(f);
      sym_assert(t && t->op == ibex::EQ && c.variables().size() == 3, "an equation is converted");
      if (!t) return;
      std::vector<const ibex::ExprSymbol*> syms{&c.variables()[0], &c.variables()[1], &c.variables()[2]};
      double v = 0;
      const int d = ibex::stub_eval(t->e, syms, box.interval_vector(), &v);
      sym_assert(d == 1, "the converted tree is defined where the expression is");
      if (d == 1) sym_assert_close(left ? v : -v, r, "the converted tree has the value of the expression");
    }
    return;
  }
  const Rel r = relation(g, env);
  sym_reach("defined");
  if (is_true(r.f) || is_false(r.f)) { sym_end_(); return; }
  Box box{std::vector<Variable>{env.x, env.y}};
  put(box, env.x, env.vx, "xl", "xu");
  put(box, env.y, env.vy, "yl", "yu");
  if (what == 1) {
    const FormulaEvaluator ev{make_relational_formula_evaluator(r.f)};
    sym_assert(ev.formula().EqualTo(r.f), "the evaluator keeps its formula");
    sym_assert(ev.is_neq() == r.neq, "disequalities are recognised");
    if (r.simple) sym_assert(ev.is_simple_relational(), "bounds are recognised");
    const FormulaEvaluationResult res{ev(box)};
    if (res.type() == FormulaEvaluationResult::Type::VALID) sym_assert(r.truth, "VALID holds at every point of the box");
    if (res.type() == FormulaEvaluationResult::Type::UNSAT) sym_assert(!r.truth, "UNSAT holds at no point of the box");
    return;
  }
  IbexConverter c{box};
  const ibex::ExprCtr* t = c.Convert(r.f);
  if (!t) { sym_assert(r.neq, "only disequalities are left out"); c.set_need_to_delete_variables(true); return; }
  std::vector<const ibex::ExprSymbol*> syms{&c.variables()[0], &c.variables()[1]};
  double v = 0;
  const int d = ibex::stub_eval(t->e, syms, box.interval_vector(), &v);
  sym_assert(d == 1, "the converted tree is defined where the expression is");
  if (d == 1) sym_assert(ibex::stub_holds(t->op, v) == r.truth, "the converted constraint holds exactly where the formula does");
}
