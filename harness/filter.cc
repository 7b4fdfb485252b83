// FilterAssertion: turning an assertion into bounds of a box loses no point
// that satisfies it, and an assertion reported as filtered is implied by the box.
#include <cmath>
#include <limits>
#include "dreal/solver/filter_assertion.h"
#include "ibex_stub.h"

namespace {
using namespace dreal;  // NOLINT
using T = Variable::Type;
const double kInf = std::numeric_limits<double>::infinity();
double finite(const char* n) { const double d = sym_double(n); sym_assume(std::fabs(d) < std::numeric_limits<double>::max()); return d; }
Formula relate(unsigned op, const Expression& a, const Expression& b) {
  switch (op) { case 0: return a == b; case 1: return a != b; case 2: return a > b; case 3: return a >= b; case 4: return a < b; default: return a <= b; }
}
// w op c for some c in [cl, cu]; with the order swapped when the constant is on the left.
bool holds(unsigned op, bool swap, double w, double cl, double cu) {
  if (swap && op >= 2) op = op == 2 ? 4 : op == 3 ? 5 : op == 4 ? 2 : 3;
  switch (op) {
    case 0: return cl <= w && w <= cu;
    case 1: return !(cl == w && cu == w);
    case 2: return w > cl;
    case 3: return w >= cl;
    case 4: return w < cu;
    default: return w <= cu;
  }
}
}  // namespace

void harness() {
  static const T types[] = {T::CONTINUOUS, T::INTEGER, T::BINARY};
  const Variable x{"x", types[sym_choice("type", 3)]}, y{"y"}, p{"p", T::BOOLEAN};
  const bool integral = x.get_type() != T::CONTINUOUS;
  Box box;
  box.Add(y);
  box.Add(x);
  box[y] = Box::Interval(-1, 2);
  const unsigned kind = integral ? 0 : sym_choice("kind", 4);
  double lb = kind == 1 || kind == 3 ? -kInf : finite("lb"), ub = kind >= 2 ? kInf : finite("ub");
  sym_assume(lb <= ub);
  if (x.get_type() == T::BINARY) { sym_assume(0 <= lb); sym_assume(ub <= 1); }
  box[x] = Box::Interval(lb, ub);
  const Box old{box};
  Formula f;
  unsigned op = 0;
  bool swap = false, neg = false, simple = true;
  double cl = 0, cu = 0;
  if (sym_cfg("what", 0) == 0) {
    sym_link_();
    op = sym_choice("op", 6);
    swap = sym_choice("swap", 2);
    neg = sym_choice("not", 2);
    Expression c;
    if (sym_choice("range", 2)) {
      cl = finite("cl"); cu = std::nextafter(cl, kInf);  // the library only makes these
      sym_assume(std::isfinite(cu));
      c = real_constant(cl, cu, sym_choice("rep", 2));
    } else {
      cl = cu = finite("c");
      c = Expression{cl};
    }
    f = swap ? relate(op, c, Expression{x}) : relate(op, Expression{x}, c);
    if (neg) { f = !f; static const unsigned o[] = {1, 0, 5, 4, 3, 2}; op = o[op]; }
    if (is_true(f) || is_false(f)) { sym_end_(); return; }
  } else {
    simple = false;
    op = sym_choice("op", 6);
    switch (sym_choice("shape", 10)) {
      case 0: f = relate(op, Expression{x} + 1, 2.0); break;
      case 1: f = relate(op, x, y); break;
      case 2: f = x > 0 && x < 1; break;
      case 3: f = x > 0 || y < 1; break;
      case 4: f = Formula{p}; break;
      case 5: f = !Formula{p}; break;
      case 6: f = forall({y}, x > y); break;
      case 7: f = relate(op, 2 * x, 1.0); break;
      case 8: f = !(x > 0 && y < 1); break;
      default: f = relate(op, pow(x, 2), 1.0);
    }
  }
  const FilterAssertionResult r = FilterAssertion(f, &box);
  sym_reach("filtered");
  sym_assert(box.size() == 2, "the box keeps its variables");
  if (!simple) {
    sym_assert(r == FilterAssertionResult::NotFiltered && box == old, "an assertion that is not a bound is left alone");
    return;
  }
  const Box::Interval &n = box[x], &o = old[x];
  const bool empty = box.empty();
  if (!empty) {
    sym_assert(n.lb() <= n.ub() && o.lb() <= n.lb() && n.ub() <= o.ub(), "bounds only tighten");
    sym_assert(box[y].lb() == -1 && box[y].ub() == 2, "the other domains do not change");
  }
  const double w = sym_double("w");
  sym_assume(std::isfinite(w));
  sym_assume(lb <= w); sym_assume(w <= ub);
  const bool in = !empty && n.lb() <= w && w <= n.ub();
  const bool sat = holds(op, swap, w, cl, cu);
  if (r == FilterAssertionResult::FilteredWithoutChange) sym_assert(box == old, "filtered without change");
  if (sat) sym_assert(in, "no point that satisfies the assertion is lost");
  if (in && r != FilterAssertionResult::NotFiltered) sym_assert(sat, "the box implies a filtered assertion");
}
