// Box: bookkeeping of variables and domains, bisection, union, comparison, and
// the branching heuristics, bit-exact over all interval bounds.
#include <cmath>
#include <limits>
#include "dreal/solver/brancher.h"
#include "dreal/util/box.h"
#include "dreal/util/exception.h"
#include "ibex_stub.h"

namespace {
using namespace dreal;  // NOLINT
using std::vector;
const double kInf = std::numeric_limits<double>::infinity();
using T = Variable::Type;

Variable mk(const char* n, T t) { return Variable{n, t}; }
bool same(const Box::Interval& a, double l, double u) { return a.lb() == l && a.ub() == u; }

// Any non-empty interval allowed for the type; kinds 1..3 have infinite bounds.
Box::Interval anyInterval(T t, unsigned kind, const char* l, const char* u) {
  double lb, ub;
  if (t != T::CONTINUOUS && sym_cfg("ints", 0)) {  // integers as an enumeration of a few
    static const double some[] = {-2147483647, -3, -2, 0, 1, 4, 2147483647};
    const bool few = sym_cfg("ints", 0) == 2;
    lb = t == T::BINARY ? sym_choice(l, 2) : some[few ? 1 + 2 * sym_choice(l, 3) : sym_choice(l, 7)];
    ub = t == T::BINARY ? sym_choice(u, 2) : some[few ? 1 + 2 * sym_choice(u, 3) : sym_choice(u, 7)];
    if (lb > ub) { sym_end_(); }
    return Box::Interval(lb, ub);
  }
  lb = sym_double(l); ub = sym_double(u);
  sym_assume(std::isfinite(lb)); sym_assume(std::isfinite(ub)); sym_assume(lb <= ub);
  if (t == T::INTEGER || t == T::BINARY) {
    sym_assume(lb == std::floor(lb)); sym_assume(ub == std::floor(ub));
    const double m = t == T::BINARY ? 1 : static_cast<double>(sym_cfg("maxint", std::numeric_limits<int>::max()));
    sym_assume((t == T::BINARY ? 0 : -m) <= lb); sym_assume(ub <= m);
    return Box::Interval(lb, ub);
  }
  switch (kind) { case 1: return Box::Interval(-kInf, ub); case 2: return Box::Interval(lb, kInf); case 3: return Box::Interval(-kInf, kInf); default: return Box::Interval(lb, ub); }
}
struct Abort {};

void bookkeeping() {
  vector<Variable> pool{mk("x", T::CONTINUOUS), mk("x", T::INTEGER), mk("b", T::BINARY), mk("p", T::BOOLEAN), mk("y", T::CONTINUOUS)};
  Box box;
  vector<Variable> want;
  vector<Box::Interval> dom;
  vector<bool> used(pool.size(), false);
  auto add = [&](Box& b, vector<Variable>& w, vector<Box::Interval>& d) {
    const unsigned k = sym_choice("var", pool.size());
    if (used[k]) { sym_end_(); return; }
    used[k] = true;
    const Variable& v = pool[k];
    if (v.get_type() != T::BOOLEAN && sym_choice("bounds", 2)) {
      const Box::Interval iv = anyInterval(v.get_type(), 0, "lb", "ub");
      b.Add(v, iv.lb(), iv.ub());
      d.push_back(iv);
    } else {
      b.Add(v);
      const double m = std::numeric_limits<int>::max();
      d.push_back(v.get_type() == T::CONTINUOUS ? Box::Interval(-kInf, kInf) : v.get_type() == T::INTEGER ? Box::Interval(-m, m) : Box::Interval(0, 1));
    }
    w.push_back(v);
  };
  auto check = [&](const Box& b, const vector<Variable>& w, const vector<Box::Interval>& d, const char* l) {
    bool ok = b.size() == static_cast<int>(w.size()) && b.variables().size() == w.size();
    sym_assert(ok, l);
    sym_assert(b.interval_vector().size() == (w.empty() ? 1 : b.size()), l);
    for (size_t i = 0; i < w.size(); ++i) {
      ok = b.variable(i).equal_to(w[i]) && b.variables()[i].equal_to(w[i]) && b.index(w[i]) == static_cast<int>(i) && b.has_variable(w[i]);
      sym_assert(ok, "variables and indices correspond");
      sym_assert(same(b[i], d[i].lb(), d[i].ub()) && same(b[w[i]], d[i].lb(), d[i].ub()) && same(b.interval_vector()[i], d[i].lb(), d[i].ub()), "every variable has its own domain");
    }
    for (const Variable& v : pool) {
      bool in = false;
      for (const Variable& x : w) in = in || x.equal_to(v);
      sym_assert(b.has_variable(v) == in, "membership");
    }
  };
  const unsigned n = 1 + sym_choice("n", 2);
  for (unsigned i = 0; i < n; ++i) add(box, want, dom);
  check(box, want, dom, "size");
  // A copy shares nothing that changes.
  Box copy{box};
  vector<Variable> want2{want};
  vector<Box::Interval> dom2{dom};
  switch (sym_choice("then", 5)) {
    case 0: add(copy, want2, dom2); break;
    case 1: add(box, want, dom); break;
    case 2: add(copy, want2, dom2); add(box, want, dom); break;
    case 3: { const Box::Interval iv = anyInterval(want[0].get_type(), 0, "lb2", "ub2"); copy[want[0]] = iv; dom2[0].bounds(iv.lb(), iv.ub()); break; }
    default: { Box third; third = copy; add(third, want2, dom2); check(third, want2, dom2, "size"); want2 = want; dom2 = dom; }
  }
  sym_reach("built");
  check(box, want, dom, "size");
  check(copy, want2, dom2, "size");
  Box fresh{want};
  for (size_t i = 0; i < want.size(); ++i) sym_assert(fresh.variable(i).equal_to(want[i]) && fresh.index(want[i]) == static_cast<int>(i), "a box made from a list of variables");
  sym_assert(!box.empty(), "not empty");
  Box e{box};
  e.set_empty();
  sym_assert(e.empty() && !box.empty(), "emptying a copy");
}

struct Three { Box box; vector<Variable> v; };
Three three() {
  Three t;
  static const T types[] = {T::CONTINUOUS, T::INTEGER, T::BINARY};
  t.v = {mk("x", T::CONTINUOUS), mk("y", types[sym_choice("type", 3)]), mk("z", T::CONTINUOUS)};
  static const char* lo[] = {"l0", "l1", "l2"};
  static const char* hi[] = {"u0", "u1", "u2"};
  const unsigned dims = sym_cfg("dims", 3);
  for (unsigned i = 0; i < 3; ++i) {
    t.box.Add(t.v[i]);
    if (i >= dims) { const double c = i + 0.5; t.box[i] = Box::Interval(-c, c); continue; }
    const unsigned kind = t.v[i].get_type() == T::CONTINUOUS ? sym_choice("kind", sym_cfg("kinds", 4)) : 0;
    const Box::Interval iv = anyInterval(t.v[i].get_type(), kind, lo[i], hi[i]);
    t.box[i] = iv;
  }
  return t;
}
void checkHalves(const Three& t, int i, const Box& a, const Box& b) {
  const Box::Interval& o = t.box[i];
  for (int k = 0; k < 3; ++k) {
    sym_assert(a.variable(k).equal_to(t.v[k]) && b.variable(k).equal_to(t.v[k]), "the halves have the variables of the box");
    if (k != i) sym_assert(same(a[k], t.box[k].lb(), t.box[k].ub()) && same(b[k], t.box[k].lb(), t.box[k].ub()), "the other dimensions do not change");
  }
  const Box::Interval &p = a[i], &q = b[i];
  sym_assert(p.lb() <= p.ub() && q.lb() <= q.ub(), "no half is empty");
  sym_assert(o.lb() <= p.lb() && p.ub() <= o.ub() && o.lb() <= q.lb() && q.ub() <= o.ub(), "the halves are inside the box");
  sym_assert(!(p.lb() == o.lb() && p.ub() == o.ub()) && !(q.lb() == o.lb() && q.ub() == o.ub()), "both halves are smaller");
  const double w = sym_double("w");
  sym_assume(o.lb() <= w); sym_assume(w <= o.ub());
  const bool inP = p.lb() <= w && w <= p.ub(), inQ = q.lb() <= w && w <= q.ub();
  if (t.v[i].get_type() == T::CONTINUOUS) {
    sym_assert(inP || inQ, "every point of the box is in a half");
  } else {
    sym_assert(p.lb() == std::floor(p.lb()) && p.ub() == std::floor(p.ub()) && q.lb() == std::floor(q.lb()) && q.ub() == std::floor(q.ub()), "halves of an integer domain have integer bounds");
    sym_assert(!(inP && inQ), "halves of an integer domain are disjoint");
    if (w == std::floor(w)) sym_assert(inP || inQ, "every integer of the box is in a half");
  }
}
void bisection() {
  Three t = three();
  const int i = sym_choice("dim", sym_cfg("dims", 3));
  const bool can = t.box[i].is_bisectable();
  Box a, b;
  const bool byVar = sym_choice("by", 2);
  try {
    std::pair<Box, Box> r = byVar ? t.box.bisect(t.v[i]) : t.box.bisect(i);
    a = r.first; b = r.second;
  } catch (std::runtime_error&) {
    sym_reach("refused");
    sym_assert(!can, "a bisectable dimension is bisected");
    return;
  }
  sym_reach("bisected");
  sym_assert(can, "only a bisectable dimension is bisected");
  checkHalves(t, i, a, b);
}
void unions() {
  Three t = three();
  Box a{t.box}, b{t.box};
  static const char* lo[] = {"m0", "m1", "m2"};
  static const char* hi[] = {"v0", "v1", "v2"};
  const int dims = sym_cfg("dims", 3);
  for (int i = 0; i < dims; ++i) { const Box::Interval iv = anyInterval(t.v[i].get_type(), 0, lo[i], hi[i]); b[i] = iv; }
  const unsigned e = sym_choice("empty", 4);
  if (e & 1) a.set_empty();
  if (e & 2) b.set_empty();
  Box u{a};
  Box& r = u.InplaceUnion(b);
  sym_reach("united");
  sym_assert(&r == &u, "returns itself");
  if (e == 3) { sym_assert(u.empty(), "union of empty boxes"); return; }
  for (int i = 0; i < 3; ++i) {
    const double l = e == 1 ? b[i].lb() : e == 2 ? a[i].lb() : (b[i].lb() < a[i].lb() ? b[i].lb() : a[i].lb());
    const double h = e == 1 ? b[i].ub() : e == 2 ? a[i].ub() : (b[i].ub() > a[i].ub() ? b[i].ub() : a[i].ub());
    sym_assert(same(u[i], l, h), "the union is the smallest box around both");
  }
  if (e == 0) {
    bool eq = true;
    for (int i = 0; i < 3; ++i) if (!same(a[i], b[i].lb(), b[i].ub())) eq = false;
    sym_assert((a == b) == eq && (a != b) == !eq, "equality of boxes");
  } else {
    sym_assert(!(a == b) && a != b, "an empty box differs from a non-empty one");
  }
}
void widest() {
  Three t = three();
  const bool branch = sym_cfg("branch", 0);
  bool active[3] = {true, true, true};
  DynamicBitset set(3);
  if (branch) {
    const unsigned m = 1 + sym_choice("active", 7);
    for (int i = 0; i < 3; ++i) { active[i] = m >> i & 1; if (active[i]) set.set(i); }
  }
  const std::pair<double, int> r = branch ? FindMaxDiam(t.box, set) : t.box.MaxDiam();
  sym_reach("chosen");
  bool any = false;
  for (int i = 0; i < 3; ++i) {
    if (!active[i] || !t.box[i].is_bisectable()) continue;
    any = true;
    sym_assert(r.second >= 0 && t.box[i].diam() <= r.first, "no wider dimension is passed over");
  }
  if (r.second >= 0) sym_assert(r.second < 3 && active[r.second] && t.box[r.second].is_bisectable() && t.box[r.second].diam() == r.first, "the chosen dimension is a candidate of that width");
  else sym_assert(!any, "a dimension is chosen when one can be bisected");
  if (branch) {
    Box a, b;
    const int d = BranchLargestFirst(t.box, set, &a, &b);
    sym_assert(d == r.second, "branching takes the widest dimension");
    if (d >= 0) checkHalves(t, d, a, b);
  }
}
}  // namespace

void harness() {
  switch (sym_cfg("what", 0)) {
    case 0: bookkeeping(); break;
    case 1: bisection(); break;
    case 2: unions(); break;
    default: widest();
  }
}
