// Contractors: no point of the box that satisfies the constraints is lost, the
// box only shrinks, changed dimensions are reported, and the explanation of an
// emptied box is contradictory on it.
#include <cmath>
#include <limits>
#include <vector>
#include "dreal/contractor/contractor.h"
#include "dreal/contractor/contractor_status.h"
#include "dreal/contractor/generic_contractor_generator.h"
#include "dreal/solver/config.h"
#include "ibex_stub.h"
#include "sym.h"

namespace {
using namespace dreal;  // NOLINT
using std::vector;

struct F { Formula f; bool holds; };
struct World {
  Variable x{"x"}, y{"y"}, n{"n", Variable::Type::INTEGER};
  double w[3];
  Box box;
  Config config;
  vector<F> fs;
};
F formula(World& u) {
  const Variable &x = u.x, &y = u.y, &n = u.n;
  const double a = u.w[0], b = u.w[1], c = u.w[2];
  switch (sym_choice("formula", sym_cfg("formulas", 7))) {
    case 0: return {x >= 1, a >= 1};
    case 1: return {x + y == 2, a + b == 2};
    case 2: return {y <= n, b <= c};
    case 3: return {!(n > 2), c <= 2};
    case 4: return {2 * y != 3, 2 * b != 3};
    case 5: return {x * y < 1, a * b < 1};
    default: return {n - x >= y, c - a >= b};
  }
}
// A contractor and whether it may lose the witness.
struct C { Contractor c; bool keep; };
C leaf(World& u) {
  switch (sym_choice("leaf", sym_cfg("leaves", 5))) {
    case 0: { const F f = formula(u); u.fs.push_back(f); return {make_contractor_ibex_fwdbwd(f.f, u.box, u.config), f.holds}; }
    case 1: return {make_contractor_integer(u.box, u.config), std::floor(u.w[2]) == u.w[2]};
    case 2: { const F f = formula(u), g = formula(u); u.fs.push_back(f); u.fs.push_back(g); return {make_contractor_ibex_polytope({f.f, g.f}, u.box, u.config), f.holds && g.holds}; }
    case 3: {
      const F f = formula(u), g = formula(u);
      u.fs.push_back(f); u.fs.push_back(g);
      const bool conj = sym_choice("and", 2);
      Formula h = conj ? f.f && g.f : f.f || g.f;
      if (is_true(h) || is_false(h)) sym_end_();
      const bool neg = sym_choice("negated", 2);
      bool t = conj ? f.holds && g.holds : f.holds || g.holds;
      if (neg) { h = !h; t = !t; }
      return {GenericContractorGenerator{}.Generate(h, u.box, u.config), t};
    }
    default: return {make_contractor_id(u.config), true};
  }
}
C contractor(World& u) {
  const unsigned k = sym_choice("kind", sym_cfg("kinds", 5));
  if (k == 0) return leaf(u);
  const C a = leaf(u);
  C b = leaf(u);
  if (sym_cfg("nest", 0) && sym_choice("nest", 2)) { const C d = leaf(u); b = {make_contractor_seq({b.c, d.c}, u.config), b.keep && d.keep}; }
  const bool all = a.keep && b.keep;
  static int calls; calls = 0;
  const TerminationCondition t = [](Box::IntervalVector const&, Box::IntervalVector const&) { return ++calls > 1; };
  switch (k) {
    case 1: return {make_contractor_seq({a.c, b.c}, u.config), all};
    case 2: return {make_contractor_fixpoint(t, {a.c, b.c}, u.config), all};
    case 3: return {make_contractor_worklist_fixpoint(t, {a.c, b.c}, u.config), all};
    default: return {make_contractor_join({a.c, b.c}, u.config), a.keep || b.keep};
  }
}
}  // namespace

// Explanations: constraints along a chain of variables, in any order; the box
// is found empty at one of them.
static void explanations() {
  const unsigned len = 2 + sym_choice("length", sym_cfg("length", 3));
  vector<Variable> v;
  vector<double> w;
  static const char* names[] = {"a", "b", "c", "d", "e"};
  Box box;
  for (unsigned i = 0; i < len + 1; ++i) { v.emplace_back(names[i]); w.push_back(sym_double(names[i])); sym_assume(-9 <= w[i]); sym_assume(w[i] <= 9); box.Add(v[i], -9, 9); }
  // which variable comes when
  vector<unsigned> at;
  for (unsigned i = 0; i < len; ++i) {
    const unsigned k = sym_choice("variable", len);
    for (const unsigned o : at) if (o == k) sym_end_();
    at.push_back(k);
  }
  vector<F> fs;
  { const Variable &p = v[at[0]]; const double a = w[at[0]];
    if (sym_choice("first", 2)) fs.push_back({p >= 5, a >= 5}); else fs.push_back({p == 5, a == 5}); }
  for (unsigned i = 0; i + 1 < len; ++i) {
    const Variable &p = v[at[i]], &q = v[at[i + 1]];
    const double a = w[at[i]], b = w[at[i + 1]];
    if (sym_choice("link", 2)) fs.push_back({p <= q, a <= b}); else fs.push_back({p == q, a == b});
  }
  const Variable& l = v[at[len - 1]];
  fs.push_back(sym_choice("last", 2) ? F{l <= 0, w[at[len - 1]] <= 0} : F{!(l > 0), w[at[len - 1]] <= 0});
  if (sym_choice("other", 2)) fs.push_back({v[len] >= 1, w[len] >= 1});
  const unsigned empties = sym_choice("empties", len + 1);
  ContractorStatus cs{box};
  if (sym_choice("in branches", 2)) {  // the halves of the box are refuted one after the other
    ContractorStatus other{box};
    for (unsigned i = 0; i < fs.size(); ++i) if (i != empties) (sym_choice("branch", 2) ? cs : other).AddUsedConstraint(fs[i].f);
    cs.mutable_box().set_empty();
    other.mutable_box().set_empty();
    other.AddUsedConstraint(fs[empties].f);
    cs.InplaceJoin(other);
  } else {
    for (unsigned i = 0; i < fs.size(); ++i) if (i != empties) cs.AddUsedConstraint(fs[i].f);
    cs.mutable_box().set_empty();
    cs.AddUsedConstraint(fs[empties].f);
  }
  sym_reach("explained");
  bool all = true;
  for (const Formula& e : cs.Explanation()) {
    bool known = false;
    for (const F& f : fs) if (f.f.EqualTo(e)) { all = all & f.holds; known = true; break; }
    sym_assert(known, "the explanation consists of constraints that were used");
  }
  sym_assert(!all, "the explanation of an emptied box excludes every point");
}

void harness() {
  if (sym_cfg("what", 0) == 1) return explanations();
  World u;
  const double lo[3] = {-3, -10, 0.5}, hi[3] = {4, 10, 7.5};
  const bool half = sym_choice("halves", 2);  // the integer domain has integer bounds or not
  const Variable* vs[3] = {&u.x, &u.y, &u.n};
  static const char* names[] = {"x", "y", "n"};
  for (int i = 0; i < 3; ++i) {
    u.box.Add(*vs[i]);
    const double l = i == 2 && !half ? 0 : lo[i], h = i == 2 && !half ? 7 : hi[i];
    u.w[i] = i == 2 ? (sym_choice("n", 2) ? 2.0 : 5.0) : sym_double(names[i]);
    sym_assume(l <= u.w[i]); sym_assume(u.w[i] <= h);
    u.box[i].bounds(l, h);
    u.box[i].pin(u.w[i]);
  }
  if (sym_cfg("polytope", 0)) u.config.mutable_use_polytope() = true;
  const C c = contractor(u);
  ContractorStatus cs{u.box, static_cast<int>(sym_choice("branch", sym_cfg("branches", 1))) - 1};
  const Box old{u.box};
  c.c.Prune(&cs);
  sym_reach("pruned");
  const Box& now = cs.box();
  bool in = !now.empty();
  for (int i = 0; i < 3; ++i) {
    if (!now.empty()) {
      sym_assert(old[i].lb() <= now[i].lb() && now[i].ub() <= old[i].ub() && now[i].lb() <= now[i].ub(), "the box only shrinks");
      in = in && now[i].lb() <= u.w[i] && u.w[i] <= now[i].ub();
      const Contractor::Kind k = c.c.kind();
      const bool reports = k == Contractor::Kind::ID || k == Contractor::Kind::IBEX_FWDBWD || k == Contractor::Kind::IBEX_POLYTOPE || k == Contractor::Kind::INTEGER || k == Contractor::Kind::SEQ;
      if (reports) sym_assert((now[i].lb() == old[i].lb() && now[i].ub() == old[i].ub()) || cs.output()[i], "a changed dimension is reported");
    }
  }
  if (c.keep) sym_assert(in, "no point that satisfies the constraints is lost");
  if (now.empty()) {
    sym_reach("emptied");
    bool all = true;
    const std::set<Formula> ex{cs.Explanation()};
    size_t known = 0;
    for (const Formula& e : ex) {
      for (const F& f : u.fs) {
        if (f.f.EqualTo(e)) { if (!f.holds) all = false; ++known; break; }
      }
    }
    if (known == ex.size()) sym_assert(!all, "the explanation of an emptied box excludes every point");
  }
}
