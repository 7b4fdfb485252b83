// Variables, environments, and the attributes of expressions and formulas.
#include <set>
#include "gen.h"
using namespace gen;
using std::set;

// Independent recursion over a built expression.
static bool polyE(const Expression& e) {
  if (is_constant(e) || is_variable(e)) return true;
  if (is_addition(e)) { for (const auto& p : get_expr_to_coeff_map_in_addition(e)) if (!polyE(p.first)) return false; return true; }
  auto nat = [](const Expression& k) { if (!is_constant(k)) return false; const double v = get_constant_value(k); return v >= 0 && std::floor(v) == v; };
  if (is_multiplication(e)) { for (const auto& p : get_base_to_exponent_map_in_multiplication(e)) if (!polyE(p.first) || !nat(p.second)) return false; return true; }
  if (is_pow(e)) return polyE(get_first_argument(e)) && nat(get_second_argument(e));
  if (is_division(e)) return polyE(get_first_argument(e)) && is_constant(get_second_argument(e));
  return false;
}
static bool iteF(const Formula& f);
static bool iteE(const Expression& e) {
  if (is_if_then_else(e)) return true;
  if (is_constant(e) || is_variable(e)) return false;
  if (is_addition(e)) { for (const auto& p : get_expr_to_coeff_map_in_addition(e)) if (iteE(p.first)) return true; return false; }
  if (is_multiplication(e)) { for (const auto& p : get_base_to_exponent_map_in_multiplication(e)) if (iteE(p.first) || iteE(p.second)) return true; return false; }
  if (is_pow(e) || is_division(e) || is_min(e) || is_max(e) || is_atan2(e)) return iteE(get_first_argument(e)) || iteE(get_second_argument(e));
  return iteE(get_argument(e));
}
static bool iteF(const Formula& f) {
  if (is_relational(f)) return iteE(get_lhs_expression(f)) || iteE(get_rhs_expression(f));
  if (is_negation(f)) return iteF(get_operand(f));
  if (is_conjunction(f) || is_disjunction(f)) { for (const Formula& g : get_operands(f)) if (iteF(g)) return true; return false; }
  if (is_forall(f)) return iteF(get_quantified_formula(f));
  return false;
}
static void varsE(const Expression& e, set<Variable>& s);
static void varsF(const Formula& f, set<Variable>& s) {
  if (is_variable(f)) s.insert(get_variable(f));
  else if (is_relational(f)) { varsE(get_lhs_expression(f), s); varsE(get_rhs_expression(f), s); }
  else if (is_negation(f)) varsF(get_operand(f), s);
  else if (is_conjunction(f) || is_disjunction(f)) for (const Formula& g : get_operands(f)) varsF(g, s);
  else if (is_forall(f)) { set<Variable> t; varsF(get_quantified_formula(f), t); for (const Variable& v : get_quantified_variables(f)) t.erase(v); s.insert(t.begin(), t.end()); }
}
static void varsE(const Expression& e, set<Variable>& s) {
  if (is_constant(e)) return;
  if (is_variable(e)) { s.insert(get_variable(e)); return; }
  if (is_addition(e)) { for (const auto& p : get_expr_to_coeff_map_in_addition(e)) varsE(p.first, s); return; }
  if (is_multiplication(e)) { for (const auto& p : get_base_to_exponent_map_in_multiplication(e)) { varsE(p.first, s); varsE(p.second, s); } return; }
  if (is_pow(e) || is_division(e) || is_min(e) || is_max(e) || is_atan2(e)) { varsE(get_first_argument(e), s); varsE(get_second_argument(e), s); return; }
  if (is_if_then_else(e)) { varsF(get_conditional_formula(e), s); varsE(get_then_expression(e), s); varsE(get_else_expression(e), s); return; }
  varsE(get_argument(e), s);
}
static bool same(const Variables& v, const set<Variable>& s) {
  return v.size() == s.size() && std::equal(v.begin(), v.end(), s.begin(), [](const Variable& a, const Variable& b) { return a.equal_to(b); });
}
static bool polyTree(const Node* n) {
  switch (n->op) {
    case X: case Y: case C: case K: return true;
    case ADD: case SUB: case MUL: return polyTree(n->a) && polyTree(n->b);
    case NEG: return polyTree(n->a);
    case POW: return polyTree(n->a) && n->b->op == K && n->b->c >= 0 && std::floor(n->b->c) == n->b->c;
    default: return false;
  }
}

static unsigned pop4(unsigned m) { return (m & 1) + (m >> 1 & 1) + (m >> 2 & 1) + (m >> 3 & 1); }
template <typename F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }

void harness() {
  switch (sym_cfg("what", 0)) {
    case 0: {  // attributes of expressions
      Env env; Gen g; sym_link_();
      g.ops = {ADD, SUB, MUL, DIV, POW, NEG, SIN, ABS, MIN, ATAN2, ITE};
      g.fixed_expo = true; g.expos = {2, -1, 0.5, 3, 0};
      if (!sym_cfg("c", 1)) g.leaves = {X, Y, K};
      Node* n = sym_cfg("depth", 1) == 1 ? g.tree(1) : g.spine(2);
      env.draw();
      eval(n, env);
      const Expression e{build(n, env)};
      sym_reach("built");
      sym_assert(e.is_polynomial() == polyE(e), "polynomial flag");
      if (polyTree(n)) sym_assert(e.is_polynomial(), "a polynomial is recognised");
      sym_assert(e.include_ite() == iteE(e), "if-then-else flag");
      set<Variable> s; varsE(e, s);
      sym_assert(same(e.GetVariables(), s), "variables of an expression are those that occur in it");
      bool ox = false, oy = false; occurs(n, ox, oy);
      sym_assert((ox || !s.count(env.x)) && (oy || !s.count(env.y)), "no variable appears from nowhere");
      // needs a value for each of its variables, and nothing else
      for (const Variable& v : s) {
        Environment part;
        for (const Variable& w : s) if (!w.equal_to(v)) part.insert(w, env.e[w]);
        if (!iteE(e)) sym_assert(throws([&] { e.Evaluate(part); }), "a missing variable is reported");
      }
      break;
    }
    case 1: {  // attributes of formulas
      Env env; Gen g;
      g.leaves = {X, Y, K};
      Node* l = nullptr;
      switch (sym_choice("l", 4)) {
        case 0: l = leaf(X); break;
        case 1: l = bin(ADD, leaf(X), leaf(Y)); break;
        case 2: l = ite(rel(FGT_, g.atom(), leaf(Y)), leaf(X), konst(2)); break;
        default: l = un(SIN, ite(sym_choice("b", 2) ? fvar(0) : rel(FEQ_, leaf(X), konst(1)), konst(2), g.atom()));
      }
      FNode* r = rel(static_cast<FOp>(FEQ_ + sym_choice("rel", 6)), l, sym_choice("rhs", 2) ? leaf(Y) : konst(1));
      FNode* n = r;
      switch (sym_choice("top", 5)) {
        case 1: n = fop(FNOT, r); break;
        case 2: n = fop(FAND, r, fvar(sym_choice("v", 2))); break;
        case 3: n = fop(FOR, fop(FNOT, fvar(0)), r); break;
        case 4: n = fop(FOR, r, fop(FAND, fvar(0), fvar(1))); break;
        default: break;
      }
      Formula f{buildF(n, env)};
      const unsigned q = sym_choice("forall", 4);
      if (q) f = forall(q == 1 ? Variables{env.y} : q == 2 ? Variables{env.x, env.y} : Variables{env.x, env.p}, f);
      if (q && sym_choice("negq", 2)) f = !f;
      sym_reach("built");
      set<Variable> s; varsF(f, s);
      sym_assert(same(f.GetFreeVariables(), s), "free variables of a formula are those that occur free in it");
      sym_assert(f.include_ite() == iteF(f), "if-then-else flag");
      break;
    }
    case 2: {  // set algebra of variables
      const Variable v[4] = {Variable{"a"}, Variable{"b", Variable::Type::INTEGER}, Variable{"a"}, Variable{"p", Variable::Type::BOOLEAN}};
      const unsigned one = sym_choice("v", 4);
      // membership of each variable in each set is a solver variable
      bool inA[4], inB[4]; unsigned A = 0, B = 0;
      for (int i = 0; i < 4; ++i) { inA[i] = sym_bool("inA"); inB[i] = sym_bool("inB"); A |= unsigned(inA[i]) << i; B |= unsigned(inB[i]) << i; }
      auto mk = [&](const bool* m) { Variables s; const bool rev = m[0]; for (int i = 0; i < 4; ++i) { const int k = rev ? 3 - i : i; if (m[k]) s.insert(v[k]); } return s; };
      auto is = [&](const Variables& s, unsigned m) { unsigned r = 0; for (int i = 0; i < 4; ++i) if (s.include(v[i])) r |= 1u << i; unsigned c = 0; for (const Variable& w : s) { (void)w; ++c; } return r == m && c == s.size() && c == pop4(m) && s.empty() == (m == 0); };
      const Variables a{mk(inA)}, b{mk(inB)};
      sym_reach("built");
      sym_assert(is(a, A) && is(b, B), "insertion");
      sym_assert(is(a + b, A | B) && is(a - b, A & ~B) && is(intersect(a, b), A & B), "union, difference, intersection");
      sym_assert(is(a + v[one], A | 1u << one) && is(v[one] + a, A | 1u << one) && is(a - v[one], A & ~(1u << one)), "adding and removing one variable");
      Variables c{a}; c += b; Variables d{a}; d -= b; Variables e{a}; const auto k = e.erase(b); Variables f{a}; f.insert(b); Variables h{a}; const auto k1 = h.erase(v[one]);
      sym_assert(is(c, A | B) && is(d, A & ~B) && is(e, A & ~B) && is(f, A | B) && k == pop4(A & B), "updates in place");
      sym_assert(is(h, A & ~(1u << one)) && k1 == (A >> one & 1), "erasing one variable");
      sym_assert(is(a, A) && is(b, B), "operands are not changed");
      sym_assert((a == b) == (A == B), "equality");
      if (A == B) sym_assert(a.get_hash() == b.get_hash(), "equal sets have equal hashes");
      sym_assert(a.IsSubsetOf(b) == ((A & ~B) == 0) && a.IsSupersetOf(b) == ((B & ~A) == 0), "subset and superset");
      sym_assert(a.IsStrictSubsetOf(b) == ((A & ~B) == 0 && A != B) && a.IsStrictSupersetOf(b) == ((B & ~A) == 0 && A != B), "strict subset and superset");
      sym_assert(int(a < b) + int(b < a) + int(a == b) == 1, "sets are totally ordered");
      Variables z{a}; z += z; sym_assert(is(z, A), "union with itself");
      Variables y{a}; y -= y; sym_assert(is(y, 0), "difference with itself");
      break;
    }
    default: {  // environments
      const Variable x{"x"}, y{"y"}, d{};
      const double u = sym_double("u"), w = sym_double("w");
      const bool nan = std::isnan(u);
      sym_reach("built");
      Environment e;
      const bool t = throws([&] { e.insert(x, u); });
      sym_assert(t == nan, "NaN is refused, anything else is accepted");
      sym_assert(throws([&] { Environment q{{x, u}}; }) == nan, "list construction refuses NaN");
      sym_assert(throws([&] { Environment::map m; m.emplace(x, u); Environment q{std::move(m)}; }) == nan, "map construction refuses NaN");
      sym_assert(throws([&] { e.insert(d, 1.0); }) && throws([&] { Environment q{{d, 1.0}}; }) && throws([&] { Environment q{d}; }) && throws([&] { e[d]; }), "the dummy variable is refused");
      if (nan) { sym_assert(e.empty() && e.size() == 0, "nothing is stored"); break; }
      sym_assert(e.size() == 1 && !e.empty() && e[x] == u, "insertion stores the value");
      const Environment& ce = e;
      sym_assert(ce[x] == u && throws([&] { ce[y]; }), "a missing key is reported");
      sym_assert(e.domain() == Variables{x}, "the domain");
      if (!std::isnan(w)) {
        e.insert(x, w);
        sym_assert(e[x] == u, "insert does not overwrite");
        e.insert(y, w);
        sym_assert(e.size() == 2 && e[y] == w && e[x] == u && e.domain() == (Variables{x, y}), "two variables");
        sym_assert(e.find(y) != e.end() && e.find(x)->second == u, "find");
        sym_assert(Expression{x}.Evaluate(e) == u && throws([&] { Expression{Variable{"x"}}.Evaluate(e); }), "evaluation looks the variable up by identity");
      }
      const Environment f{x, y};
      sym_assert(f[x] == 0 && f[y] == 0, "variables listed without value are zero");
    }
  }
}
