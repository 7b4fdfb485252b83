// Structural equality, ordering and hashing of expressions, formulas and
// variables.
#include <map>
#include <set>
#include "gen.h"
using namespace gen;

static Expression pick(const Env& env, const Variable& z, const char* nm, bool consts) {
  const Expression x{env.x}, y{env.y};
  auto c = [&]() { if (sym_cfg("consts", 1) == 2) return 2.5; if (!consts) return sym_choice("c", 2) ? 2.5 : -3.0; sym_link_(); double v = sym_double("c"); sym_assume(std::isfinite(v)); sym_assume(v != M_PI && v != M_E && v != -M_PI && v != -M_E); return v; };
  switch (sym_choice(nm, 22)) {
    case 0: return x;
    case 1: return y;
    case 2: return Expression{c()};
    case 3: return x + c();
    case 4: return c() * x;
    case 5: return x * y;
    case 6: return x + c() * y;
    case 7: return pow(x, Expression{c()});
    case 8: return pow(x, y);
    case 9: return x / c();
    case 10: return sin(x);
    case 11: return cos(c() * x);
    case 12: return min(x, y);
    case 13: return min(y, x);
    case 14: return if_then_else(x > c(), x, y);
    case 15: return if_then_else(y <= 1.0, x, Expression{c()});
    case 16: return uninterpreted_function("f", Variables{env.x});
    case 17: return uninterpreted_function("f", Variables{env.x, env.y});
    case 18: return uninterpreted_function("g", Variables{env.x});
    case 19: return Expression{z};
    case 20: return Expression::NaN();
    default: return Expression::Pi();
  }
}
static Formula pickF(const Env& env, const char* nm, bool consts) {
  const Expression x{env.x}, y{env.y};
  auto c = [&]() { if (sym_cfg("consts", 1) == 2) return 2.5; if (!consts) return sym_choice("c", 2) ? 2.5 : -3.0; sym_link_(); double v = sym_double("c"); sym_assume(std::isfinite(v)); sym_assume(v != M_PI && v != M_E && v != -M_PI && v != -M_E); return v; };
  switch (sym_choice(nm, 34)) {
    case 0: return Formula::True();
    case 1: return Formula::False();
    case 2: return Formula{env.p};
    case 3: return Formula{env.q};
    case 4: return x == c();
    case 5: return x != c();
    case 6: return x > c();
    case 7: return x >= c();
    case 8: return x < c();
    case 9: return x <= c();
    case 10: return x <= y;
    case 11: return y <= x;
    case 12: return !(x > c());
    case 13: return x > c() && env.p;
    case 14: return x > c() || env.p;
    case 15: return x > y && y > c() && env.q;
    case 16: return forall({env.x}, x > c());
    case 17: return forall({env.y}, x > y);
    case 18: return forall({env.x}, x > y);
    case 19: return forall({env.x}, x < y);
    case 20: return forall({env.y}, x < y);
    case 21: return forall({env.x, env.y}, x > y);
    case 22: return forall({env.x, env.y}, x < y);
    case 23: return forall({env.p}, env.p || x > c());
    case 24: return forall({env.q}, env.q || x > c());
    case 25: return forall({env.p, env.x}, env.p || x > c());
    case 26: return env.p && env.q;
    case 27: return env.p || env.q;
    case 28: return env.p || env.q || x > c();
    case 29: return env.p && !Formula{env.q} && x > c();
    case 30: return !Formula{env.p};
    case 31: return !(env.p && x > c());
    case 32: return !forall({env.x}, x > y);
    default: return forall({env.y}, x > y) && env.p;
  }
}

template <typename T>
static void relations(const T& a, const T& b, const T& c) {
  const bool ab = a.Less(b), ba = b.Less(a), eq = a.EqualTo(b);
  sym_reach("compared");
  sym_assert(!a.Less(a) && a.EqualTo(a), "nothing is below itself and everything equals itself");
  sym_assert(eq == b.EqualTo(a), "equality is symmetric");
  sym_assert(int(ab) + int(ba) + int(eq) == 1, "exactly one of less, greater, equal");
  if (eq) sym_assert(a.get_hash() == b.get_hash(), "equal objects have equal hashes");
  const bool bc = b.Less(c);
  if (ab && bc) sym_assert(a.Less(c), "the order is transitive");
  const bool eq2 = b.EqualTo(c);
  if (eq && eq2) sym_assert(a.EqualTo(c), "equality is transitive");
  if (eq && bc) sym_assert(a.Less(c), "equal objects are ordered alike");
  if (ab && eq2) sym_assert(a.Less(c), "equal objects are ordered alike (right)");
}

void harness() {
  Env env;
  const Variable z{"x"};  // same name as env.x, different identity
  const bool consts = sym_cfg("consts", 1);
  switch (sym_cfg("what", 0)) {
    case 0: {
      const Expression a{pick(env, z, "a", consts)}, b{pick(env, z, "b", consts)};
      const Expression c{sym_cfg("triple", 0) ? pick(env, z, "k", consts) : sym_choice("k", 2) ? a + env.x : Expression{env.y}};
      relations(a, b, c);
      // equal structure means equal value; containers agree with equality
      if (a.EqualTo(b)) {
        std::set<Expression> s{a, b};
        sym_assert(s.size() == 1, "a set keeps one of two equal expressions");
      } else {
        std::map<Expression, int> m; m[a] = 1; m[b] = 2;
        sym_assert(m.size() == 2 && m[a] == 1 && m[b] == 2, "a map tells different expressions apart");
      }
      break;
    }
    case 1: {
      const Formula a{pickF(env, "a", consts)}, b{pickF(env, "b", consts)};
      const Formula c{sym_cfg("triple", 0) ? pickF(env, "k", consts) : sym_choice("k", 2) ? a && env.q : Formula{env.p}};
      relations(a, b, c);
      if (a.EqualTo(b)) {
        std::set<Formula> s{a, b};
        sym_assert(s.size() == 1, "a set keeps one of two equal formulas");
      }
      break;
    }
    case 2: {  // interval constants, bit-exact
      sym_link_();
      auto rc = [&]() { const double lb = sym_double("lb"); sym_assume(std::isfinite(lb)); const double ub = std::nextafter(lb, HUGE_VAL); sym_assume(std::isfinite(ub)); sym_assume(lb != 0 && ub != 0); return real_constant(lb, ub, sym_choice("lbrep", 2)); };
      const Expression a{rc()}, b{rc()}, c{rc()};
      relations(a, b, c);
      break;
    }
    case 3: {  // bit-exact: doubles as constants (signed zero, huge, subnormal)
      sym_link_();
      auto k = [&]() { const double v = sym_double("c"); sym_assume(std::isfinite(v)); sym_assume(std::fabs(v) != M_PI && std::fabs(v) != M_E); return v; };
      const unsigned sh = sym_cfg("shape", 0);
      auto mk = [&](double v) { return sh == 0 ? Expression{v} : sh == 1 ? env.x + v : v * Expression{env.x}; };
      const double u = k(), v = k(), w = k();
      const Expression a{mk(u)}, b{mk(v)}, c{mk(w)};
      relations(a, b, c);
      if (sh == 0) { sym_assert(a.EqualTo(b) == (u == v), "constants are equal iff their values are"); sym_assert(a.Evaluate() == u, "a constant evaluates to itself"); }
      break;
    }
    default: {  // variables: identity, order, hash
      const Variable d{};
      const Variable vs[] = {env.x, env.y, z, env.p, env.q, d};
      const Variable &a = vs[sym_choice("a", 6)], &b = vs[sym_choice("b", 6)], &c = vs[sym_choice("k", 6)];
      const bool ab = a.less(b), ba = b.less(a), eq = a.equal_to(b);
      sym_reach("compared");
      sym_assert(int(ab) + int(ba) + int(eq) == 1, "exactly one of less, greater, equal");
      if (eq) sym_assert(a.get_hash() == b.get_hash() && a.get_name() == b.get_name() && a.get_type() == b.get_type(), "equal variables agree");
      if (ab && b.less(c)) sym_assert(a.less(c), "the order is transitive");
      Variable e{a};
      sym_assert(e.equal_to(a), "a copy is the same variable");
      e = b;
      sym_assert(e.equal_to(b), "assignment copies the identity");
      const Variable f{a.get_name().empty() ? "n" : a.get_name(), a.is_dummy() ? Variable::Type::CONTINUOUS : a.get_type()};
      for (const Variable& v : vs) sym_assert(!f.equal_to(v), "a new variable differs from all others");
      sym_assert(d.is_dummy() && !f.is_dummy(), "only the default-constructed variable is a dummy");
    }
  }
}
