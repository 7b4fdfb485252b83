// Formulas: construction, substitution, delta-perturbation, syntactic classes.
#include "fshape.h"
#include "dreal/util/exception.h"
using namespace gen;
using std::set;

// Reference for delta-strengthening (d > 0) and weakening (d < 0); s is the
// polarity of the current position.
static bool deltaEval(const FNode* n, const Env& env, double d) {
  switch (n->op) {
    case FTRUE: return true;
    case FFALSE: return false;
    case FVAR: return n->var ? env.bq : env.bp;
    case FNOT: return !deltaEval(n->g, env, -d);
    case FAND: { bool a = deltaEval(n->g, env, d), b = deltaEval(n->h, env, d); return a && b; }
    case FOR: { bool a = deltaEval(n->g, env, d), b = deltaEval(n->h, env, d); return a || b; }
    case FIMPLY: { bool a = deltaEval(n->g, env, -d), b = deltaEval(n->h, env, d); return !a || b; }
    case FIFF: { bool a = deltaEval(n->g, env, d), b = deltaEval(n->h, env, d), c = deltaEval(n->g, env, -d), e = deltaEval(n->h, env, -d); return (!c || b) && (!e || a); }
    default: break;
  }
  const double l = eval(n->a, env), r = eval(n->b, env);
  switch (n->op) {
    case FEQ_: return d > 0 ? l == r : (l >= r + d && l <= r - d);
    case FNE_: return d > 0 ? (l > r + d || l < r - d) : true;
    case FGT_: return l > r + d;
    case FGE_: return l >= r + d;
    case FLT_: return l + d < r;
    default: return l + d <= r;
  }
}

// Reference for the syntactic classes, by structure.
static bool literal(const Formula& f) { return is_negation(f) ? !is_conjunction(get_operand(f)) && !is_disjunction(get_operand(f)) : !is_conjunction(f) && !is_disjunction(f); }
static bool clause(const Formula& f) {
  if (!is_disjunction(f)) return literal(f);
  for (const Formula& g : get_operands(f)) if (!literal(g)) return false;
  return true;
}
static bool cnf(const Formula& f) {
  if (!is_conjunction(f)) return clause(f);
  for (const Formula& g : get_operands(f)) if (!clause(g)) return false;
  return true;
}

void harness() {
  Env env;
  Gen g;
  FNode* n = sym_cfg("what", 0) == 7 ? fconst(true) : shape(g);
  env.draw(); env.draw_bools();
  switch (sym_cfg("what", 0)) {
    case 0: {  // construction
      const bool r = evalF(n, env);
      sym_reach("defined");
      const Formula f{buildF(n, env)};
      sym_assert(f.Evaluate(env.e) == r, "formula evaluates like its meaning");
      const Formula nf{!f};
      sym_assert(nf.Evaluate(env.e) == !r, "negation");
      sym_assert((!nf).EqualTo(f), "double negation gives the formula back");
      bool ox = false, oy = false;
      occursF(n, ox, oy);
      sym_assert((ox || !f.GetFreeVariables().include(env.x)) && (oy || !f.GetFreeVariables().include(env.y)), "free variables occur in the formula");
      Environment only;
      for (const Variable& v : f.GetFreeVariables()) only.insert(v, env.e[v]);
      sym_assert(f.Evaluate(only) == r, "the free variables determine the value");
      break;
    }
    case 1: {  // substitution
      Gen h; h.tag = "s"; h.ops = {ADD}; h.leaves = {Y, C}; if (!sym_cfg("sc", 1)) h.leaves = {Y, K};
      Node* sx = h.tree(sym_cfg("sdepth", 0));
      FNode* sp = nullptr;
      const unsigned kp = sym_choice("sp", 5);
      if (kp == 1) sp = fvar(1);
      if (kp == 2) sp = fop(FNOT, fvar(1));
      if (kp == 3) sp = rel(FLE_, leaf(X), leaf(Y));
      if (kp == 4) sp = fconst(true);
      Env moved = env;
      moved.vx = eval(sx, env);
      if (sp) moved.bp = evalF(sp, env);
      const bool r = evalF(n, moved);
      sym_reach("defined");
      const Formula f{buildF(n, env)};
      ExpressionSubstitution es; es.emplace(env.x, build(sx, env));
      FormulaSubstitution fs; if (sp) fs.emplace(env.p, buildF(sp, env));
      const Formula t{f.Substitute(es, fs)};
      sym_assert(t.Evaluate(env.e) == r, "substitution evaluates like the original under the moved environment");
      if (!sp) {
        sym_assert(f.Substitute(env.x, build(sx, env)).EqualTo(t), "single substitution agrees");
        sym_assert(f.Substitute(es).EqualTo(t), "expression-only substitution agrees");
      }
      break;
    }
    case 2: {  // delta
      const double d = sym_double("delta");
      sym_assume(d > 0 && d < 1e6);
      const bool r = evalF(n, env);
      const bool ite_inside = (n->a && hasIte(n->a));
      sym_reach("defined");
      const Formula f{buildF(n, env)};
      const bool s = DeltaStrengthen(f, d).Evaluate(env.e), w = DeltaWeaken(f, d).Evaluate(env.e);
      sym_assert(!s || r, "the strengthened formula implies the formula");
      sym_assert(!r || w, "the formula implies the weakened formula");
      if (!ite_inside && (n->op >= FNOT || is_relational(f))) {
        sym_assert(s == deltaEval(n, env, d), "strengthening moves every bound by delta");
        sym_assert(w == deltaEval(n, env, -d), "weakening moves every bound by delta");
      }
      break;
    }
    case 3: {  // syntactic classes
      const Formula f{buildF(n, env)};
      sym_reach("defined");
      sym_assert(is_atomic(f) == literal(f) || is_negation(f), "atomic formulas have no connective");
      sym_assert(is_clause(f) == clause(f), "clause recognition");
      sym_assert(is_cnf(f) == cnf(f), "CNF recognition");
      if (cnf(f)) {
        const set<Formula> cs{get_clauses(f)};
        bool all = true;
        for (const Formula& c : cs) { sym_assert(clause(c), "clauses of a CNF are clauses"); all = all & c.Evaluate(env.e); }
        sym_assert(all == f.Evaluate(env.e), "a CNF is the conjunction of its clauses");
      }
      if (IsDifferentiable(f)) {
        // every side can be differentiated
        struct D { static void go(const Formula& f, const Env& env) {
          if (is_relational(f)) { get_lhs_expression(f).Differentiate(env.x); get_rhs_expression(f).Differentiate(env.x); }
          else if (is_negation(f)) go(get_operand(f), env);
          else if (is_conjunction(f) || is_disjunction(f)) for (const Formula& h : get_operands(f)) go(h, env); } };
        D::go(f, env);
      }
      break;
    }
    case 4: {  // n-ary constructors, value semantics of the binary ones
      FNode* m = shape(g);
      const bool r1 = evalF(n, env), r2 = evalF(m, env);
      sym_reach("defined");
      const Formula f{buildF(n, env)}, h{buildF(m, env)};
      const Formula f0{f}, h0{h};
      const Formula p{env.p};
      sym_assert(make_conjunction(vector<Formula>{f, p, h}).Evaluate(env.e) == (r1 && env.bp && r2), "conjunction of a list");
      sym_assert(make_disjunction(vector<Formula>{f, p, h}).Evaluate(env.e) == (r1 || env.bp || r2), "disjunction of a list");
      sym_assert(make_conjunction(set<Formula>{f, p, h}).Evaluate(env.e) == (r1 && env.bp && r2), "conjunction of a set");
      sym_assert(make_disjunction(set<Formula>{f, p, h}).Evaluate(env.e) == (r1 || env.bp || r2), "disjunction of a set");
      sym_assert((f == h).Evaluate(env.e) == (r1 == r2), "equality of formulas");
      sym_assert((f != h).Evaluate(env.e) == (r1 != r2), "disequality of formulas");
      // the forms that may reuse their operands: each operand is a conjunction,
      // a disjunction or f, h themselves, shared 0, 1 or 2 times, and named or expiring
      auto operand = [&](unsigned k) { return k == 0 ? f && h : k == 1 ? f || h : k == 2 ? f : !h; };
      auto value = [&](unsigned k) { return k == 0 ? r1 & r2 : k == 1 ? r1 | r2 : k == 2 ? r1 : !r2; };
      const unsigned ka = sym_choice("ka", 4), kb = sym_choice("kb", 5);
      Formula a{operand(ka)};
      Formula b{kb == 4 ? a : operand(kb)};  // 4: aliased
      const bool va = value(ka), vb = kb == 4 ? va : value(kb);
      const Formula a0{operand(ka)}, b0{kb == 4 ? a0 : operand(kb)};  // own cells
      vector<Formula> sa, sb;
      const unsigned copies = sym_choice("copies", 3);
      for (unsigned i = 0; i < copies; ++i) { sa.push_back(a); sb.push_back(b); }
      const bool conj = sym_choice("conj", 2);
      const unsigned how = sym_choice("how", 4);
      const Formula res = how == 0 ? (conj ? a && b : a || b) : how == 1 ? (conj ? std::move(a) && b : std::move(a) || b) :
                          how == 2 ? (conj ? a && std::move(b) : a || std::move(b)) : (conj ? std::move(a) && std::move(b) : std::move(a) || std::move(b));
      sym_assert(res.Evaluate(env.e) == (conj ? va & vb : va | vb), "the result has the value of the operation");
      for (const Formula& c : sa) { sym_assert(c.Evaluate(env.e) == va, "a formula that shared its parts is not changed"); sym_assert(c.EqualTo(a0), "a formula that shared its parts keeps its structure"); }
      for (const Formula& c : sb) { sym_assert(c.Evaluate(env.e) == vb, "a formula that shared its parts is not changed"); sym_assert(c.EqualTo(b0), "a formula that shared its parts keeps its structure"); }
      if (how == 0 || how == 2) sym_assert(a.Evaluate(env.e) == va && a.EqualTo(a0), "a named operand is not changed");
      if (how < 2 && !(kb == 4 && how == 1)) sym_assert(b.Evaluate(env.e) == vb && b.EqualTo(b0), "a named operand is not changed");
      sym_assert(f.EqualTo(f0) && h.EqualTo(h0), "operands are not changed");
      // a second operation on the same objects
      const Formula again{a0 && res};
      sym_assert(again.Evaluate(env.e) == (va & (conj ? va & vb : va | vb)), "conjunction with the result");
      sym_assert(res.Evaluate(env.e) == (conj ? va & vb : va | vb), "the result is not changed by using it");
      sym_assert(f.Evaluate(env.e) == r1 && h.Evaluate(env.e) == r2, "operands still evaluate the same");
      break;
    }
    case 7: {  // differentiability: a part in every position of every kind of expression
      const Expression x{env.x}, y{env.y};
      // the part, differentiable or not
      auto part = [&](unsigned k) -> Expression {
        switch (k) {
          case 0: return y;
          case 1: return if_then_else(env.y > 0, Expression{env.y}, Expression{1.0});
          case 2: return abs(y);
          case 3: return min(x, y);
          case 4: return max(x, 1.0);
          case 5: return uninterpreted_function("f", Variables{env.x, env.y});
          default: return sin(y) + 1.0;
        } };
      const unsigned kp = sym_choice("part", 7);
      const Expression h{part(kp)};
      auto place = [&](unsigned k, const Expression& h) -> Expression {
        switch (k) {
          case 0: return h;
          case 1: return x + 2 * h + 1;
          case 2: return x * h;
          case 3: return x * pow(y + 2, h);
          case 4: return x * pow(h, 3);
          case 5: return pow(x, h);
          case 6: return pow(h, y);
          case 7: return x / h;
          case 8: return h / (x + 1);
          case 9: return log(h);
          case 10: return exp(h);
          case 11: return sqrt(h);
          case 12: return sin(h);
          case 13: return cos(h);
          case 14: return tan(h);
          case 15: return asin(h);
          case 16: return acos(h);
          case 17: return atan(h);
          case 18: return atan2(h, x);
          case 19: return atan2(x, h);
          case 20: return sinh(h);
          case 21: return cosh(h);
          default: return tanh(h);
        } };
      Expression e{place(sym_choice("place", 23), h)};
      if (sym_choice("deep", 2)) e = x * y + pow(exp(e), 2);
      const FOp o = static_cast<FOp>(FEQ_ + sym_choice("rel", 2));
      const bool left = sym_choice("left", 2);
      const Expression l{left ? e : x}, r{left ? x : e};
      const Formula atom{o == FEQ_ ? l == r : l != r};
      const Formula b{env.p};
      const unsigned w = sym_choice("wrap", 4);
      const Formula f{w == 0 ? atom : w == 1 ? !(atom && b) : w == 2 ? atom || b : b && (x > 0 || atom)};
      sym_reach("defined");
      const bool smooth = kp == 0 || kp == 6;
      if (smooth) { sym_assert(IsDifferentiable(e), "an expression of differentiable parts is differentiable"); sym_assert(IsDifferentiable(f), "a formula of differentiable parts is differentiable"); }
      struct D { static bool ok(const Expression& e, const Env& env) { try { e.Differentiate(env.x); e.Differentiate(env.y); return true; } catch (const std::exception&) { return false; } } };
      if (IsDifferentiable(e)) sym_assert(D::ok(e, env), "an expression reported differentiable can be differentiated");
      if (IsDifferentiable(f)) sym_assert(D::ok(e, env), "every part of a formula reported differentiable can be differentiated");
      break;
    }
    default: {  // quantified formulas
      const Formula f{buildF(n, env)};
      const Formula q{forall({env.y}, f)};
      sym_reach("defined");
      sym_assert(!q.GetFreeVariables().include(env.y), "bound variables are not free");
      Variables fv{f.GetFreeVariables()};
      fv.erase(env.y);
      sym_assert(q.GetFreeVariables() == fv, "free variables of a quantified formula");
      if (is_forall(q)) {
        Gen h; h.tag = "s"; h.leaves = {X, C};
        const Variable z{"z"};
        const unsigned k = sym_choice("s", 2);
        const Expression s{k == 0 ? Expression{env.x} + 1 : Expression{z} * 2};
        // the bound variable is untouched
        sym_assert(q.Substitute(env.y, s).EqualTo(q), "a bound variable is not substituted");
        const Formula t{q.Substitute(env.x, s)};
        sym_assert(t.EqualTo(forall({env.y}, f.Substitute(env.x, s))) || is_true(t) || is_false(t), "substitution goes under the quantifier");
        ExpressionSubstitution both; both.emplace(env.x, s); both.emplace(env.y, s);
        sym_assert(q.Substitute(both, FormulaSubstitution{}).EqualTo(t), "a simultaneous substitution skips the bound variable only");
        sym_assert((!q).Substitute(env.x, s).EqualTo(!t), "negated quantified formula");
      }
      // a Boolean variable bound, another free, with every kind of substitution for either
      for (int k = 0; k < 2; ++k) {
        const Variables bound = k == 0 ? Variables{env.p} : Variables{env.p, env.y};
        const Formula b{forall(bound, f)};
        if (!is_forall(b)) continue;
        const Variables got{get_quantified_variables(b)};
        const unsigned w = sym_choice("subst", 7);
        ExpressionSubstitution es; FormulaSubstitution fs;
        const Formula cut{Expression{env.x} > 3.0};
        if (w == 0 || w == 3 || w == 6) fs.emplace(env.p, cut);
        if (w == 1 || w == 3 || w == 5) fs.emplace(env.q, cut);
        if (w == 2 || w >= 4) es.emplace(env.x, Expression{env.x} + 2.0);
        if (w == 4 || w == 6) es.emplace(env.y, Expression{env.x});
        ExpressionSubstitution es2{es}; FormulaSubstitution fs2{fs};
        for (const Variable& v : got) { es2.erase(v); fs2.erase(v); }
        const Formula want{f.Substitute(es2, fs2)};
        const Formula t{b.Substitute(es, fs)};
        sym_assert(t.EqualTo(forall(got, want)) || t.EqualTo(want), "substitution under a Boolean quantifier replaces the free variables and only these");
        if (es.empty()) sym_assert(b.Substitute(fs).EqualTo(t), "formula-only substitution agrees");
        if (fs.empty()) sym_assert(b.Substitute(es).EqualTo(t), "expression-only substitution agrees");
      }
    }
  }
}
