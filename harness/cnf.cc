// Formula transformations: negation normal form, conjunctive normal form,
// Tseitin transformation, elimination of if-then-else, predicate abstraction.
#include <map>
#include <set>
#include "fshape.h"
#include "dreal/util/if_then_else_eliminator.h"
#include "dreal/util/naive_cnfizer.h"
#include "dreal/util/nnfizer.h"
#include "dreal/util/predicate_abstractor.h"
#include "dreal/util/tseitin_cnfizer.h"
using std::set;

// Evaluation that knows quantifiers over Boolean variables.
static bool ev(const Formula& f, const Environment& e) {
  if (is_negation(f)) return !ev(get_operand(f), e);
  if (is_conjunction(f)) { bool r = true; for (const Formula& g : get_operands(f)) { const bool v = ev(g, e); r = r & v; } return r; }
  if (is_disjunction(f)) { bool r = false; for (const Formula& g : get_operands(f)) { const bool v = ev(g, e); r = r | v; } return r; }
  if (is_forall(f)) {
    vector<Variable> q; for (const Variable& v : get_quantified_variables(f)) q.push_back(v);
    bool r = true;
    for (unsigned m = 0; m < 1u << q.size(); ++m) {
      Environment::map mm(e.begin(), e.end());
      for (size_t i = 0; i < q.size(); ++i) mm[q[i]] = m >> i & 1;
      const bool v = ev(get_quantified_formula(f), Environment{mm});
      r = r & v;
    }
    return r;
  }
  return f.Evaluate(e);
}
static bool isLiteral(const Formula& f) {
  const Formula& g = is_negation(f) ? get_operand(f) : f;
  return !is_negation(g) && !is_conjunction(g) && !is_disjunction(g);
}
static bool isClause(const Formula& f) {
  if (!is_disjunction(f)) return isLiteral(f);
  for (const Formula& g : get_operands(f)) if (!isLiteral(g)) return false;
  return true;
}
static bool isNnf(const Formula& f, bool pushed) {
  if (is_conjunction(f) || is_disjunction(f)) { for (const Formula& g : get_operands(f)) if (!isNnf(g, pushed)) return false; return true; }
  if (!isLiteral(f)) return false;
  return !(pushed && is_negation(f) && is_relational(get_operand(f)));
}
static bool hasIteFormula(const Formula& f) { return f.include_ite(); }

// values the if-then-else nodes of a tree take, outermost last
static void iteValues(const Node* n, const Env& env, vector<double>& v);
static void iteValuesF(const FNode* n, const Env& env, vector<double>& v) {
  if (n->a) { iteValues(n->a, env, v); iteValues(n->b, env, v); }
  if (n->g) iteValuesF(n->g, env, v);
  if (n->h) iteValuesF(n->h, env, v);
}
static void iteValues(const Node* n, const Env& env, vector<double>& v) {
  if (n->a) iteValues(n->a, env, v);
  if (n->b) iteValues(n->b, env, v);
  if (n->f) { iteValuesF(n->f, env, v); v.push_back(eval(n, env)); }
}


// formulas with one or two if-then-else
static FNode* iteShape() {
  auto cond = [&]() -> FNode* { switch (sym_choice("cond", 3)) { case 0: return fvar(0); case 1: return rel(FGT_, leaf(X), konst(1)); default: return fop(FAND, fvar(0), rel(FLE_, leaf(X), leaf(Y))); } };
  auto at = [&]() -> Node* { return sym_choice("at", 2) ? leaf(Y) : konst(2); };
  Node* i = ite(cond(), leaf(X), at());
  const unsigned k = sym_choice("nest", 10);
  FNode* r = nullptr;
  const FOp o = static_cast<FOp>(FEQ_ + sym_choice("rel", 6));
  switch (k) {
    case 0: r = rel(o, i, konst(0)); break;
    case 1: r = rel(o, bin(ADD, bin(MUL, konst(2), i), leaf(X)), konst(3)); break;
    case 2: r = rel(o, ite(rel(FGT_, i, konst(0)), leaf(Y), leaf(X)), konst(0)); break;  // in the condition
    case 3: r = rel(o, ite(fvar(1), i, konst(5)), konst(0)); break;                      // in the then-branch
    case 4: r = rel(o, ite(fvar(1), konst(5), i), konst(0)); break;                      // in the else-branch
    case 5: r = rel(o, i, ite(fvar(1), leaf(X), konst(7))); break;                       // both sides
    case 6: r = fop(FAND, rel(FGT_, ite(fvar(1), i, konst(5)), konst(0)), rel(o, i, konst(3))); break;  // the same term guarded and not
    case 7: r = fop(FOR, rel(o, i, konst(3)), rel(FGT_, ite(fvar(1), konst(5), i), konst(0))); break;
    case 8: r = rel(o, ite(fvar(1), bin(ADD, i, konst(1)), i), konst(3)); break;          // the same term in both branches
    default: r = rel(o, ite(rel(FGT_, i, konst(0)), i, leaf(Y)), konst(3)); break;        // in the condition and a branch
  }
  switch (sym_choice("ctx", 4)) {
    case 0: return r;
    case 1: return fop(FNOT, r);
    case 2: return fop(FOR, fvar(1), r);
    default: return fop(FNOT, fop(FAND, r, fvar(1)));
  }
}

void harness() {
  Env env;
  Gen g;
  const long what = sym_cfg("what", 0);
  FNode* n = what == 3 || what == 5 ? iteShape() : shape(g);
  env.draw(); env.draw_bools();
  const bool r = evalF(n, env);
  sym_reach("defined");
  Formula f{buildF(n, env)};
  switch (what) {
    case 0: {  // NNF
      const bool push = sym_choice("push", 2);
      const Formula t{Nnfizer{}.Convert(f, push)};
      sym_assert(t.Evaluate(env.e) == r, "the normal form has the same truth value");
      sym_assert(isNnf(t, push), "negation is only applied to atoms");
      const Formula q{forall({env.q}, f)};
      const Formula tq{Nnfizer{}.Convert(!(q && Formula{env.p}), push)};
      sym_assert(ev(tq, env.e) == !(ev(q, env.e) && env.bp), "negated quantified formula");
      break;
    }
    case 1: {  // CNF
      const Formula t{NaiveCnfizer{}.Convert(f)};
      sym_assert(t.Evaluate(env.e) == r, "the normal form has the same truth value");
      bool ok = true;
      if (is_conjunction(t)) { for (const Formula& c : get_operands(t)) ok &= isClause(c); } else ok = isClause(t);
      sym_assert(ok, "the result is a conjunction of clauses");
      if (sym_cfg("forall", 1)) {
        const Formula q{forall({env.q}, f) || Formula{env.p}};
        sym_assert(ev(NaiveCnfizer{}.Convert(q), env.e) == ev(q, env.e), "quantified formula keeps its truth value");
      }
      break;
    }
    case 2: {  // Tseitin
      bool want = r;
      if (sym_cfg("forall", 0)) {
        const unsigned k = sym_choice("forall", 3);
        const Formula q{forall({env.q}, f)};
        f = k == 0 ? q : k == 1 ? q || Formula{env.p} : !q && Formula{env.p};
        want = ev(f, env.e);
      }
      TseitinCnfizer ts;
      if (sym_choice("reuse", 2)) ts.Convert(Formula{env.p} || (Formula{env.q} && env.p));
      const vector<Formula> cs{ts.Convert(f)};
      bool ok = true;
      for (const Formula& c : cs) ok &= isClause(c);
      sym_assert(ok, "every element of the result is a clause");
      // any values of the new variables: the clauses imply the formula
      Environment any{env.e};
      const std::map<Variable, Formula> defs(ts.map().begin(), ts.map().end());
      for (const auto& p : defs) any.insert(p.first, sym_bool("aux") ? 1.0 : 0.0);
      bool all = true;
      for (const Formula& c : cs) { const bool v = ev(c, any); all = all & v; }
      sym_assert(!all || want, "the clauses imply the formula");
      // the new variables as defined: the clauses hold exactly when the formula does
      Environment def{env.e};
      bool more = true;
      size_t left = defs.size();
      while (more) {
        more = false;
        for (const auto& p : defs) {
          if (def.find(p.first) != def.end()) continue;
          bool ready = true;
          for (const Variable& v : p.second.GetFreeVariables()) ready &= def.find(v) != def.end();
          if (ready) { def.insert(p.first, ev(p.second, def) ? 1.0 : 0.0); more = true; --left; }
        }
      }
      sym_assert(left == 0, "the definitions of the new variables are acyclic");
      all = true;
      for (const Formula& c : cs) { const bool v = ev(c, def); all = all & v; }
      sym_assert(all == want, "the clauses hold when the new variables have their defined values");
      break;
    }
    case 3: {  // if-then-else
      IfThenElseEliminator el;
      const Formula t{el.Process(f)};
      sym_assert(!hasIteFormula(t), "no if-then-else is left");
      const vector<Variable> vs(el.variables().begin(), el.variables().end());
      Environment any{env.e};
      for (const Variable& v : vs) any.insert(v, sym_double("aux"));
      sym_assert(!t.Evaluate(any) || r, "the result implies the formula");
      vector<double> vals; iteValuesF(n, env, vals);
      sym_assert(vs.size() <= 6 && (vs.empty() || !vals.empty()), "one new variable per if-then-else");
      if (!vs.empty()) {
        unsigned tot = 1;
        for (size_t i = 0; i < vs.size(); ++i) tot *= vals.size();
        bool some = false;
        for (unsigned m = 0; m < tot; ++m) {
          Environment w{env.e};
          unsigned k = m;
          for (const Variable& v : vs) { w.insert(v, vals[k % vals.size()]); k /= vals.size(); }
          const bool tv = t.Evaluate(w);
          some = some | tv;
        }
        sym_assert(some == r, "some values of the new variables satisfy the result exactly when the formula holds");
      } else sym_assert(t.Evaluate(env.e) == r, "without new variables the result is equivalent");
      break;
    }
    case 5: {  // if-then-else under a quantifier over a Boolean variable
      const Formula q{forall({env.q}, f)};
      IfThenElseEliminator el;
      const Formula t{el.Process(q)};
      sym_assert(!hasIteFormula(t), "no if-then-else is left");
      if (is_forall(q) && is_forall(t)) {
        const Formula& body = get_quantified_formula(t);
        vector<Variable> vs;
        bool keeps = !f.GetFreeVariables().include(env.q);
        for (const Variable& v : get_quantified_variables(t)) { if (v.equal_to(env.q)) keeps = true; else vs.push_back(v); }
        sym_assert(keeps, "the quantified variable stays quantified");
        sym_assert(el.variables().empty(), "new variables are quantified universally");
        vector<double> vals; iteValuesF(n, env, vals);
        Environment any{env.e};
        for (const Variable& v : vs) any.insert(v, sym_double("aux"));
        sym_assert(!r || body.Evaluate(any), "the formula implies the body for every value of the new variables");
        if (!vs.empty() && !vals.empty()) {
          unsigned tot = 1;
          for (size_t i = 0; i < vs.size(); ++i) tot *= vals.size();
          bool every = true;
          for (unsigned m = 0; m < tot; ++m) {
            Environment w{env.e};
            unsigned k = m;
            for (const Variable& v : vs) { w.insert(v, vals[k % vals.size()]); k /= vals.size(); }
            const bool tv = body.Evaluate(w);
            every = every & tv;
          }
          sym_assert(every == r, "the body over all values of the new variables is the formula");
        }
      }
      break;
    }
    default: {  // predicate abstraction
      PredicateAbstractor pa;
      const Formula other{(Expression{env.x} > 1.0) || Formula{env.p}};
      const bool before = sym_choice("before", 2);
      if (before) pa.Convert(other);
      const unsigned how = sym_choice("how", 2);
      const Formula q{forall({env.q}, f)};
      const bool quant = sym_cfg("forall", 0);
      if (quant) f = q || Formula{env.p};
      const bool want = quant ? ev(f, env.e) : r;
      const Formula t{how ? pa.Convert(vector<Formula>{f, Formula{env.p}}) : pa.Convert(f)};
      Environment w{env.e};
      bool boolean = true;
      set<Formula> seen;
      for (const auto& p : pa.var_to_formula_map()) {
        w.insert(p.first, ev(p.second, env.e) ? 1.0 : 0.0);
        boolean &= p.first.get_type() == Variable::Type::BOOLEAN;
        sym_assert(pa[p.second].equal_to(p.first) && pa[p.first].EqualTo(p.second), "predicates and variables correspond one to one");
        sym_assert(seen.insert(p.second).second, "different variables stand for different predicates");
      }
      for (const Variable& v : t.GetFreeVariables()) boolean &= v.get_type() == Variable::Type::BOOLEAN;
      sym_assert(boolean, "the abstraction is Boolean");
      sym_assert(t.Evaluate(w) == (how ? want && env.bp : want), "the abstraction has the truth value of the formula");
      sym_assert((how ? pa.Convert(vector<Formula>{f, Formula{env.p}}) : pa.Convert(f)).EqualTo(t), "converting again gives the same abstraction");
    }
  }
}
