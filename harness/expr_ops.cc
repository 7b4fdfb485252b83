// Operations on expressions: substitution, differentiation, expansion, partial
// evaluation.  `what` selects the operation, `slice` the family of shapes.
#include "eshape.h"

void harness() {
  if (sym_cfg("what", 0) == 3) sym_link_();
  Env env;
  Gen g;
  Node* n = shape(g);
  switch (sym_cfg("what", 0)) {
    case 0: {  // simultaneous substitution
      Gen h; h.tag = "s"; h.ops = {ADD}; h.leaves = {X, Y, C};
      Node* sx = sym_cfg("deep", 0) ? h.tree(1) : h.atom();
      const bool both = sym_choice("both", 2);
      Node* sy = both ? h.atom() : nullptr;
      env.draw();
      Env moved = env;
      moved.vx = eval(sx, env);
      if (both) moved.vy = eval(sy, env);
      // Boolean variables occur in the conditions of slice 6 only
      FNode* sp = nullptr;
      unsigned kp = 0;
      if (sym_cfg("slice", 0) == 6) {
        env.draw_bools(); moved.bp = env.bp; moved.bq = env.bq;
        kp = sym_choice("sp", 6);
        switch (kp) { case 0: break; case 1: sp = fvar(1); break; case 2: sp = fop(FNOT, fvar(1)); break; case 3: sp = rel(FLE_, leaf(X), leaf(Y)); break; case 4: sp = fconst(true); break; default: sp = fconst(false); }
        if (sp) moved.bp = evalF(sp, env);
      }
      const double r = eval(n, moved);
      sym_reach("defined");
      const Expression e{build(n, env)};
      ExpressionSubstitution s;
      s.emplace(env.x, build(sx, env));
      if (both) s.emplace(env.y, build(sy, env));
      if (sp) {
        FormulaSubstitution fs; fs.emplace(env.p, buildF(sp, env));
        sym_assert_close(e.Substitute(s, fs).Evaluate(env.e), r, "substitution evaluates like the original under the moved environment");
        Env only = env; only.bp = moved.bp;
        const double r1 = eval(n, only);
        const Expression t{e.Substitute(fs)};
        sym_assert_close(t.Evaluate(env.e), r1, "substitution of formulas only");
        break;
      }
      const Expression es{e.Substitute(s)};
      sym_assert_close(es.Evaluate(env.e), r, "substitution evaluates like the original under the moved environment");
      bool ox = false, oy = false;
      occurs(sx, ox, oy);
      if (!ox) sym_assert(!es.GetVariables().include(env.x) || (both && (sy->op == X)), "substituted variable is gone");
      if (!both) sym_assert_close(e.Substitute(env.x, build(sx, env)).Evaluate(env.e), r, "single substitution agrees");
      break;
    }
    case 1: {  // differentiation
      env.draw();
      const bool wy = sym_choice("wrt", 2);
      const Dual r = deval(n, env, wy);
      sym_reach("differentiable");
      const Expression e{build(n, env)};
      Expression d;
      try {
        d = e.Differentiate(wy ? env.y : env.x);
      } catch (const std::runtime_error&) {
        // documented for abs, min, max, if-then-else; sqrt(x^2) becomes abs(x)
        const std::string t{e.to_string()};
        sym_assert(t.find("abs") != std::string::npos, "only non-differentiable functions are refused");
        return;
      }
      sym_assert_close(d.Evaluate(env.e), r.d, "derivative");
      break;
    }
    case 2: {  // expansion
      env.draw();
      const double r = eval(n, env);
      sym_reach("defined");
      const Expression e{build(n, env)};
      const Expression x{e.Expand()};
      sym_assert_close(x.Evaluate(env.e), r, "expansion keeps the value");
      sym_assert(x.Expand().EqualTo(x), "expansion is idempotent");
      break;
    }
    default: {  // partial evaluation
      env.draw();
      const double r = eval(n, env);
      sym_reach("defined");
      const Expression e{build(n, env)};
      const bool wy = sym_choice("wrt", 2);
      Environment part, rest;
      if (wy) { part.insert(env.y, env.vy); rest.insert(env.x, env.vx); }
      else { part.insert(env.x, env.vx); rest.insert(env.y, env.vy); }
      const Expression pe{e.EvaluatePartial(part)};
      sym_assert(!pe.GetVariables().include(wy ? env.y : env.x), "evaluated variable is gone");
      sym_assert_close(pe.Evaluate(rest), r, "partial evaluation then evaluation");
    }
  }
}
