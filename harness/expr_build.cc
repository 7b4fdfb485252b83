// C01: building an expression never changes its value.
#include "gen.h"
using namespace gen;
void harness() {
  Env env;
  Gen g;
  Node* n;
  const vector<Op> arith{ADD, SUB, MUL, DIV, POW};
  switch (sym_cfg("slice", 0)) {
    case 0: {  // every operator over leaves (symbolic constants everywhere)
      g.ops = cat(cat(arith, {MIN, MAX, ATAN2, ITE}), kUnary);
      n = g.tree(1);
      break;
    }
    case 1: {  // op(op(l,l),l), both orders, symbolic coefficients
      g.ops = arith; g.fixed_expo = true;
      n = g.spine(sym_cfg("spine", 2));
      break;
    }
    case 2: {  // op(op(l,l),op(l,l)) over two variables
      g.ops = arith; g.fixed_expo = true; g.leaves = {X, Y};
      Op o = arith[sym_choice("top", arith.size())];
      Node* a = g.tree(1);
      n = bin(o, a, g.tree(1));
      break;
    }
    case 4: {  // products and sums of powers of powers
      g.ops = {MUL, ADD, DIV}; g.leaves = {X, Y}; if (!sym_cfg("all", 0)) g.expos = {2, 0.5, -1};
      auto pp = [&]() { Node* a = bin(POW, g.atom(), g.expo()); return sym_choice("pp", 2) ? bin(POW, a, g.expo()) : a; };
      Op o = g.ops[sym_choice("top", sym_cfg("all", 0) ? 3 : 1)];
      Node* a = pp();
      if (sym_choice("k", 2)) a = bin(MUL, konst(3), a);
      if (sym_choice("both", 2)) { Node* b = pp(); if (sym_choice("k", 2)) b = bin(MUL, b, konst(-2)); n = bin(o, a, b); }
      else n = sym_choice("swap", 2) ? bin(o, g.atom(), a) : bin(o, a, g.atom());
      break;
    }
    case 5: {  // exponentials with a common constant base
      g.leaves = {X, Y, K};
      auto ex = [&]() -> Node* { switch (sym_choice("ex", 4)) { case 0: return leaf(X); case 1: return un(NEG, leaf(X)); case 2: return bin(SUB, konst(1), leaf(X)); default: return leaf(Y); } };
      auto p = [&]() { return bin(POW, konst(2), ex()); };
      Node* a = p();
      a = bin(MUL, a, p());
      switch (sym_choice("more", 4)) {
        case 0: break;
        case 1: { Node* b = g.atom(); a = bin(MUL, bin(MUL, leaf(X), leaf(Y)), bin(MUL, b, a)); break; }
        case 2: a = bin(MUL, a, p()); break;
        default: a = bin(DIV, bin(MUL, g.atom(), a), p());
      }
      if (sym_choice("sum", 2)) { Node* b = g.atom(); a = bin(ADD, a, b); }
      n = a;
      break;
    }
    case 6: n = manyTerms(); break;
    case 7: n = iteAround(); break;
    case 8: n = powersOf(); break;
    case 9: {  // a function of a power, a power of a function, powers of powers with many exponents
      const double ks[] = {2, 3, 4, 6, -1, -2, -4, 0.5, 1.5};
      const vector<Op> fs{SQRT, ABS, EXP, LOG, NEG, SIN};
      auto k = [&]() { return konst(ks[sym_choice("expo", 9)]); };
      Node* b = sym_choice("base", 3) == 0 ? leaf(X) : sym_choice("base", 2) ? bin(MUL, leaf(X), leaf(Y)) : bin(ADD, leaf(X), konst(1));
      switch (sym_choice("form", 4)) {
        case 0: n = un(fs[sym_choice("fn", 6)], bin(POW, b, k())); break;
        case 1: n = bin(POW, un(fs[sym_choice("fn", 6)], b), k()); break;
        case 2: { Node* a = bin(POW, b, k()); n = bin(POW, a, k()); break; }
        default: { Node* a = bin(POW, b, k()); Node* c = bin(POW, sym_choice("base", 2) ? leaf(X) : b, k()); n = bin(sym_choice("o", 2) ? MUL : DIV, a, c); }
      }
      break;
    }
    default: {  // unary functions around and inside arithmetic
      g.ops = cat(arith, {ABS, SQRT, EXP, LOG, SIN, MIN}); g.fixed_expo = true; g.leaves = {X, C};
      n = g.spine(sym_cfg("spine", 2));
    }
  }
  env.draw();
  if (sym_cfg("slice", 0) == 7) env.draw_bools();
  const double r = eval(n, env);
  sym_reach("defined");
  const Expression e{build(n, env)};
  sym_assert_close(e.Evaluate(env.e), r, "value preserved");
}
