// Families of expression shapes, selected by the bound `slice`.
#pragma once
#include "gen.h"
using namespace gen;

static Node* shape(Gen& g) {
  const vector<Op> arith{ADD, SUB, MUL, DIV, POW};
  const vector<Op> un1{NEG, SQRT, EXP, LOG, SIN, COS, TAN, ASIN, ACOS, ATAN, SINH, COSH, TANH};
  const long what = sym_cfg("what", 0);
  g.fixed_expo = true;
  g.expos = {2, -1, 0.5, 3};
  g.expo_y = what == 1 || what == 2 || sym_cfg("slice", 0) == 0;
  if (!sym_cfg("c", 1)) g.leaves = {X, Y};
  switch (sym_cfg("slice", 0)) {
    case 0:  // every operator over leaves
      g.ops = cat(cat(arith, {ATAN2}), un1);
      if (what != 1) g.ops = cat(g.ops, {MIN, MAX, ABS});
      if (what != 1 && what != 2) g.ops.push_back(ITE);
      return g.tree(1);
    case 1:  // two nested operators, left spine
      g.ops = arith;
      if (!sym_cfg("c", 1)) g.ops = {ADD, MUL, DIV, POW};
      return g.spine(2);
    case 2:  // a function of an operator, an operator of a function
      g.ops = what == 2 ? vector<Op>{ADD, MUL, SIN, POW} : vector<Op>{ADD, MUL, SIN, EXP, LOG, SQRT};
      if (what != 1 && what != 2) g.ops.push_back(ITE);
      if (sym_cfg("c", 1)) g.leaves = {X, C}; else g.leaves = {X};
      return g.spine(2);
    case 4:  // three nested operators over variables and a fixed constant
      g.ops = what == 2 ? vector<Op>{ADD, MUL, DIV} : vector<Op>{ADD, MUL, POW};
      g.leaves = {X, K};
      g.expos = {2, -1};
      return g.spine(3);
    case 5: return manyTerms();
    case 6: return iteAround();
    case 7: return powersOf();
    default: {  // polynomials: powers and products of sums
      g.leaves = {X, Y}; if (sym_cfg("c", 1)) g.leaves.push_back(C);
      g.ops = {ADD, SUB, MUL};
      Node* a = g.tree(1);
      switch (sym_choice("outer", 3)) {
        case 0: return bin(POW, a, konst(sym_choice("n", 2) ? 3 : 2));
        case 1: { Node* b = g.tree(1); return bin(MUL, a, b); }
        default: { Node* k = symc(); Node* b = g.atom(); return bin(ADD, bin(MUL, k, a), b); }
      }
    }
  }
}
