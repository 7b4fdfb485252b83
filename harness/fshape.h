// Families of formula shapes, selected by the bound `slice`.
#pragma once
#include "gen.h"
using namespace gen;

static FNode* shape(Gen& g) {
  const long slice = sym_cfg("slice", 0);
  switch (slice) {
    case 0:  // one relation between two small expressions
      g.ops = {ADD, SUB, MUL};
      if (!sym_cfg("c", 1)) g.leaves = {X, Y};
      { const FOp o = static_cast<FOp>(FEQ_ + sym_choice("rel", 6));
        Node* a = g.tree(1);
        return rel(o, a, sym_cfg("both", 0) ? g.tree(1) : g.atom()); }
    case 1:  // connectives over Booleans, constants and x ~ c
      { FNode* r = rel(static_cast<FOp>(FEQ_ + sym_choice("rel", 6)), leaf(X), symc());
        const FOp ops[] = {FNOT, FAND, FOR, FIMPLY, FIFF};
        FOp o = ops[sym_choice("top", 5)];
        FNode* other = sym_choice("k", 5) == 0 ? r : nullptr;
        if (!other) other = fop(FNOT, fvar(sym_choice("v", 2)));
        if (sym_choice("same", 2)) other = fvar(sym_choice("v", 2));
        if (o == FNOT) return fop(FNOT, r);
        return sym_choice("swap", 2) ? fop(o, r, other) : fop(o, other, r); }
    case 2: {  // depth-2 connectives over Booleans and truth constants
      g.fops = {FNOT, FAND, FOR, FIMPLY, FIFF};
      struct L { static FNode* go(Gen& g, int d) {
        unsigned k = sym_choice("f", d == 0 ? 4 : 9);
        if (k < 2) return fvar(k);
        if (k < 4) return fconst(k == 3);
        const FOp ops[] = {FNOT, FAND, FOR, FIMPLY, FIFF};
        FOp o = ops[k - 4];
        FNode* a = go(g, d - 1);
        return o == FNOT ? fop(o, a) : fop(o, a, go(g, d - 1)); } };
      return L::go(g, sym_cfg("depth", 2));
    }
    case 3: {  // relations with if-then-else
      const bool lean = sym_cfg("lean", 1);
      auto r = [&]() { return lean ? (sym_choice("rel", 2) ? FGT_ : sym_choice("rel2", 2) ? FLE_ : FEQ_) : static_cast<FOp>(FEQ_ + sym_choice("rel", 6)); };
      const FOp o = r();
      g.leaves = {X, C}; if (lean) g.leaves = {C};
      Node* a = g.atom();
      Node* i = ite(rel(r(), leaf(X), symc()), a, g.atom());
      if (!lean && sym_choice("neg", 2)) i = un(NEG, i);
      return rel(o, i, lean ? konst(0) : symc());
    }
    case 5: {  // one relation and one literal under a connective
      FNode* r = rel(static_cast<FOp>(FEQ_ + sym_choice("rel", 6)), leaf(X), sym_cfg("c", 0) ? symc() : konst(1));
      const unsigned k = sym_choice("lit", 5);
      if (k == 4) return sym_choice("neg", 2) ? fop(FNOT, r) : r;
      FNode* l = fvar(k & 1);
      if (k & 2) l = fop(FNOT, l);
      FNode* f = fop(sym_choice("o", 2) ? FAND : FOR, r, l);
      return sym_choice("neg", 2) ? fop(FNOT, f) : f;
    }
    case 6: {  // if-then-else on one side of a relation
      FNode* c = sym_choice("cond", 2) ? rel(FGT_, leaf(X), konst(1)) : fvar(0);
      Node* i = ite(c, leaf(X), sym_choice("else", 2) ? leaf(Y) : konst(2));
      return rel(static_cast<FOp>(FEQ_ + sym_choice("rel", 6)), i, konst(0));
    }
    case 7: {  // two relations over the same two expressions (or a bound each on x), every pair of operators
      const FOp o1 = static_cast<FOp>(FEQ_ + sym_choice("rel", 6)), o2 = static_cast<FOp>(FEQ_ + sym_choice("rel", 6));
      const unsigned k = sym_choice("same", 4);
      Node *l = leaf(X), *r = k == 0 ? leaf(Y) : konst(1);
      FNode* a = rel(o1, l, r);
      FNode* b = k == 0 && sym_choice("swap", 2) ? rel(o2, leaf(Y), leaf(X)) : k <= 1 ? rel(o2, l, r) : k == 2 ? rel(o2, l, konst(2)) : rel(o2, konst(1), l);
      const unsigned n = sym_choice("neg", 3);
      if (n == 1) a = fop(FNOT, a);
      if (n == 2) b = fop(FNOT, b);
      const FOp ops[] = {FAND, FOR, FIMPLY, FIFF};
      return fop(ops[sym_choice("o", 4)], a, b);
    }
    case 8: {  // conjunctions and disjunctions of three or four literals, in any association
      auto lit = [&](unsigned i) -> FNode* {
        FNode* a = i == 0 ? fvar(0) : i == 1 ? fvar(1) : i == 2 ? rel(FLE_, leaf(X), leaf(Y)) : i == 3 ? rel(FEQ_, leaf(X), konst(1)) : fconst(i == 4);
        return a; };
      auto pick = [&]() { FNode* a = lit(sym_choice("a", 4)); return sym_choice("neg", 2) ? fop(FNOT, a) : a; };
      const FOp o = sym_choice("o", 2) ? FAND : FOR;
      FNode* a = pick(); FNode* b = pick();
      FNode* l = fop(o, a, b);
      FNode* r = fop(sym_choice("o2", 2) ? FAND : FOR, lit(2), sym_choice("b", 2) ? lit(0) : fop(FNOT, lit(1)));
      FNode* f = sym_choice("swap", 2) ? fop(o, l, r) : fop(o == FAND ? FOR : FAND, r, l);
      return f;
    }
    case 9: {  // an atom
      const unsigned k = sym_choice("a", 4);
      return k == 0 ? fvar(0) : k == 1 ? fvar(1) : k == 2 ? rel(FLE_, leaf(X), leaf(Y)) : fop(FNOT, fvar(0));
    }
    default: {  // mixed: connectives over relations x ~ c, y ~ c and a Boolean
      auto atom = [&]() -> FNode* {
        switch (sym_choice("a", 3)) {
          case 0: return fvar(0);
          case 1: return rel(sym_choice("r", 2) ? FLE_ : FGT_, leaf(X), leaf(Y));
          default: return rel(sym_choice("r", 2) ? FEQ_ : FLT_, leaf(X), konst(1));
        } };
      auto lit = [&]() -> FNode* { FNode* a = atom(); return sym_choice("neg", 2) ? fop(FNOT, a) : a; };
      FNode* a = lit(); 
      FOp o = sym_choice("o", 2) ? FAND : FOR;
      FNode* b = fop(o, a, lit());
      if (sym_choice("n2", 2)) b = fop(FNOT, b);
      return fop(sym_choice("o", 2) ? FAND : FOR, b, lit());
    }
  }
}

