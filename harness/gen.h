// Generator of symbolic expressions and formulas, with an independent
// reference semantics.  The shape of a tree is enumerated (sym_choice), its
// constants and the environment are symbolic doubles.
#pragma once
#include <cmath>
#include <string>
#include <vector>
#include "sym.h"
#include "dreal/symbolic/symbolic.h"

namespace gen {
using namespace dreal;  // NOLINT
using std::vector;

enum Op {
  X, Y, C, K,  // variables, symbolic constant, fixed constant
  ADD, SUB, MUL, DIV, POW, MIN, MAX, ATAN2,               // binary
  NEG, ABS, SQRT, EXP, LOG, SIN, COS, TAN, ASIN, ACOS, ATAN, SINH, COSH, TANH,  // unary
  ITE
};
enum FOp { FTRUE, FFALSE, FVAR, FEQ_, FNE_, FGT_, FGE_, FLT_, FLE_, FNOT, FAND, FOR, FIMPLY, FIFF };

struct Env {
  Variable x{"x"}, y{"y"};
  Variable p{"p", Variable::Type::BOOLEAN}, q{"q", Variable::Type::BOOLEAN};
  double vx{0}, vy{0};
  bool bp{false}, bq{false};
  Environment e;
  // Draws symbolic values for the variables.
  void draw() {
    vx = sym_double("x"); vy = sym_double("y");
    sym_assume(std::isfinite(vx)); sym_assume(std::isfinite(vy));
    e = Environment{{x, vx}, {y, vy}};
  }
  void draw_bools() {
    bp = sym_bool("p"); bq = sym_bool("q");
    e.insert(p, bp ? 1.0 : 0.0); e.insert(q, bq ? 1.0 : 0.0);
  }
};

struct FNode;
struct Node {
  Op op{X};
  double c{0};
  Node* a{nullptr};
  Node* b{nullptr};
  FNode* f{nullptr};
};
struct FNode {
  FOp op{FTRUE};
  int var{0};
  Node* a{nullptr};
  Node* b{nullptr};
  FNode* g{nullptr};
  FNode* h{nullptr};
};

inline Expression build(const Node* n, const Env& env);
inline Formula buildF(const FNode* n, const Env& env) {
  switch (n->op) {
    case FTRUE: return Formula::True();
    case FFALSE: return Formula::False();
    case FVAR: return Formula{n->var ? env.q : env.p};
    case FEQ_: return build(n->a, env) == build(n->b, env);
    case FNE_: return build(n->a, env) != build(n->b, env);
    case FGT_: return build(n->a, env) > build(n->b, env);
    case FGE_: return build(n->a, env) >= build(n->b, env);
    case FLT_: return build(n->a, env) < build(n->b, env);
    case FLE_: return build(n->a, env) <= build(n->b, env);
    case FNOT: return !buildF(n->g, env);
    case FAND: return buildF(n->g, env) && buildF(n->h, env);
    case FOR: return buildF(n->g, env) || buildF(n->h, env);
    case FIMPLY: return imply(buildF(n->g, env), buildF(n->h, env));
    case FIFF: return iff(buildF(n->g, env), buildF(n->h, env));
  }
  return Formula::True();
}
inline Expression apply2(Op op, const Expression& a, const Expression& b) {
  switch (op) {
    case ADD: return a + b;
    case SUB: return a - b;
    case MUL: return a * b;
    case DIV: return a / b;
    case POW: return pow(a, b);
    case MIN: return min(a, b);
    case MAX: return max(a, b);
    default: return atan2(a, b);
  }
}
inline Expression apply1(Op op, const Expression& a) {
  switch (op) {
    case NEG: return -a;
    case ABS: return abs(a);
    case SQRT: return sqrt(a);
    case EXP: return exp(a);
    case LOG: return log(a);
    case SIN: return sin(a);
    case COS: return cos(a);
    case TAN: return tan(a);
    case ASIN: return asin(a);
    case ACOS: return acos(a);
    case ATAN: return atan(a);
    case SINH: return sinh(a);
    case COSH: return cosh(a);
    default: return tanh(a);
  }
}
inline Expression build(const Node* n, const Env& env) {
  switch (n->op) {
    case X: return Expression{env.x};
    case Y: return Expression{env.y};
    case C: case K: return Expression{n->c};
    case ITE: { const Formula f{buildF(n->f, env)}; const Expression a{build(n->a, env)}, b{build(n->b, env)}; return if_then_else(f, a, b); }
    default:
      if (n->op >= NEG) { const Expression a{build(n->a, env)}; return apply1(n->op, a); }
      const Expression a{build(n->a, env)}, b{build(n->b, env)};
      return apply2(n->op, a, b);
  }
}

// Reference semantics.  A path on which the expression as written is not
// defined (a division by zero, a domain error) ends here.
inline double ref2(Op op, double a, double b) {
  switch (op) {
    case ADD: return a + b;
    case SUB: return a - b;
    case MUL: return a * b;
    case DIV: sym_assume(b != 0); return a / b;
    case POW:
      if (a < 0) { sym_assume(b >= -2147483647.0 && b <= 2147483647.0 && std::floor(b) == b); }
      if (a == 0) { sym_assume(b >= 0); }
      return std::pow(a, b);
    case MIN: return b < a ? b : a;
    case MAX: return a < b ? b : a;
    default: return std::atan2(a, b);
  }
}
inline double ref1(Op op, double a) {
  switch (op) {
    case NEG: return -a;
    case ABS: return a < 0 ? -a : a;
    case SQRT: sym_assume(a >= 0); return std::sqrt(a);
    case EXP: return std::exp(a);
    case LOG: sym_assume(a > 0); return std::log(a);
    case SIN: return std::sin(a);
    case COS: return std::cos(a);
    case TAN: return std::tan(a);
    case ASIN: sym_assume(a >= -1 && a <= 1); return std::asin(a);
    case ACOS: sym_assume(a >= -1 && a <= 1); return std::acos(a);
    case ATAN: return std::atan(a);
    case SINH: return std::sinh(a);
    case COSH: return std::cosh(a);
    default: return std::tanh(a);
  }
}
inline bool refRel(FOp op, double a, double b) {
  switch (op) {
    case FEQ_: return a == b;
    case FNE_: return a != b;
    case FGT_: return a > b;
    case FGE_: return a >= b;
    case FLT_: return a < b;
    default: return a <= b;
  }
}
inline double eval(const Node* n, const Env& env);
inline bool evalF(const FNode* n, const Env& env) {
  switch (n->op) {
    case FTRUE: return true;
    case FFALSE: return false;
    case FVAR: return n->var ? env.bq : env.bp;
    case FNOT: return !evalF(n->g, env);
    case FAND: { bool a = evalF(n->g, env), b = evalF(n->h, env); return a && b; }
    case FOR: { bool a = evalF(n->g, env), b = evalF(n->h, env); return a || b; }
    case FIMPLY: { bool a = evalF(n->g, env), b = evalF(n->h, env); return !a || b; }
    case FIFF: { bool a = evalF(n->g, env), b = evalF(n->h, env); return a == b; }
    default: return refRel(n->op, eval(n->a, env), eval(n->b, env));
  }
}
inline double eval(const Node* n, const Env& env) {
  switch (n->op) {
    case X: return env.vx;
    case Y: return env.vy;
    case C: case K: return n->c;
    case ITE: { bool c = evalF(n->f, env); double a = eval(n->a, env), b = eval(n->b, env); return c ? a : b; }
    default:
      if (n->op >= NEG) return ref1(n->op, eval(n->a, env));
      { double a = eval(n->a, env), b = eval(n->b, env);
        // bound: a negative base only with a fixed integer exponent
        if (n->op == POW && n->b->op != K) sym_assume(a > 0);
        return ref2(n->op, a, b); }
  }
}

// Forward-mode derivative of the reference semantics.  Paths on which the tree
// is not differentiable (kinks, borders of domains) end.
struct Dual { double v, d; };
inline Dual deval(const Node* n, const Env& env, bool wrt_y) {
  switch (n->op) {
    case X: return {env.vx, wrt_y ? 0.0 : 1.0};
    case Y: return {env.vy, wrt_y ? 1.0 : 0.0};
    case C: case K: return {n->c, 0.0};
    default: break;
  }
  const Dual a = deval(n->a, env, wrt_y);
  if (n->op >= NEG) {
    const double v = ref1(n->op, a.v);
    switch (n->op) {
      case NEG: return {v, -a.d};
      case SQRT: sym_assume(a.v > 0); return {v, a.d / (2 * v)};
      case EXP: return {v, v * a.d};
      case LOG: return {v, a.d / a.v};
      case SIN: return {v, std::cos(a.v) * a.d};
      case COS: return {v, -std::sin(a.v) * a.d};
      case TAN: { double c = std::cos(a.v); sym_assume(c != 0); return {v, a.d / (c * c)}; }
      case ASIN: sym_assume(a.v > -1 && a.v < 1); return {v, a.d / std::sqrt(1 - a.v * a.v)};
      case ACOS: sym_assume(a.v > -1 && a.v < 1); return {v, -a.d / std::sqrt(1 - a.v * a.v)};
      case ATAN: return {v, a.d / (1 + a.v * a.v)};
      case SINH: return {v, std::cosh(a.v) * a.d};
      case COSH: return {v, std::sinh(a.v) * a.d};
      default: { double c = std::cosh(a.v); return {v, a.d / (c * c)}; }
    }
  }
  const Dual b = deval(n->b, env, wrt_y);
  if (n->op == POW && n->b->op != K) sym_assume(a.v > 0);
  const double v = ref2(n->op, a.v, b.v);
  switch (n->op) {
    case ADD: return {v, a.d + b.d};
    case SUB: return {v, a.d - b.d};
    case MUL: return {v, a.d * b.v + a.v * b.d};
    case DIV: return {v, (a.d * b.v - a.v * b.d) / (b.v * b.v)};
    case POW:
      if (n->b->op == K) {
        if (b.v == 0) return {v, 0};
        if (b.v == 1) return a;
        // inside the domain of the derivative
        if (b.v < 1 || std::floor(b.v) != b.v) sym_assume(a.v != 0);
        if (std::floor(b.v) != b.v) sym_assume(a.v > 0);
        return {v, b.v * std::pow(a.v, b.v - 1) * a.d};
      }
      return {v, std::pow(a.v, b.v - 1) * (b.v * a.d + std::log(a.v) * a.v * b.d)};
    default: {  // atan2(a, b)
      double q = a.v * a.v + b.v * b.v; sym_assume(q != 0);
      return {v, (b.v * a.d - a.v * b.d) / q};
    }
  }
}
// Variables that occur in a tree as written.
inline void occurs(const Node* n, bool& x, bool& y);
inline void occursF(const FNode* n, bool& x, bool& y) {
  if (n->a) { occurs(n->a, x, y); occurs(n->b, x, y); }
  if (n->g) occursF(n->g, x, y);
  if (n->h) occursF(n->h, x, y);
}
inline void occurs(const Node* n, bool& x, bool& y) {
  if (n->op == X) x = true;
  if (n->op == Y) y = true;
  if (n->a) occurs(n->a, x, y);
  if (n->b) occurs(n->b, x, y);
  if (n->f) occursF(n->f, x, y);
}
inline bool hasIte(const Node* n);
inline bool hasIteF(const FNode* n) {
  return (n->a && (hasIte(n->a) || hasIte(n->b))) || (n->g && hasIteF(n->g)) || (n->h && hasIteF(n->h));
}
inline bool hasIte(const Node* n) { return n->op == ITE || (n->a && hasIte(n->a)) || (n->b && hasIte(n->b)) || (n->f && hasIteF(n->f)); }

inline Node* leaf(Op o) { Node* n = new Node; n->op = o; return n; }
inline Node* konst(double c) { Node* n = new Node; n->op = K; n->c = c; return n; }
inline Node* symc(const char* name = "c") {
  sym_link_();
  Node* n = new Node; n->op = C; n->c = sym_double(name); sym_assume(std::isfinite(n->c));
  // the library shares cells for these constants, which doubles the paths
  if (!sym_cfg("pie", 0)) sym_assume(n->c != M_PI && n->c != M_E && n->c != -M_PI && n->c != -M_E);
  return n;
}
inline Node* un(Op o, Node* a) { Node* n = new Node; n->op = o; n->a = a; return n; }
inline Node* bin(Op o, Node* a, Node* b) { Node* n = new Node; n->op = o; n->a = a; n->b = b; return n; }
inline Node* ite(FNode* f, Node* a, Node* b) { Node* n = new Node; n->op = ITE; n->f = f; n->a = a; n->b = b; return n; }
inline FNode* rel(FOp o, Node* a, Node* b) { FNode* n = new FNode; n->op = o; n->a = a; n->b = b; return n; }
inline FNode* fvar(int k) { FNode* n = new FNode; n->op = FVAR; n->var = k; return n; }
inline FNode* fconst(bool v) { FNode* n = new FNode; n->op = v ? FTRUE : FFALSE; return n; }
inline FNode* fop(FOp o, FNode* a, FNode* b = nullptr) { FNode* n = new FNode; n->op = o; n->g = a; n->h = b; return n; }

// ---- shape enumeration.  `shape` strings name the choices so that replay
// files stay readable.
struct Gen {
  vector<Op> leaves{X, Y, C};
  vector<Op> ops;
  const char* tag = "n";
  Node* atom() {
    Op o = leaves[sym_choice(tag, leaves.size())];
    return o == C ? symc() : o == K ? konst(kval) : leaf(o);
  }
  double kval{3};
  Node* app(Op o, Node* a, Node* b) { return o >= NEG ? un(o, a) : bin(o, a, b); }
  vector<double> expos{2, -1, 0.5, 3, -2, 1.5, 0, 1};
  Node* expo() {  // exponents: fixed constants and the variable y
    unsigned k = sym_choice("expo", expos.size() + expo_y) + !expo_y;
    return k == 0 ? leaf(Y) : konst(expos[k - 1]);
  }
  // any tree of depth <= d
  Node* tree(int d) {
    if (d == 0) return atom();
    unsigned k = sym_choice(tag, leaves.size() + ops.size());
    if (k < leaves.size()) return leaves[k] == C ? symc() : leaves[k] == K ? konst(kval) : leaf(leaves[k]);
    Op o = ops[k - leaves.size()];
    if (o == ITE) { FNode* f = relf(0); Node* a = tree(d - 1); return ite(f, a, tree(d - 1)); }
    if (o >= NEG) return un(o, tree(d - 1));
    Node* a = tree(d - 1);
    return bin(o, a, o == POW && d < 2 && fixed_expo ? expo() : tree(d - 1));
  }
  bool fixed_expo{false}, expo_y{true};
  // exactly depth d on the left spine, leaves on the right
  Node* spine(int d) {
    if (d == 0) return atom();
    Op o = ops[sym_choice(tag, ops.size())];
    if (o == ITE) { FNode* f = relf(0); Node* a = spine(d - 1); return ite(f, a, atom()); }
    Node* a = spine(d - 1);
    if (o >= NEG) return un(o, a);
    if (o == POW && fixed_expo) return bin(o, a, expo());
    Node* b = atom();
    return sym_choice("swap", 2) ? bin(o, b, a) : bin(o, a, b);
  }
  FNode* relf(int d) {
    FOp o = static_cast<FOp>(FEQ_ + sym_choice("rel", 6));
    Node* a = tree(d);
    return rel(o, a, tree(d));
  }
  // formula of depth <= d over relational atoms, Boolean variables, constants
  vector<FOp> fops{FNOT, FAND, FOR};
  FNode* formula(int d, int ed, bool bools = true, bool consts = true) {
    unsigned n = 1 + (bools ? 2 : 0) + (consts ? 2 : 0);
    unsigned k = sym_choice("f", d == 0 ? n : n + fops.size());
    if (k == 0) return relf(ed);
    if (bools && k <= 2) return fvar(k - 1);
    if (k < n) return fconst(k == n - 1);
    FOp o = fops[k - n];
    FNode* a = formula(d - 1, ed, bools, consts);
    if (o == FNOT) return fop(o, a);
    return fop(o, a, formula(d - 1, ed, bools, consts));
  }
};
inline vector<Op> cat(vector<Op> a, const vector<Op>& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
// sums and products of several terms
inline Node* manyTerms() {
  auto term = [&](unsigned k) -> Node* {
    switch (k) { case 0: return leaf(X); case 1: return leaf(Y); case 2: return bin(MUL, leaf(X), leaf(Y)); case 3: return bin(POW, leaf(X), konst(2)); case 4: return un(SIN, leaf(X));
                 case 5: return bin(POW, bin(ADD, leaf(X), konst(1)), konst(2)); case 6: return bin(POW, leaf(X), konst(-1)); default: return bin(ADD, leaf(Y), konst(2)); } };
  const Op o = sym_choice("o", 2) ? MUL : ADD;
  const unsigned i = sym_choice("t", 8), j = sym_choice("t", 8);
  Node* a = term(i); if (o == ADD && sym_choice("coef", 2)) a = bin(MUL, sym_cfg("c", 1) ? symc() : konst(-2), a);
  Node* b = term(j); if (o == ADD) b = bin(MUL, konst(3), b);
  Node* e = bin(o, bin(o, a, b), term(sym_choice("t", 2)));
  switch (sym_choice("extra", 3)) { case 0: return e; case 1: return bin(o == ADD ? MUL : ADD, e, leaf(Y)); default: return bin(o, konst(2), e); }
}
// if-then-else over Boolean and mixed conditions inside every kind of expression
inline Node* iteAround() {
  FNode* c = nullptr;
  switch (sym_choice("cond", 5)) {
    case 0: c = fvar(0); break;
    case 1: c = fop(FNOT, fvar(0)); break;
    case 2: c = fop(FAND, fvar(0), rel(FGT_, leaf(X), konst(1))); break;
    case 3: c = fop(FOR, fvar(1), rel(FLE_, leaf(X), leaf(Y))); break;
    default: c = rel(FGT_, leaf(Y), konst(1)); }
  const bool ex = sym_choice("then", 2);
  Node* i = ite(c, ex ? leaf(X) : konst(2), leaf(Y));
  switch (sym_choice("ctx", 12)) {
    case 0: return i;
    case 1: return bin(ADD, bin(MUL, konst(3), i), leaf(X));
    case 2: return bin(ADD, i, bin(ADD, bin(POW, leaf(X), konst(2)), konst(1)));
    case 3: return bin(MUL, i, leaf(Y));
    case 4: return bin(MUL, bin(POW, i, konst(2)), leaf(X));
    case 5: return bin(POW, i, konst(3));
    case 6: return bin(DIV, leaf(X), i);
    case 7: return un(sym_choice("fn", 2) ? ABS : SIN, i);
    case 8: return bin(MIN, i, leaf(Y));
    case 9: return bin(MAX, leaf(X), i);
    case 10: return ite(fvar(0), bin(ADD, i, konst(1)), i);
    default: return bin(SUB, leaf(Y), un(NEG, i));
  }
}
// powers of sums and products, every exponent up to a bound
inline Node* powersOf() {
  Node* x1 = bin(ADD, leaf(X), konst(1));
  Node* b = nullptr;
  const unsigned k = sym_choice("base", 5);
  switch (k) { case 0: b = x1; break; case 1: b = bin(ADD, leaf(X), leaf(Y)); break; case 2: b = bin(SUB, bin(MUL, konst(2), leaf(X)), leaf(Y)); break; case 3: b = bin(MUL, leaf(X), bin(SUB, leaf(Y), konst(1))); break; default: b = bin(POW, leaf(X), konst(2)); }
  const unsigned e = sym_choice("n", sym_cfg("maxpow", 9) - 1);
  Node* p = bin(POW, b, konst(2 + e));
  switch (sym_choice("around", e > 3 ? 2 : 4)) { case 0: return p; case 1: return bin(MUL, konst(2), p); case 2: return bin(MUL, p, x1); default: return bin(SUB, leaf(Y), p); }
}
static const vector<Op> kArith{ADD, SUB, MUL, DIV};
static const vector<Op> kUnary{NEG, ABS, SQRT, EXP, LOG, SIN, COS, TAN, ASIN, ACOS, ATAN, SINH, COSH, TANH};
}  // namespace gen
