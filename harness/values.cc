// Expressions are values: compound assignments, expiring operands, aliasing
// and sharing never change another expression, and all memory is released.
#include "gen.h"
using namespace gen;

static Node* shape(const char* nm, bool second) {
  const long n = sym_cfg("shapes", 13);
  auto c = [&]() { return sym_cfg("c", 1) ? symc() : konst(2.5); };
  switch (sym_choice(nm, second ? sym_cfg("shapes2", n) : n)) {
    case 0: return leaf(X);
    case 1: return c();
    case 2: return bin(ADD, leaf(X), leaf(Y));
    case 3: return bin(MUL, leaf(X), leaf(Y));
    case 4: return bin(ADD, bin(MUL, konst(2), leaf(X)), c());
    case 5: return bin(POW, leaf(X), konst(2));
    case 6: return bin(DIV, leaf(X), leaf(Y));
    case 7: return bin(DIV, konst(3), leaf(X));
    case 8: return bin(MUL, bin(MUL, c(), leaf(X)), bin(POW, leaf(Y), konst(2)));
    case 9: return un(SIN, leaf(X));
    case 10: return konst(-1);
    case 11: return konst(0);
    default: return bin(SUB, leaf(X), leaf(Y));
  }
}
static Expression& assign(unsigned op, Expression& a, const Expression& b) {
  switch (op) { case 0: return a += b; case 1: return a -= b; case 2: return a *= b; default: return a /= b; }
}
static Expression move2(unsigned op, unsigned how, Expression& a, Expression& b) {
  if (how == 0) switch (op) { case 0: return std::move(a) + b; case 1: return std::move(a) - b; case 2: return std::move(a) * b; default: return std::move(a) / b; }
  if (how == 1) switch (op) { case 0: return a + std::move(b); case 1: return a - std::move(b); case 2: return a * std::move(b); default: return a / std::move(b); }
  if (how == 2) switch (op) { case 0: return std::move(a) + std::move(b); case 1: return std::move(a) - std::move(b); case 2: return std::move(a) * std::move(b); default: return std::move(a) / std::move(b); }
  switch (op) { case 0: return a + b; case 1: return a - b; case 2: return a * b; default: return a / b; }
}
static const Op kOps[] = {ADD, SUB, MUL, DIV};

static void body(const Env& env, Node* na, Node* nb, unsigned op, unsigned mode, double ra, double rb, double r, double ra2) {
  const bool shared = sym_choice("shared", 2);
  Expression a{build(na, env)}, b{build(nb, env)};
  const Expression keep{shared ? a : Expression{env.x}}, keepb{shared ? b : Expression{env.y}};
  const std::string s = sym_cfg("text", 0) ? keep.to_string() : "";
  Expression res;
  double want = r;
  switch (mode) {
    case 0: assign(op, a, b); res = a; break;                              // a op= b
    case 1: assign(op, a, a); res = a; want = ra2; break;                  // a op= a
    case 2: res = move2(op, sym_choice("how", 4), a, b); break;            // expiring operands
    case 3: {                                                              // operand inside a
      Expression w{op < 2 ? a + sin(b) : a * sin(b)};
      Expression u{sin(w)};
      const Expression& inner = get_argument(u);
      const Expression cp{inner};
      assign(op, u, inner);
      (void)cp;
      res = Expression::Zero();
      want = 0;
      break;
    }
    case 4: {                                                              // ++ -- unary minus
      const unsigned k = sym_choice("inc", 6);
      switch (k) {
        case 0: res = a++; sym_assert_close(a.Evaluate(env.e), ra + 1, "increment"); want = ra; break;
        case 1: res = ++a; want = ra + 1; break;
        case 2: res = a--; sym_assert_close(a.Evaluate(env.e), ra - 1, "decrement"); want = ra; break;
        case 3: res = --a; want = ra - 1; break;
        case 4: res = -a; want = -ra; break;
        default: res = -std::move(a); want = -ra; break;
      }
      break;
    }
    default: {                                                             // self-assignment
      Expression& al = a;
      a = al;
      res = a;
      want = ra;
    }
  }
  sym_assert_close(res.Evaluate(env.e), want, "the result has the value of the operation");
  if (mode == 0) sym_assert_close(b.Evaluate(env.e), rb, "the right operand is not changed");
  sym_assert_close(keep.Evaluate(env.e), shared ? ra : env.vx, "an expression that shared its parts keeps its value");
  sym_assert_close(keepb.Evaluate(env.e), shared ? rb : env.vy, "the other operand's copy keeps its value");
  sym_assert(keep.EqualTo(shared ? build(na, env) : Expression{env.x}), "an expression that shared its parts keeps its structure");
}

void harness() {
  Env env;
  const unsigned op = sym_choice("op", 4);
  const unsigned mode = sym_choice("mode", 6);
  Node* na = shape("a", false);
  Node* nb = mode == 0 || mode == 2 || mode == 3 ? shape("b", true) : konst(7);
  env.draw();
  const double ra = eval(na, env), rb = eval(nb, env);
  if (mode == 3 && op == 3) return;
  double r = 0, ra2 = 0;
  if (mode == 0 || mode == 2) r = ref2(kOps[op], ra, rb);
  if (mode == 1) ra2 = ref2(kOps[op], ra, ra);
  sym_reach("defined");
  { Expression w[] = {Expression::Zero(), Expression::One(), Expression::Pi(), Expression::E(), Expression::NaN()}; (void)w; Expression{2.0} == Expression{2.0}; }
  const long live = sym_live_();
  body(env, na, nb, op, mode, ra, rb, r, ra2);
  sym_assert(sym_live_() == live, "all memory is released");
}
