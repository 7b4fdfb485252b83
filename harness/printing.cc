// The text of an expression or formula, infix or SMT-LIB prefix, denotes the
// same function: the harness reads the text back with a parser of its own and
// compares the values for every valuation of the variables.
#include <cstdlib>
#include <cstring>
#include <iomanip>
#include <sstream>
#include "fshape.h"
#include "dreal/symbolic/prefix_printer.h"

namespace {
struct Bad {};
struct P {
  const char* s;
  void ws() { while (*s == ' ') ++s; }
  bool eat(const char* t) { ws(); const size_t n = strlen(t); if (strncmp(s, t, n) == 0) { s += n; return true; } return false; }
  void need(const char* t) { if (!eat(t)) throw Bad{}; }
  std::string ident() { ws(); const char* b = s; while (isalnum(*s) || *s == '_') ++s; if (b == s) throw Bad{}; return std::string(b, s); }
  Node* number() { ws(); char* e; const double v = strtod(s, &e); if (e == s) throw Bad{}; s = e; return konst(v); }
  bool atNumber() { ws(); return isdigit(*s) || *s == '.' || (*s == '-' && (isdigit(s[1]) || s[1] == '.')); }
  static Op fn(const std::string& n, int& ar) {
    static const struct { const char* n; Op o; int a; } t[] = {{"log", LOG, 1}, {"abs", ABS, 1}, {"exp", EXP, 1}, {"sqrt", SQRT, 1}, {"sin", SIN, 1}, {"cos", COS, 1}, {"tan", TAN, 1}, {"asin", ASIN, 1}, {"acos", ACOS, 1},
        {"atan", ATAN, 1}, {"sinh", SINH, 1}, {"cosh", COSH, 1}, {"tanh", TANH, 1}, {"pow", POW, 2}, {"atan2", ATAN2, 2}, {"min", MIN, 2}, {"max", MAX, 2}};
    for (const auto& e : t) if (n == e.n) { ar = e.a; return e.o; }
    throw Bad{};
  }
  static Node* var(const std::string& n) { if (n == "x") return leaf(X); if (n == "y") return leaf(Y); throw Bad{}; }
  static FNode* bvar(const std::string& n) { if (n == "p") return fvar(0); if (n == "q") return fvar(1); throw Bad{}; }
  // infix
  Node* F() {
    ws();
    if (atNumber()) return number();
    if (eat("(if ")) { FNode* c = G(); need("then "); Node* a = E(); need("else "); Node* b = E(); need(")"); return ite(c, a, b); }
    if (eat("(")) { Node* e = E(); need(")"); return e; }
    const std::string id = ident();
    if (*s != '(') return var(id);
    int ar; const Op o = fn(id, ar);
    need("(");
    Node* a = E();
    if (ar == 1) { need(")"); return un(o, a); }
    need(","); Node* b = E(); need(")");
    return bin(o, a, b);
  }
  Node* T() { Node* a = F(); for (;;) { ws(); if (*s == '*') { ++s; a = bin(MUL, a, F()); } else if (*s == '/') { ++s; a = bin(DIV, a, F()); } else return a; } }
  Node* E() {
    ws();
    Node* a = nullptr;
    if (*s == '-' && s[1] == ' ') { ++s; a = un(NEG, T()); } else { a = T(); }
    for (;;) { ws(); if (*s == '+') { ++s; a = bin(ADD, a, T()); } else if (*s == '-') { ++s; a = bin(SUB, a, T()); } else return a; }
  }
  FNode* G() {
    ws();
    if (eat("True")) return fconst(true);
    if (eat("False")) return fconst(false);
    if (eat("!(")) { FNode* f = G(); need(")"); return fop(FNOT, f); }
    if (*s != '(') return bvar(ident());
    const char* save = s;
    try {
      need("(");
      FNode* f = G();
      ws();
      if (*s == ')') throw Bad{};
      while (!eat(")")) { if (eat("and ")) f = fop(FAND, f, G()); else if (eat("or ")) f = fop(FOR, f, G()); else throw Bad{}; }
      return f;
    } catch (Bad&) { s = save; }
    need("(");
    Node* a = E();
    const FOp o = eat("==") ? FEQ_ : eat("!=") ? FNE_ : eat(">=") ? FGE_ : eat("<=") ? FLE_ : eat(">") ? FGT_ : eat("<") ? FLT_ : throw Bad{};
    Node* b = E();
    need(")");
    return rel(o, a, b);
  }
  // prefix
  Node* pe() {
    ws();
    if (*s != '(') return atNumber() ? number() : var(ident());
    ++s;
    if (eat("+ ")) return nary(ADD);
    if (eat("* ")) return nary(MUL);
    if (eat("- ")) { Node* a = pe(); if (eat(")")) return un(NEG, a); Node* b = pe(); need(")"); return bin(SUB, a, b); }
    if (eat("/ ")) return two(DIV);
    if (eat("^ ")) return two(POW);
    if (eat("ite ")) { FNode* c = pf(); Node* a = pe(); Node* b = pe(); need(")"); return ite(c, a, b); }
    int ar; const Op o = fn(ident(), ar);
    if (ar == 2) return two(o);
    Node* a = pe(); need(")"); return un(o, a);
  }
  Node* two(Op o) { Node* a = pe(); Node* b = pe(); need(")"); return bin(o, a, b); }
  Node* nary(Op o) { Node* a = pe(); while (!eat(")")) a = bin(o, a, pe()); return a; }
  FNode* pf() {
    ws();
    if (*s != '(') { if (eat("true")) return fconst(true); if (eat("false")) return fconst(false); return bvar(ident()); }
    ++s;
    if (eat("not ")) { FNode* f = pf(); need(")"); return fop(FNOT, f); }
    if (eat("and ")) { FNode* f = pf(); while (!eat(")")) f = fop(FAND, f, pf()); return f; }
    if (eat("or ")) { FNode* f = pf(); while (!eat(")")) f = fop(FOR, f, pf()); return f; }
    const FOp o = eat(">= ") ? FGE_ : eat("<= ") ? FLE_ : eat("> ") ? FGT_ : eat("< ") ? FLT_ : eat("= ") ? FEQ_ : throw Bad{};
    Node* a = pe(); Node* b = pe(); need(")");
    return rel(o, a, b);
  }
  void end() { ws(); if (*s) throw Bad{}; }
};

const double kPool[] = {1.0 / 3, -0.1, 1234567.5, 1e-7, -1, 1, 2, -6.02214076e23, 0.1 + 0.2};
const double kExact[] = {1025.0625, 0.000030517578125, -1};  // products with small integers are exact
double pick(unsigned n = 9) { return kPool[sym_choice("c", n)]; }
Node* pickTree() {
  switch (sym_cfg("slice", 0)) {
    case 0: { const unsigned k = sym_choice("k", 3);
      Node* e = bin(ADD, bin(MUL, konst(pick()), leaf(X)), bin(MUL, konst(pick()), k == 2 ? bin(POW, leaf(X), konst(2)) : leaf(Y)));
      return k ? bin(ADD, e, konst(pick())) : e; }
    case 1: { static const double ex[] = {1, 2, -1, 0.5, -3, 1.0 / 3};
      Node* e = bin(MUL, bin(POW, leaf(X), konst(ex[sym_choice("e", 6)])), bin(POW, sym_choice("b", 2) ? leaf(Y) : bin(ADD, leaf(X), konst(0.1)), konst(ex[sym_choice("e", 6)])));
      return bin(MUL, konst(pick(6)), e); }
    case 2: { static const Op u[] = {NEG, ABS, SQRT, EXP, LOG, SIN, COS, TAN, ASIN, ACOS, ATAN, SINH, COSH, TANH}, b2[] = {ADD, SUB, MUL, DIV, POW, MIN, MAX, ATAN2};
      auto arg = [&]() -> Node* { switch (sym_choice("a", 4)) { case 0: return leaf(X); case 1: return bin(SUB, leaf(Y), leaf(X)); case 2: return bin(MUL, konst(-2), bin(MUL, leaf(X), leaf(Y))); default: return bin(ADD, leaf(X), konst(kExact[sym_choice("c", 3)])); } };
      const unsigned k = sym_choice("op", 14 + 8);
      Node* e = k < 14 ? un(u[k], arg()) : nullptr;
      if (!e) { Node* a = arg(); e = bin(b2[k - 14], a, arg()); }
      switch (sym_choice("in", 4)) { case 0: return e; case 1: return bin(ADD, bin(MUL, konst(-3), e), leaf(Y)); case 2: return bin(DIV, leaf(X), e); default: return bin(POW, e, konst(3)); } }
    case 3: return manyTerms();
    case 4: return iteAround();
    default: return powersOf();
  }
}
void stream(std::ostringstream& os, std::streamsize before) { sym_assert(os.precision() == before, "printing leaves the stream as it was"); }
}  // namespace

void harness() {
  Env env;
  const bool prefix = sym_cfg("prefix", 0);
  if (sym_cfg("what", 0) == 0) {
    Node* n = pickTree();
    Expression e;
    try { e = build(n, env); } catch (std::exception&) { sym_end_(); return; }
    std::ostringstream os;
    if (sym_choice("prec", 2)) os.precision(3);
    const std::streamsize before = os.precision();
    if (prefix) { PrefixPrinter pp{os}; pp.Print(e); } else { os << e; }
    stream(os, before);
    if (prefix) sym_assert(os.str() == ToPrefix(e), "the printer and the helper agree");
    const std::string text = os.str();
    Node* back = nullptr;
    try { P p{text.c_str()}; back = prefix ? p.pe() : p.E(); p.end(); } catch (Bad&) { sym_assert(false, "the text is well-formed"); return; }
    env.draw(); env.draw_bools();
    const double want = eval(back, env);
    double got;
    try { got = e.Evaluate(env.e); } catch (std::exception&) { sym_end_(); return; }
    sym_reach("defined");
    sym_assert_close(got, want, "the text denotes the expression");
  } else {
    Gen g;
    FNode* n = shape(g);
    Formula f;
    try { f = buildF(n, env); } catch (std::exception&) { sym_end_(); return; }
    std::ostringstream os;
    const std::streamsize before = os.precision();
    if (prefix) { PrefixPrinter pp{os}; pp.Print(f); } else { os << f; }
    stream(os, before);
    if (prefix) sym_assert(os.str() == ToPrefix(f), "the printer and the helper agree");
    const std::string text = os.str();
    FNode* back = nullptr;
    try { P p{text.c_str()}; back = prefix ? p.pf() : p.G(); p.end(); } catch (Bad&) { sym_assert(false, "the text is well-formed"); return; }
    env.draw(); env.draw_bools();
    const bool want = evalF(back, env);
    bool got;
    try { got = f.Evaluate(env.e); } catch (std::exception&) { sym_end_(); return; }
    sym_reach("defined");
    sym_assert(got == want, "the text denotes the formula");
  }
}
