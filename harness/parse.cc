// SMT-LIB scripts: the assertions a script leaves in the solver mean what the
// script says.
#include <cmath>
#include <memory>
#include <string>
#include <vector>
#include "dreal/smt2/driver.h"
#include "dreal/solver/context.h"
#include "ibex_stub.h"
#include "picosat_stub.h"
#include "sym.h"

namespace {
using namespace dreal;  // NOLINT
using std::string;
using std::vector;

struct N;
using T = std::shared_ptr<N>;
struct N {
  string s, sym;   // text; operator or name
  vector<T> k;
  vector<string> names;  // bound names
  double c{0};
};
struct V { double d; bool b; };
struct B { string name; V v; };
using Env = vector<B>;
struct F { string name; vector<string> params; T body; };
vector<F> functions;
double point[4];  // values of quantified variables

T mk(const string& sym, const vector<T>& k) {
  T t = std::make_shared<N>();
  t->sym = sym; t->k = k; t->s = "(" + sym;
  for (const T& x : k) t->s += " " + x->s;
  t->s += ")";
  return t;
}
T leaf(const string& name) { T t = std::make_shared<N>(); t->sym = "var"; t->s = name; return t; }
T num(const char* text, double c) { T t = std::make_shared<N>(); t->sym = "num"; t->s = text; t->c = c; return t; }
T let(const vector<string>& names, const vector<T>& ts, const T& body) {
  T t = std::make_shared<N>();
  t->sym = "let"; t->k = ts; t->k.push_back(body); t->names = names; t->s = "(let (";
  for (size_t i = 0; i < names.size(); ++i) t->s += "(" + names[i] + " " + ts[i]->s + ")";
  t->s += ") " + body->s + ")";
  return t;
}

V eval(const T& t, const Env& e);
double dv(const T& t, const Env& e) { return eval(t, e).d; }
bool bv(const T& t, const Env& e) { return eval(t, e).b; }
V D(double d) { return V{d, false}; }
V Bo(bool b) { return V{0, b}; }
bool formula(const T& t);

V eval(const T& t, const Env& e) {
  const string& o = t->sym;
  const vector<T>& k = t->k;
  if (o == "num") return D(t->c);
  if (o == "true") return Bo(true);
  if (o == "false") return Bo(false);
  if (o == "var") { for (size_t i = e.size(); i-- > 0;) if (e[i].name == t->s) return e[i].v; sym_end_(); }
  if (o == "let") {
    Env n{e};
    for (size_t i = 0; i + 1 < k.size(); ++i) n.push_back(B{t->names[i], eval(k[i], e)});
    return eval(k.back(), n);
  }
  for (const F& f : functions) if (f.name == o) {
    Env n{e};
    for (size_t i = 0; i < k.size(); ++i) n.push_back(B{f.params[i], eval(k[i], e)});
    return eval(f.body, n);
  }
  if (o == "not") return Bo(!bv(k[0], e));
  if (o == "=>") return Bo(!bv(k[0], e) | bv(k[1], e));
  if (o == "and") { bool r = true; for (const T& x : k) r = r & bv(x, e); return Bo(r); }
  if (o == "or") { bool r = false; for (const T& x : k) r = r | bv(x, e); return Bo(r); }
  if (o == "xor") { bool r = false; for (const T& x : k) r = r != bv(x, e); return Bo(r); }
  const V a = eval(k[0], e);
  if (o == "ite") { const V p = eval(k[1], e), q = eval(k[2], e); return a.b ? p : q; }
  if (o == "abs") return D(std::fabs(a.d));
  if (o == "exp") return D(std::exp(a.d));
  if (o == "sin") return D(std::sin(a.d));
  if (o == "cos") return D(std::cos(a.d));
  if (o == "tanh") return D(std::tanh(a.d));
  if (o == "atan") return D(std::atan(a.d));
  if (o == "sinh") return D(std::sinh(a.d));
  if (o == "cosh") return D(std::cosh(a.d));
  if (o == "tan") return D(std::tan(a.d));
  if (k.size() == 1) return o == "-" ? D(-a.d) : a;
  const V b = eval(k[1], e);
  if (o == "=") return Bo(formula(k[0]) ? a.b == b.b : a.d == b.d);
  if (o == "<") return Bo(a.d < b.d);
  if (o == "<=") return Bo(a.d <= b.d);
  if (o == ">") return Bo(a.d > b.d);
  if (o == ">=") return Bo(a.d >= b.d);
  if (o == "min") return D(b.d < a.d ? b.d : a.d);
  if (o == "max") return D(a.d < b.d ? b.d : a.d);
  if (o == "atan2") return D(std::atan2(a.d, b.d));
  if (o == "^" || o == "pow") return D(std::pow(a.d, b.d));
  double r = a.d;
  for (size_t i = 1; i < k.size(); ++i) {
    const double x = eval(k[i], e).d;
    if (o == "+") r = r + x; else if (o == "-") r = r - x; else if (o == "*") r = r * x; else { sym_assume(x != 0); r = r / x; }
  }
  return D(r);
}

vector<string> booleans;
bool formula(const T& t) {
  static const char* fs[] = {"not", "=>", "and", "or", "xor", "=", "<", "<=", ">", ">=", "true", "false", "p", "q", "b", "g"};
  if (t->sym == "ite" || t->sym == "let") return formula(t->k.back());
  const string& n = t->sym == "var" ? t->s : t->sym;
  for (const char* f : fs) if (n == f) return true;
  return false;
}

vector<string> reals, bools;  // names in scope
int slice;

T literal() {
  switch (sym_choice("literal", slice == 4 ? 12 : 3)) {
    case 0: return num("2", 2);
    case 1: return num("0.5", 0.5);
    case 2: return num("-1.25", -1.25);
    case 3: return num("0x1.8p1", 3);
    case 4: return num("1e2", 100);
    case 5: return num("25e-2", 0.25);
    case 6: return num("3.", 3);
    case 7: return num(".5", 0.5);
    case 8: return num("+1.5", 1.5);
    case 9: return num("-0", 0);
    case 10: return num("-2.5E+1", -25);
    default: return num("007", 7);
  }
}
T form(int d);
T real(int d) {
  const unsigned nr = static_cast<unsigned>(reals.size());
  if (d == 0) {
    const unsigned c = sym_choice("leaf", nr + 1);
    return c < nr ? leaf(reals[c]) : literal();
  }
  const bool one = sym_cfg("one", 0);  // one operand is a leaf
  auto kid = [&](int i) { return real(one && i ? 0 : d - 1); };
  switch (slice) {
    case 0: case 4:  // arithmetic
      switch (sym_choice("op", 8)) {
        case 0: return mk("+", {kid(0), kid(1)});
        case 1: return mk("-", {kid(0), kid(1)});
        case 2: return mk("*", {kid(0), kid(1)});
        case 3: return mk("/", {kid(0), slice == 4 ? real(0) : num("4", 4)});
        case 4: return mk("-", {kid(0)});
        case 5: return mk("-", {kid(0), kid(1), real(0)});
        case 6: return mk(sym_choice("sum", 2) ? "+" : "*", {kid(0), kid(1), real(0)});
        default: return mk("+", {kid(0)});
      }
    case 1:  // functions
      switch (sym_choice("function", 14)) {
        case 0: return mk("abs", {kid(0)});
        case 1: return mk("min", {kid(0), kid(1)});
        case 2: return mk("max", {kid(0), kid(1)});
        case 3: return mk("exp", {kid(0)});
        case 4: return mk("sin", {kid(0)});
        case 5: return mk("cos", {kid(0)});
        case 6: return mk("tanh", {kid(0)});
        case 7: return mk("atan", {kid(0)});
        case 8: return mk("sinh", {kid(0)});
        case 9: return mk("cosh", {kid(0)});
        case 10: return mk("tan", {kid(0)});
        case 11: return mk(sym_choice("pow", 2) ? "pow" : "^", {leaf(reals[sym_choice("base", nr)]), sym_choice("exponent", 2) ? num("3", 3) : num("2", 2)});
        case 12: return mk("ite", {form(0), kid(0), kid(1)});
        default: return mk("atan2", {kid(0), kid(1)});
      }
    default:
      switch (sym_choice("op", 4)) {
        case 0: return mk("+", {kid(0), kid(1)});
        case 1: return mk("*", {kid(0), kid(1)});
        case 2: return mk("ite", {form(0), kid(0), kid(1)});
        default: return mk("-", {kid(0), kid(1)});
      }
  }
}
T relation(int d) {
  static const char* ops[] = {"<", "<=", ">", ">=", "="};
  const char* o = ops[sym_choice("relation", 5)];
  return mk(o, {real(d), real(0)});
}
T form(int d) {
  const unsigned nb = static_cast<unsigned>(bools.size());
  if (d == 0) {
    const unsigned c = sym_choice("atom", nb + 2);
    if (c < nb) return leaf(bools[c]);
    return c == nb ? relation(0) : (sym_choice("truth", 2) ? mk("<", {leaf(reals[0]), num("1", 1)}) : [] { T t = leaf("true"); t->sym = "true"; return t; }());
  }
  switch (sym_choice("connective", 10)) {
    case 0: return mk("not", {form(d - 1)});
    case 1: return mk("and", {form(d - 1), form(0)});
    case 2: return mk("or", {form(d - 1), form(0)});
    case 3: return mk("xor", {form(d - 1), form(0)});
    case 4: return mk("=>", {form(d - 1), form(0)});
    case 5: return mk("=>", {form(0), form(d - 1)});
    case 6: return mk("=", {form(d - 1), form(0)});
    case 7: return mk("ite", {form(0), form(d - 1), form(0)});
    case 8: return mk(sym_choice("nary", 2) ? "and" : "or", {form(d - 1), form(0), form(0)});
    default: return mk("xor", {form(d - 1), form(0), form(0)});
  }
}
// A binder: locals are bound at once and shadow outer names.
T binding(int d, bool outer) {
  auto simple = [](int i) { return sym_choice("value", 2) ? mk("+", {leaf(reals[i % reals.size()]), num("1", 1)}) : mk("*", {leaf(reals[(i + 1) % reals.size()]), num("2", 2)}); };
  switch (sym_choice("binder", 4)) {
    case 0: { const T v = simple(0); return let({"x"}, {v}, d ? binding(d - 1, outer) : relation(0)); }
    case 1: { const T v = simple(0), w = simple(1); return let({"x", "y"}, {v, w}, d ? binding(d - 1, outer) : relation(0)); }
    case 2: { const T v = form(0); bools.push_back("q"); const T t = let({"q"}, {v}, d ? binding(d - 1, outer) : form(1)); bools.pop_back(); return t; }
    default: return mk(sym_choice("and", 2) ? "and" : "or", {relation(0), d ? binding(d - 1, outer) : relation(0)});
  }
}
T letterm(int d) {
  const T v = real(1);
  const bool b = sym_choice("boolean", 2);
  const T c = b ? form(0) : v;
  if (b) bools.push_back("q"); else reals.push_back("v");
  const T body = d ? letterm(d - 1) : mk("ite", {form(0), real(0), real(0)});
  if (b) bools.pop_back(); else reals.pop_back();
  return let({b ? "q" : "v"}, {c}, body);
}
// Equations of the variable with something known.
void definitions(const Formula& f, const Variable& v, const Environment& at, vector<Expression>* out) {
  if (is_negation(f)) return definitions(get_operand(f), v, at, out);
  if (is_conjunction(f) || is_disjunction(f)) { for (const Formula& g : get_operands(f)) definitions(g, v, at, out); return; }
  if (!is_equal_to(f)) return;
  const Expression s[2] = {get_lhs_expression(f), get_rhs_expression(f)};
  for (int i = 0; i < 2; ++i) {
    if (!is_variable(s[i]) || !get_variable(s[i]).equal_to(v)) continue;
    bool known = true;
    for (const Variable& w : s[1 - i].GetVariables()) known = known && at.find(w) != at.end();
    if (known) out->push_back(s[1 - i]);
  }
}
// Some value of the auxiliary variables satisfies the formulas.
bool exists(const Environment& at, const vector<Variable>& aux, const vector<Formula>& fs, const Box& box) {
  if (aux.empty()) {
    bool r = true;
    for (const Formula& f : fs) r = r & f.Evaluate(at);
    return r;
  }
  size_t which = 0;
  vector<double> values;
  for (; which < aux.size() && values.empty(); ++which) {
    vector<Expression> es;
    if (aux[which].get_type() == Variable::Type::BOOLEAN) { values = {0, 1}; continue; }
    for (const Formula& f : fs) definitions(f, aux[which], at, &es);
    for (const Expression& e : es) values.push_back(e.Evaluate(at));
  }
  if (values.empty()) values.push_back(0);  // it occurs in no assertion
  --which;
  vector<Variable> rest(aux);
  rest.erase(rest.begin() + static_cast<std::ptrdiff_t>(which));
  bool r = false;
  for (const double d : values) {
    const double lb = box[aux[which]].lb(), ub = box[aux[which]].ub();
    const double l = std::nextafter(lb, -HUGE_VAL), u = std::nextafter(ub, HUGE_VAL);
    if (lb > -1e300) sym_assume((d <= l) | (d >= lb));
    if (ub < 1e300) sym_assume((d >= u) | (d <= ub));
    Environment e{at};
    e.insert(aux[which], d);
    r = r | (((lb <= -1e300) | (lb <= d)) & ((ub >= 1e300) | (d <= ub)) & exists(e, rest, fs, box));
  }
  return r;
}
}  // namespace

void harness() {
  slice = static_cast<int>(sym_cfg("slice", 0));
  const int depth = static_cast<int>(sym_cfg("depth", 1));
  reals = {"x", "y"}; bools = {"p"}; functions.clear();
  const bool integer = sym_choice("int", 2);
  const double X = sym_double("X"), Y = integer ? static_cast<double>(sym_choice("Y", 7)) - 3 : sym_double("Y"), Z = sym_double("Z");
  const bool P = sym_choice("P", 2);
  Env env{{"x", D(X)}, {"y", D(Y)}, {"p", Bo(P)}};
  string text = "(set-logic QF_NRA)\n(set-info :status sat)\n(set-option :precision 0.125)\n(declare-fun x () Real)\n";
  text += integer ? "(declare-const y Int [-2, 3])\n" : "(declare-fun y () Real [-2, 3.5])\n";
  text += "(declare-const p Bool)\n";
  bool holds = (-2 <= Y) & (Y <= (integer ? 3 : 3.5));
  T quantified;  // the body below a quantifier
  bool bounded = false;
  vector<T> asserted;
  switch (slice) {
    case 0: case 1: asserted.push_back(relation(depth)); break;
    case 4: reals = {"x"}; asserted.push_back(mk("<", {real(depth), num("1", 1)})); break;
    case 2: asserted.push_back(form(depth)); if (sym_choice("two", 2)) asserted.push_back(form(0)); break;
    case 3: asserted.push_back(binding(depth, false)); break;
    case 5: {  // functions
      functions.push_back(F{});
      F& f = functions.back();
      const unsigned kind = sym_choice("kind", 3);
      if (kind == 0) {  // parameters shadow variables, in either order
        f.name = "f";
        f.params = sym_choice("order", 2) ? vector<string>{"y", "x"} : vector<string>{"x", "z"};
        reals = {f.params[0], f.params[1]}; 
        slice = 6; f.body = sym_cfg("let", 0) ? letterm(depth) : real(depth);
        text += "(define-fun f ((" + f.params[0] + " Real) (" + f.params[1] + " Real)) Real " + f.body->s + ")\n";
        reals = {"x", "y"};
        const T a = real(0), b = real(0);
        T call = mk("f", {a, b});
        if (sym_choice("nested", 2)) call = sym_choice("first", 2) ? mk("f", {call, real(0)}) : mk("f", {real(0), call});
        asserted.push_back(mk("<=", {call, real(0)}));
      } else if (kind == 1) {
        f.name = "g"; f.params = {"b", "x"}; 
        bools = {"b", "p"}; f.body = sym_cfg("let", 0) ? binding(depth, true) : form(depth);
        text += "(define-fun g ((b Bool) (x Real)) Bool " + f.body->s + ")\n";
        bools = {"p"};
        T call = mk("g", {form(0), real(0)});
        if (sym_choice("nested", 2)) call = mk("g", {call, real(0)});
        asserted.push_back(call);
      } else {
        const T body = real(1);
        text += "(define-fun c () Real " + body->s + ")\n";
        functions.clear();
        env.push_back(B{"c", D(dv(body, env))});
        reals.push_back("c");
        asserted.push_back(relation(0));
      }
      break;
    }
    case 7: {  // quantifiers
      const unsigned q = sym_choice("domain", 3);
      bounded = q != 0;
      const char* name = sym_choice("shadow", 2) ? "x" : "z";
      reals = {"y", "x", name};
      const unsigned second = sym_choice("second", 3);
      if (second == 1) bools.push_back("b");
      const T b = sym_cfg("let", 0) ? binding(depth, true) : form(depth);
      text += string("(assert (forall ((") + name + " Real" + (q == 0 ? ")" : q == 1 ? " [-1, 2])" : " [-0.5, 4])")
          + (second == 1 ? " (b Bool)" : second == 2 ? " (w Real [0, 1])" : "") + ") " + b->s + "))\n";
      quantified = b;
      env.push_back(B{name, D(Z)});
      if (bounded) { sym_assume(Z >= (q == 1 ? -1 : -0.5)); sym_assume(Z <= (q == 1 ? 2 : 4)); }
      break;
    }
    default: {  // scopes
      const unsigned where = sym_choice("where", 3);
      const T a = relation(0), b = relation(0);
      if (where == 0) text += "(push 1)\n(assert " + a->s + ")\n(pop 1)\n(assert " + b->s + ")\n", holds = holds & bv(b, env);
      else if (where == 1) text += "(assert " + a->s + ")\n(push 2)\n(assert " + b->s + ")\n(pop 1)\n", holds = holds & bv(a, env);
      else text += "(assert " + a->s + ")\n(push 1)\n(push 1)\n(assert " + b->s + ")\n", holds = holds & (bv(a, env) & bv(b, env));
      break;
    }
  }
  for (const T& t : asserted) { text += "(assert " + t->s + ")\n"; holds = holds & bv(t, env); }
  if (quantified) {
    env.push_back(B{"b", Bo(true)});
    holds = holds & bv(quantified, env);
    env.back().v = Bo(false);
    holds = holds & bv(quantified, env);
  }

  Context ctx;
  Smt2Driver driver{std::move(ctx)};
  bool ok = false;
  try {
    ok = driver.parse_string(text, "script");
  } catch (std::exception&) {
    sym_assert(false, "a well-formed script is accepted");
    return;
  }
  sym_assert(ok, "a well-formed script is accepted");
  if (!ok) return;
  sym_reach("parsed");

  const Context& c = driver.mutable_context();
  const Box& box = c.box();
  Environment at;
  vector<Variable> aux;
  bool x = false, y = false, p = false;
  bool meaning = true;
  for (int i = 0; i < box.size(); ++i) {
    const Variable& v = box.variable(i);
    const double lb = box[i].lb(), ub = box[i].ub();
    // Bounds move into the domain, strict ones by one floating-point number.
    auto in = [&](double d) {
      const double l = std::nextafter(lb, -HUGE_VAL), u = std::nextafter(ub, HUGE_VAL);
      if (lb > -1e300) sym_assume((d <= l) | (d >= lb));
      if (ub < 1e300) sym_assume((d >= u) | (d <= ub));
      meaning = meaning & ((lb <= -1e300) | (lb <= d)) & ((ub >= 1e300) | (d <= ub));
    };
    if (v.get_name() == "x") { in(X); at.insert(v, X); x = v.get_type() == Variable::Type::CONTINUOUS; }
    else if (v.get_name() == "y") { in(Y); at.insert(v, Y); y = v.get_type() == (integer ? Variable::Type::INTEGER : Variable::Type::CONTINUOUS); }
    else if (v.get_name() == "p") { in(P ? 1 : 0); at.insert(v, P ? 1 : 0); p = v.get_type() == Variable::Type::BOOLEAN; }
    else if (v.get_name() == "c") { at.insert(v, env[3].v.d); in(env[3].v.d); }
    else { aux.push_back(v); }
  }
  sym_assert(x && y && p, "variables have their declared sorts");
  sym_assert(c.config().precision() == 0.125, "options are set");
  vector<Formula> todo(c.assertions().begin(), c.assertions().end());
  vector<Formula> fs;
  for (Formula f : todo) {
    if (is_forall(f)) {
      for (const Variable& v : get_quantified_variables(f)) {
        sym_assert(v.get_type() != Variable::Type::BOOLEAN, "no Boolean variable is quantified");
        at.insert(v, v.get_name() == "w" ? 0.5 : Z);
      }
      f = Formula{get_quantified_formula(f)};
    }
    for (const Variable& v : f.GetFreeVariables()) {
      bool known = at.find(v) != at.end();
      for (const Variable& w : aux) known = known || v.equal_to(w);
      sym_assert(known, "the assertions speak of declared variables only");
      if (!known) return;
    }
    fs.push_back(f);
  }
  meaning = meaning & exists(at, aux, fs, box);
  sym_assert(meaning == holds, "the assertions mean what the script says");
}
