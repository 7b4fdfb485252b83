// The arbitrary-but-sound part of the IBEX stand-in; included by one harness.
#pragma once
#include <ibex.h>
#include <map>
#include <string>
#include "sym.h"

namespace ibex {
// 1: defined, *r is the value; 0: undefined there.
inline int stub_scalar(StubOp op, double a, double b, double* r) {
  switch (op) {
    case S_ADD: *r = a + b; return 1;
    case S_SUB: *r = a - b; return 1;
    case S_MUL: *r = a * b; return 1;
    case S_DIV: if (b == 0) return 0; *r = a / b; return 1;
    case S_POW:
      if (a < 0 && !(b >= -2147483647.0 && b <= 2147483647.0 && std::floor(b) == b)) return 0;
      if (a == 0 && b < 0) return 0;
      *r = std::pow(a, b); return 1;
    case S_MIN: *r = b < a ? b : a; return 1;
    case S_MAX: *r = a < b ? b : a; return 1;
    case S_ATAN2: *r = std::atan2(a, b); return 1;
    case S_NEG: *r = -a; return 1;
    case S_SQR: *r = std::pow(a, 2.0); return 1;
    case S_ABS: *r = a < 0 ? -a : a; return 1;
    case S_SQRT: if (a < 0) return 0; *r = std::sqrt(a); return 1;
    case S_EXP: *r = std::exp(a); return 1;
    case S_LOG: if (a <= 0) return 0; *r = std::log(a); return 1;
    case S_SIN: *r = std::sin(a); return 1;
    case S_COS: *r = std::cos(a); return 1;
    case S_TAN: *r = std::tan(a); return 1;
    case S_ASIN: if (a < -1 || a > 1) return 0; *r = std::asin(a); return 1;
    case S_ACOS: if (a < -1 || a > 1) return 0; *r = std::acos(a); return 1;
    case S_ATAN: *r = std::atan(a); return 1;
    case S_SINH: *r = std::sinh(a); return 1;
    case S_COSH: *r = std::cosh(a); return 1;
    default: *r = std::tanh(a); return 1;
  }
}
// The point of interest, by variable name, when a harness sets it.
inline std::map<std::string, double>& stub_point() { static std::map<std::string, double> m; return m; }
inline std::map<std::string, double>::const_iterator stub_find(const std::string& n) { return stub_point().find(n.compare(0, 3, "ITE") == 0 ? "ITE" : n); }
inline bool stub_infinite(double d) { return d > 1e300 || d < -1e300; }
// Exact interval arithmetic (bound `exact`): sums, differences, multiples.
inline bool stub_exact(StubOp op, const Interval& a, const Interval& b, Interval* r) {
  const double al = a.lb(), au = a.ub(), bl = b.lb(), bu = b.ub();
  const double inf = std::numeric_limits<double>::infinity();
  if (op == S_ADD) {
    *r = Interval(stub_infinite(al) || stub_infinite(bl) ? -inf : al + bl, stub_infinite(au) || stub_infinite(bu) ? inf : au + bu);
    return true;
  }
  if (op == S_SUB) {
    *r = Interval(stub_infinite(al) || stub_infinite(bu) ? -inf : al - bu, stub_infinite(au) || stub_infinite(bl) ? inf : au - bl);
    return true;
  }
  if (op == S_NEG) { *r = Interval(-au, -al); return true; }
  if (op == S_MUL && al == au && !stub_infinite(bl) && !stub_infinite(bu)) { if (al >= 0) *r = Interval(al * bl, al * bu); else *r = Interval(al * bu, al * bl); return true; }
  if (op == S_MUL && bl == bu) return stub_exact(op, b, a, r);
  return false;
}
inline double stub_slack(const char* n) { const double d = sym_double(n); sym_assume(d >= 0); sym_assume(d < 1e9); return d; }
Interval stub_apply(StubOp op, const Interval& a, const Interval& b) {
  if (a.is_empty() || b.is_empty()) return Interval::empty_set();
  double r;
  if (sym_cfg("exact", 0)) { Interval e; if (stub_exact(op, a, b, &e)) return e; }
  if (a.has_witness() && b.has_witness() && stub_scalar(op, a.witness(), b.witness(), &r)) {
    if (a.lb() == a.ub() && b.lb() == b.ub() && op <= S_MUL) return Interval::ghost(r, r, r);
    return Interval::ghost(r - stub_slack("below"), r + stub_slack("above"), r);
  }
  const double lo = sym_double("lo");
  sym_assume(std::fabs(lo) < 1e9);
  return Interval(lo, lo + stub_slack("above"));
}
int stub_eval(const ExprNode& e, const std::vector<const ExprSymbol*>& syms, const IntervalVector& iv, double* r) {
  if (e.op == S_CONST) { *r = e.c; return 1; }
  if (e.op == S_RANGE) return -1;
  if (e.op == S_SYM) {
    const auto it = stub_find(static_cast<const ExprSymbol&>(e).name);
    if (it != stub_point().end()) { *r = it->second; return 1; }
    for (size_t i = 0; i < syms.size(); ++i) if (syms[i] == &e) { *r = iv[i].witness(); return iv[i].pinned() ? 1 : -1; }
    return 0;
  }
  double a, b = 0;
  const int x = stub_eval(*e.a, syms, iv, &a);
  if (x != 1) return x;
  if (e.b) { const int y = stub_eval(*e.b, syms, iv, &b); if (y != 1) return y; }
  return stub_scalar(e.op, a, b, r);
}
inline bool stub_holds(CmpOp op, double v) { switch (op) { case LT: return v < 0; case LEQ: return v <= 0; case EQ: return v == 0; case GEQ: return v >= 0; default: return v > 0; } }
// Rounding tolerance of the exact-arithmetic mode: a replay in doubles treats a value this close as satisfying.
inline bool stub_satisfied(const StubCtr& c, double v) {
  if (stub_holds(c.op, v)) return true;
  if (!sym_native_()) return false;
  return c.op == EQ ? std::fabs(v) < 1e-9 : c.op == LT || c.op == LEQ ? v < 1e-9 : v > -1e-9;
}
inline void stub_occurs(const ExprNode& e, const std::vector<const ExprSymbol*>& syms, std::vector<bool>& occ) {
  if (e.op == S_SYM) { for (size_t i = 0; i < syms.size(); ++i) if (syms[i] == &e) occ[i] = true; }
  if (e.a) stub_occurs(*e.a, syms, occ);
  if (e.b) stub_occurs(*e.b, syms, occ);
}
// How many more contractions have an effect; afterwards nothing changes, which is also sound.
inline int& stub_budget() { static int n = static_cast<int>(sym_cfg("contractions", 3)); return n; }
// Any contraction of the variables of the constraints that keeps the witness if
// it satisfies them (as far as these variables are concerned).
bool stub_contract(const std::vector<StubCtr>& ctrs, const std::vector<const ExprSymbol*>& syms, IntervalVector& iv) {
  if (iv.is_empty()) return false;
  if (const long h = sym_cfg("hull", 0)) {  // no point of interest lies outside
    for (int i = 0; i < iv.size(); ++i) if (stub_infinite(iv[i].lb()) || stub_infinite(iv[i].ub())) iv[i].bounds(-static_cast<double>(h), static_cast<double>(h));
  }
  if (stub_budget() <= 0) return true;
  std::vector<bool> occ(syms.size(), false);
  for (const StubCtr& c : ctrs) stub_occurs(*c.e, syms, occ);
  std::vector<int> dims;
  bool keep = true;
  for (size_t i = 0; i < occ.size(); ++i) {
    if (!occ[i]) continue;
    dims.push_back(static_cast<int>(i));
    const auto it = stub_find(syms[i]->name);
    if (it != stub_point().end()) { if (keep && !(iv[i].lb() <= it->second && it->second <= iv[i].ub())) keep = false; }
    else if (keep && iv[i].pinned() && !iv[i].has_witness()) keep = false;
  }
  for (size_t k = 0; k < ctrs.size() && keep; ++k) {
    double v;
    const int s = stub_eval(*ctrs[k].e, syms, iv, &v);
    if (s == 0 || (s == 1 && !stub_satisfied(ctrs[k], v))) keep = false;
  }
  const unsigned nd = static_cast<unsigned>(dims.size());
  const unsigned kind = sym_choice("contract", keep ? 1 + nd : 2 + nd);
  if (kind == 0) return true;
  --stub_budget();
  if (kind == 1 + nd) { iv.set_empty(); return false; }
  Interval& d = iv[dims[kind - 1]];
  // one bound moves
  const bool upper = sym_choice("upper", 2);
  const double b = sym_double("bound");
  const double lo = d.lb(), hi = d.ub();
  sym_assume(lo <= b); sym_assume(b <= hi);
  sym_assume(std::fabs(b) < 1e9);
  const auto it = stub_find(syms[dims[kind - 1]]->name);
  if (keep && it != stub_point().end()) { if (upper) sym_assume(it->second <= b); else sym_assume(b <= it->second); }
  else if (keep && d.pinned()) { if (upper) sym_assume(d.witness() <= b); else sym_assume(b <= d.witness()); }
  if (upper) d.bounds(lo, b); else d.bounds(b, hi);
  return false;
}
}  // namespace ibex
