// Stand-in for the IBEX library (not installed here): what dReal may rely on.
// An interval library and its contractors are allowed to return any sound
// enclosure, so the enclosure is left to the solver: results are arbitrary
// intervals that contain the witness point when the arguments do.  Bounds
// themselves (mid, diam, bisect, set operations) follow IBEX.
#pragma once
#include <cassert>
#include <cfloat>
#include <cmath>
#include <iostream>
#include <limits>
#include <string>
#include <utility>
#include <vector>

namespace ibex {
constexpr double kInf = std::numeric_limits<double>::infinity();
enum StubOp { S_ADD, S_SUB, S_MUL, S_DIV, S_POW, S_MIN, S_MAX, S_ATAN2, S_NEG, S_SQR, S_ABS, S_SQRT, S_EXP, S_LOG, S_SIN, S_COS, S_TAN, S_ASIN, S_ACOS, S_ATAN, S_SINH, S_COSH, S_TANH, S_CONST, S_RANGE, S_SYM };

class Interval {
 public:
  static const Interval ONE, ZERO;
  Interval() : lo_(-kInf), hi_(kInf) {}
  Interval(double v) : lo_(v), hi_(v) { if (v == kInf || v == -kInf) raw_empty(); else { w_ = v; g_ = 1; } }
  Interval(double a, double b) : lo_(a), hi_(b) { if (!(a <= b) || a == kInf || b == -kInf) raw_empty(); }
  Interval(const Interval& o) = default;
  Interval& operator=(const Interval& o) {
    lo_ = o.lo_; hi_ = o.hi_;
    if (g_ != 2) { w_ = o.w_; g_ = o.g_ ? 1 : 0; }
    return *this;
  }
  double lb() const { return lo_; }
  double ub() const { return hi_; }
  bool is_empty() const { return lo_ > hi_; }
  void set_empty() { lo_ = kInf; hi_ = -kInf; }
  bool is_degenerated() const { return is_empty() || lo_ == hi_; }
  bool is_unbounded() const { return !is_empty() && (lo_ == -kInf || hi_ == kInf); }
  double mid() const {
    if (is_empty()) return std::numeric_limits<double>::quiet_NaN();
    double m;
    if (lo_ == -kInf) m = hi_ == kInf ? 0.0 : -DBL_MAX;
    else if (hi_ == kInf) m = DBL_MAX;
    else { m = 0.5 * lo_ + 0.5 * hi_; }
    return m < lo_ ? lo_ : m > hi_ ? hi_ : m;
  }
  double diam() const { return is_empty() ? 0.0 : lo_ == -kInf || hi_ == kInf ? kInf : hi_ - lo_; }
  double rad() const { return is_empty() ? 0.0 : 0.5 * diam(); }
  double mag() const { const double a = lo_ < 0 ? -lo_ : lo_, b = hi_ < 0 ? -hi_ : hi_; return a > b ? a : b; }
  double mig() const { return lo_ > 0 ? lo_ : hi_ < 0 ? -hi_ : 0.0; }
  bool contains(double d) const { return lo_ <= d && d <= hi_; }
  bool is_subset(const Interval& o) const { return is_empty() || (o.lo_ <= lo_ && hi_ <= o.hi_); }
  bool is_superset(const Interval& o) const { return o.is_subset(*this); }
  bool intersects(const Interval& o) const { return !is_empty() && !o.is_empty() && lo_ <= o.hi_ && o.lo_ <= hi_; }
  bool is_bisectable() const { if (is_empty()) return false; const double m = mid(); return lo_ < m && m < hi_; }
  std::pair<Interval, Interval> bisect(double ratio = 0.5) const {
    assert(is_bisectable());
    assert(0 < ratio && ratio < 1);
    double m;
    if (lo_ == -kInf) m = hi_ == kInf ? 0.0 : -DBL_MAX;
    else if (hi_ == kInf) m = DBL_MAX;
    else if (ratio == 0.5) m = mid();
    else { m = lo_ + ratio * diam(); if (m >= hi_) m = mid(); }
    return std::make_pair(Interval(lo_, m), Interval(m, hi_));
  }
  Interval& operator&=(const Interval& o) {
    if (is_empty()) return *this;
    if (o.is_empty()) { set_empty(); return *this; }
    const double a = lo_ < o.lo_ ? o.lo_ : lo_, b = hi_ > o.hi_ ? o.hi_ : hi_;
    if (a > b) set_empty(); else { lo_ = a; hi_ = b; }
    return *this;
  }
  Interval& operator|=(const Interval& o) {
    if (o.is_empty()) return *this;
    if (is_empty()) { lo_ = o.lo_; hi_ = o.hi_; return *this; }
    if (o.lo_ < lo_) lo_ = o.lo_;
    if (o.hi_ > hi_) hi_ = o.hi_;
    return *this;
  }
  bool operator==(const Interval& o) const { return is_empty() ? o.is_empty() : (!o.is_empty() && lo_ == o.lo_ && hi_ == o.hi_); }
  bool operator!=(const Interval& o) const { return !(*this == o); }
  Interval& operator+=(const Interval& o); Interval& operator-=(const Interval& o); Interval& operator*=(const Interval& o); Interval& operator/=(const Interval& o);

  // For the harness: fixes the coordinate of the witness point in this place.
  void pin(double w) { w_ = w; g_ = 2; }
  bool has_witness() const { return g_ && lo_ <= w_ && w_ <= hi_; }
  double witness() const { return w_; }
  bool pinned() const { return g_ == 2; }
  static Interval ghost(double lo, double hi, double w) { Interval i(lo, hi); i.w_ = w; i.g_ = 1; return i; }
  void bounds(double lo, double hi) { lo_ = lo; hi_ = hi; }
  static Interval empty_set() { Interval i; i.set_empty(); return i; }
  static Interval all_reals() { return Interval(); }

 private:
  void raw_empty() { lo_ = kInf; hi_ = -kInf; }
  double lo_, hi_, w_{0};
  char g_{0};
};
inline std::ostream& operator<<(std::ostream& os, const Interval& i) { return i.is_empty() ? os << "[ empty ]" : os << "[" << i.lb() << ", " << i.ub() << "]"; }

// Any sound result (ibex_stub.h).
Interval stub_apply(StubOp op, const Interval& a, const Interval& b);
inline Interval operator+(const Interval& a, const Interval& b) { return stub_apply(S_ADD, a, b); }
inline Interval operator-(const Interval& a, const Interval& b) { return stub_apply(S_SUB, a, b); }
inline Interval operator*(const Interval& a, const Interval& b) { return stub_apply(S_MUL, a, b); }
inline Interval operator/(const Interval& a, const Interval& b) { return stub_apply(S_DIV, a, b); }
inline Interval operator-(const Interval& a) { return stub_apply(S_NEG, a, a); }
inline Interval& Interval::operator+=(const Interval& o) { return *this = *this + o; }
inline Interval& Interval::operator-=(const Interval& o) { return *this = *this - o; }
inline Interval& Interval::operator*=(const Interval& o) { return *this = *this * o; }
inline Interval& Interval::operator/=(const Interval& o) { return *this = *this / o; }
inline Interval operator&(Interval a, const Interval& b) { a &= b; return a; }
inline Interval operator|(Interval a, const Interval& b) { a |= b; return a; }
inline Interval pow(const Interval& a, int n) { return stub_apply(S_POW, a, Interval(double(n))); }
inline Interval pow(const Interval& a, double d) { return stub_apply(S_POW, a, Interval(d)); }
inline Interval pow(const Interval& a, const Interval& b) { return stub_apply(S_POW, a, b); }
inline Interval atan2(const Interval& a, const Interval& b) { return stub_apply(S_ATAN2, a, b); }
inline Interval min(const Interval& a, const Interval& b) { return stub_apply(S_MIN, a, b); }
inline Interval max(const Interval& a, const Interval& b) { return stub_apply(S_MAX, a, b); }
#define IBEX_STUB_UNARY(X) X(sqr, S_SQR) X(abs, S_ABS) X(sqrt, S_SQRT) X(exp, S_EXP) X(log, S_LOG) X(sin, S_SIN) X(cos, S_COS) X(tan, S_TAN) X(asin, S_ASIN) X(acos, S_ACOS) X(atan, S_ATAN) X(sinh, S_SINH) X(cosh, S_COSH) X(tanh, S_TANH)
#define IBEX_STUB_DEF(f, op) inline Interval f(const Interval& a) { return stub_apply(op, a, a); }
IBEX_STUB_UNARY(IBEX_STUB_DEF)
#undef IBEX_STUB_DEF

__attribute__((weak)) const Interval Interval::ONE(1.0);
__attribute__((weak)) const Interval Interval::ZERO(0.0);

class IntervalVector {
 public:
  explicit IntervalVector(int n = 1) : v_(n) { assert(n >= 1); }
  IntervalVector(int n, const Interval& i) : v_(n, i) { assert(n >= 1); }
  int size() const { return static_cast<int>(v_.size()); }
  void resize(int n) { if (n == size()) return; const bool e = is_empty(); v_.resize(n); if (e) set_empty(); }
  Interval& operator[](int i) { assert(i >= 0 && i < size()); return v_[i]; }
  const Interval& operator[](int i) const { assert(i >= 0 && i < size()); return v_[i]; }
  // As in IBEX, the first component tells whether the box is empty.
  bool is_empty() const { return v_[0].is_empty(); }
  void set_empty() { v_[0].set_empty(); }
  IntervalVector& operator|=(const IntervalVector& o) {
    assert(size() == o.size());
    if (o.is_empty()) return *this;
    if (is_empty()) { for (int i = 0; i < size(); ++i) v_[i] = o.v_[i]; return *this; }
    for (int i = 0; i < size(); ++i) v_[i] |= o.v_[i];
    return *this;
  }
  IntervalVector& operator&=(const IntervalVector& o) {
    assert(size() == o.size());
    if (is_empty()) return *this;
    if (o.is_empty()) { set_empty(); return *this; }
    for (int i = 0; i < size(); ++i) { v_[i] &= o.v_[i]; if (v_[i].is_empty()) { set_empty(); break; } }
    return *this;
  }
  bool operator==(const IntervalVector& o) const {
    if (size() != o.size()) return false;
    if (is_empty() || o.is_empty()) return is_empty() && o.is_empty();
    for (int i = 0; i < size(); ++i) if (v_[i] != o.v_[i]) return false;
    return true;
  }
  bool operator!=(const IntervalVector& o) const { return !(*this == o); }
  double max_diam() const { double m = 0; for (const Interval& i : v_) if (i.diam() > m) m = i.diam(); return m; }

 private:
  std::vector<Interval> v_;
};
inline std::ostream& operator<<(std::ostream& os, const IntervalVector& v) { os << "("; for (int i = 0; i < v.size(); ++i) os << (i ? " ; " : "") << v[i]; return os << ")"; }

struct Dim { static Dim scalar() { return Dim(); } };
class ExprCtr;
enum CmpOp { LT, LEQ, EQ, GEQ, GT };
class ExprNode {
 public:
  ExprNode(StubOp o, const ExprNode* x = nullptr, const ExprNode* y = nullptr) : op(o), a(x), b(y) {}
  virtual ~ExprNode() {}
  const ExprCtr& operator=(const ExprNode& o) const;
  StubOp op;
  const ExprNode* a;
  const ExprNode* b;
  double c{0};
  Interval range;
};
class ExprSymbol : public ExprNode {
 public:
  ExprSymbol(const char* n) : ExprNode(S_SYM), name(n) {}
  static const ExprSymbol& new_(const char* n, const Dim&) { return *new ExprSymbol(n); }
  using ExprNode::operator=;
  std::string name;
};
class ExprConstant : public ExprNode {
 public:
  ExprConstant() : ExprNode(S_CONST) {}
  static const ExprConstant& new_scalar(double v) { ExprConstant* e = new ExprConstant; e->c = v; return *e; }
  static const ExprConstant& new_scalar(const Interval& v) { ExprConstant* e = new ExprConstant; e->op = S_RANGE; e->range = v; return *e; }
};
class ExprCtr {
 public:
  ExprCtr(const ExprNode& x, CmpOp o) : e(x), op(o) {}
  const ExprNode& e;
  CmpOp op;
};
inline const ExprNode& stub_node(StubOp op, const ExprNode& a, const ExprNode* b = nullptr) { return *new ExprNode(op, &a, b); }
inline const ExprNode& operator+(const ExprNode& a, const ExprNode& b) { return stub_node(S_ADD, a, &b); }
inline const ExprNode& operator-(const ExprNode& a, const ExprNode& b) { return stub_node(S_SUB, a, &b); }
inline const ExprNode& operator*(const ExprNode& a, const ExprNode& b) { return stub_node(S_MUL, a, &b); }
inline const ExprNode& operator/(const ExprNode& a, const ExprNode& b) { return stub_node(S_DIV, a, &b); }
inline const ExprNode& operator-(const ExprNode& a) { return stub_node(S_NEG, a); }
inline const ExprNode& operator+(double a, const ExprNode& b) { return ExprConstant::new_scalar(a) + b; }
inline const ExprNode& operator+(const ExprNode& a, double b) { return a + ExprConstant::new_scalar(b); }
inline const ExprNode& operator-(double a, const ExprNode& b) { return ExprConstant::new_scalar(a) - b; }
inline const ExprNode& operator-(const ExprNode& a, double b) { return a - ExprConstant::new_scalar(b); }
inline const ExprNode& operator*(double a, const ExprNode& b) { return ExprConstant::new_scalar(a) * b; }
inline const ExprNode& operator*(const ExprNode& a, double b) { return a * ExprConstant::new_scalar(b); }
inline const ExprNode& operator/(double a, const ExprNode& b) { return ExprConstant::new_scalar(a) / b; }
inline const ExprNode& operator/(const ExprNode& a, double b) { return a / ExprConstant::new_scalar(b); }
inline const ExprNode& pow(const ExprNode& a, const ExprNode& b) { return stub_node(S_POW, a, &b); }
inline const ExprNode& pow(const ExprNode& a, int n) { return pow(a, ExprConstant::new_scalar(double(n))); }
inline const ExprNode& pow(const ExprNode& a, double d) { return pow(a, ExprConstant::new_scalar(d)); }
inline const ExprNode& pow(double d, const ExprNode& a) { return pow(ExprConstant::new_scalar(d), a); }
inline const ExprNode& atan2(const ExprNode& a, const ExprNode& b) { return stub_node(S_ATAN2, a, &b); }
inline const ExprNode& min(const ExprNode& a, const ExprNode& b) { return stub_node(S_MIN, a, &b); }
inline const ExprNode& max(const ExprNode& a, const ExprNode& b) { return stub_node(S_MAX, a, &b); }
#define IBEX_STUB_DEF(f, op) inline const ExprNode& f(const ExprNode& a) { return stub_node(op, a); }
IBEX_STUB_UNARY(IBEX_STUB_DEF)
#undef IBEX_STUB_DEF
inline const ExprCtr& stub_ctr(const ExprNode& a, const ExprNode& b, CmpOp op) {
  if (b.op == S_CONST && b.c == 0) return *new ExprCtr(a, op);
  return *new ExprCtr(a - b, op);
}
inline const ExprCtr& ExprNode::operator=(const ExprNode& o) const { return stub_ctr(*this, o, EQ); }
inline const ExprCtr& operator<(const ExprNode& a, const ExprNode& b) { return stub_ctr(a, b, LT); }
inline const ExprCtr& operator<=(const ExprNode& a, const ExprNode& b) { return stub_ctr(a, b, LEQ); }
inline const ExprCtr& operator>(const ExprNode& a, const ExprNode& b) { return stub_ctr(a, b, GT); }
inline const ExprCtr& operator>=(const ExprNode& a, const ExprNode& b) { return stub_ctr(a, b, GEQ); }
inline void cleanup(const ExprNode&, bool) {}

template <typename T>
class Array {
 public:
  void add(T& t) { v_.push_back(&t); }
  int size() const { return static_cast<int>(v_.size()); }
  T& operator[](int i) const { return *v_[i]; }

 private:
  std::vector<T*> v_;
};

// The value of a tree at the witness of `iv`: 1 with *r, 0 undefined, -1 unknown.
int stub_eval(const ExprNode& e, const std::vector<const ExprSymbol*>& syms, const IntervalVector& iv, double* r);
// Any sound contraction of `iv` by the constraints; true: nothing to contract.
struct StubCtr { const ExprNode* e; Interval rhs; CmpOp op; };
bool stub_contract(const std::vector<StubCtr>& ctrs, const std::vector<const ExprSymbol*>& syms, IntervalVector& iv);

inline Interval stub_rhs(CmpOp op) { return op == EQ ? Interval(0.0) : op == LT || op == LEQ ? Interval(-kInf, 0) : Interval(0, kInf); }
class Function {
 public:
  bool backward(const Interval& rhs, IntervalVector& iv) const { assert(iv.size() >= static_cast<int>(syms.size())); return stub_contract({StubCtr{e, rhs, op}}, syms, iv); }
  std::vector<const ExprSymbol*> syms;
  const ExprNode* e{nullptr};
  CmpOp op{EQ};
};
class NumConstraint {
 public:
  NumConstraint(const Array<const ExprSymbol>& x, const ExprCtr& c) : op(c.op) { for (int i = 0; i < x.size(); ++i) f.syms.push_back(&x[i]); f.e = &c.e; f.op = c.op; }
  Interval right_hand_side() const { return stub_rhs(op); }
  Function f;
  CmpOp op;
};
inline std::ostream& operator<<(std::ostream& os, const NumConstraint&) { return os << "constraint"; }
class SystemFactory {
 public:
  void add_var(const Array<const ExprSymbol>& x) { for (int i = 0; i < x.size(); ++i) syms.push_back(&x[i]); }
  void add_ctr(const ExprCtr& c) { ctrs.push_back(StubCtr{&c.e, stub_rhs(c.op), c.op}); }
  std::vector<const ExprSymbol*> syms;
  std::vector<StubCtr> ctrs;
};
class System {
 public:
  explicit System(const SystemFactory& s) : nb_ctr(static_cast<int>(s.ctrs.size())), syms(s.syms), ctrs(s.ctrs) {}
  int nb_ctr;
  std::vector<const ExprSymbol*> syms;
  std::vector<StubCtr> ctrs;
};
class LinearizerCombo {
 public:
  enum linear_mode { ART, AFFINE2, TAYLOR, HANSEN, COMPO, XNEWTON };
  LinearizerCombo(const System& s, linear_mode) : sys(s) {}
  const System& sys;
};
class Ctc {
 public:
  virtual ~Ctc() {}
  virtual void contract(IntervalVector& iv) = 0;
};
class CtcPolytopeHull : public Ctc {
 public:
  explicit CtcPolytopeHull(LinearizerCombo& l) : sys(l.sys) {}
  void contract(IntervalVector& iv) override { stub_contract(sys.ctrs, sys.syms, iv); }
  const System& sys;
};
class CtcFwdBwd : public Ctc {
 public:
  explicit CtcFwdBwd(NumConstraint& c) : c_(c) {}
  void contract(IntervalVector& iv) override { c_.f.backward(c_.right_hand_side(), iv); }
  NumConstraint& c_;
};
class BitSet {};
}  // namespace ibex
