// Scoped containers against snapshots, options against their order of
// precedence, checked conversions.
#include <cmath>
#include <limits>
#include <map>
#include <vector>
#include "dreal/solver/config.h"
#include "dreal/util/math.h"
#include "dreal/util/option_value.h"
#include "dreal/util/scoped_unordered_map.h"
#include "dreal/util/scoped_unordered_set.h"
#include "dreal/util/scoped_vector.h"
#include "sym.h"

namespace {
using namespace dreal;  // NOLINT
using std::int64_t;
using std::vector;

struct S { bool in[3]; int64_t v[3]; bool set[3]; vector<int64_t> vec; S() : in(), v(), set() {} };

void containers() {
  const unsigned steps = static_cast<unsigned>(sym_cfg("steps", 5));
  ScopedUnorderedMap<int, int64_t> m;
  ScopedUnorderedSet<int> s;
  ScopedVector<int64_t> v;
  S now;
  vector<S> saved;
  for (unsigned i = 0; i < steps; ++i) {
    const int64_t a = sym_int("value", std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max());
    switch (sym_choice("step", 5)) {
      case 0: { const int k = static_cast<int>(sym_choice("key", 3)); m.insert(k, a); now.in[k] = true; now.v[k] = a; break; }
      case 1: { const int k = static_cast<int>(sym_choice("key", 3)); s.insert(k); now.set[k] = true; break; }
      case 2: v.push_back(a); now.vec.push_back(a); break;
      case 3: m.push(); s.push(); v.push(); saved.push_back(now); break;
      default: {
        bool thrown = false;
        if (saved.empty()) {
          unsigned n = 0;
          try { m.pop(); } catch (std::exception&) { ++n; }
          try { s.pop(); } catch (std::exception&) { ++n; }
          try { v.pop(); } catch (std::exception&) { ++n; }
          thrown = n == 3;
          sym_assert(thrown, "there is nothing to pop outside every scope");
        } else {
          m.pop(); s.pop();
          const size_t n = v.pop();
          sym_assert(n == now.vec.size() - saved.back().vec.size(), "pop tells how many elements it removed");
          now = saved.back(); saved.pop_back();
          sym_reach("popped");
        }
      }
    }
    size_t nm = 0, ns = 0;
    bool map = true, set = true, vec = v.size() == now.vec.size();
    for (int k = 0; k < 3; ++k) {
      nm += now.in[k]; ns += now.set[k];
      const auto it = m.find(k);
      map = map && (it != m.end()) == now.in[k] && m.count(k) == (now.in[k] ? 1u : 0u);
      if (map && now.in[k]) map = map & (it->second == now.v[k]) & (m[k] == now.v[k]);
      set = set && (s.find(k) != s.end()) == now.set[k] && s.count(k) == (now.set[k] ? 1u : 0u);
    }
    size_t walked = 0;
    for (const auto& p : m) { ++walked; map = map && p.first >= 0 && p.first < 3 && now.in[p.first]; }
    map = map && m.size() == nm && walked == nm && m.empty() == (nm == 0);
    for (const int k : s) set = set && k >= 0 && k < 3 && now.set[k];
    for (size_t k = 0; vec && k < now.vec.size(); ++k) vec = vec & (v[k] == now.vec[k]);
    if (vec && !now.vec.empty()) vec = vec & (v.first() == now.vec.front()) & (v.last() == now.vec.back());
    sym_assert(map, "the map is what was inserted in the open scopes");
    sym_assert(set, "the set is what was inserted in the open scopes");
    sym_assert(vec, "the vector is what was appended in the open scopes");
  }
}
// operator< of vectors is an order, the lexicographic one.
void order() {
  ScopedVector<int64_t> a, b;
  vector<int64_t> x, y;
  const unsigned n = sym_choice("n", 4), k = sym_choice("k", 4);
  for (unsigned i = 0; i < n; ++i) { x.push_back(sym_int("x", -9, 9)); a.push_back(x.back()); }
  for (unsigned i = 0; i < k; ++i) { y.push_back(sym_int("y", -9, 9)); b.push_back(y.back()); }
  sym_reach("compared");
  sym_assert((a < b) == (x < y), "vectors are ordered lexicographically");
  sym_assert(!((a < b) && (b < a)), "the order is asymmetric");
}
// The value of an option is the last one given by the strongest source.
void options() {
  Config c;
  const double dflt = c.precision();
  const bool dflag = c.use_polytope();
  OptionValue<int64_t> o{sym_int("default", -1000, 1000)};
  int64_t value = o.get();
  double p = dflt;
  bool flag = dflag;
  int top = 0, ptop = 0, ftop = 0;
  const unsigned steps = static_cast<unsigned>(sym_cfg("steps", 4));
  for (unsigned i = 0; i < steps; ++i) {
    const int src = 1 + static_cast<int>(sym_choice("source", 3));
    const int64_t a = sym_int("value", -1000, 1000);
    switch (sym_choice("option", 3)) {
      case 0: {
        if (src == 1) o.set_from_file(a); else if (src == 2) o.set_from_command_line(a); else o = a;
        if (src >= top) { top = src; value = a; }
        if (sym_choice("copy", 2)) { OptionValue<int64_t> q{o}; o = q; }
        break;
      }
      case 1: {
        const double d = sym_double("precision");
        if (src == 1) c.mutable_precision().set_from_file(d); else if (src == 2) c.mutable_precision().set_from_command_line(d); else c.mutable_precision() = d;
        if (src >= ptop) { ptop = src; p = d; }
        break;
      }
      default: {
        const bool f = sym_choice("flag", 2);
        if (src == 1) c.mutable_use_polytope().set_from_file(f); else if (src == 2) c.mutable_use_polytope().set_from_command_line(f); else c.mutable_use_polytope() = f;
        if (src >= ftop) { ftop = src; flag = f; }
      }
    }
    sym_assert(o.get() == value, "an option has the last value of its strongest source");
    sym_assert((c.precision() == p) | (p != p), "the precision is that of its strongest source");
    sym_assert(c.use_polytope() == flag, "a flag is that of its strongest source");
  }
  sym_reach("set");
}
void conversions() {
  static const int64_t edge[] = {2147483648LL, -2147483649LL, (int64_t{1} << 53) + 1, -(int64_t{1} << 53) - 1, std::numeric_limits<int64_t>::max(), std::numeric_limits<int64_t>::min(), 4294967296LL};
  const unsigned to = sym_choice("to", 3), k = to == 2 ? 7 : sym_choice("edge", 8);  // beyond the edges the number is printed in a message, so it is fixed
  const int64_t v = k < 7 ? edge[k] : sym_int("v", std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max());
  bool thrown = false;
  const bool fits = std::numeric_limits<int>::min() <= v && v <= std::numeric_limits<int>::max();
  const int64_t m = int64_t{1} << 53;
  sym_reach("converted");
  switch (to) {
    case 0: {
      int r = 0;
      try { r = convert_int64_to_int(v); } catch (std::exception&) { thrown = true; }
      sym_assert(thrown == !fits, "a conversion to int fails exactly when the value does not fit");
      if (!thrown) sym_assert(r == v, "a conversion keeps the value");
      break;
    }
    case 1: {
      double r = 0;
      try { r = convert_int64_to_double(v); } catch (std::exception&) { thrown = true; }
      sym_assert(thrown == !(-m <= v && v <= m), "a conversion to double fails exactly beyond the exactly representable range");
      if (!thrown) sym_assert(static_cast<int64_t>(r) == v, "a conversion keeps the value");
      break;
    }
    default: {
      const double d = sym_double("d");
      const bool in = -2147483648.0 <= d && d <= 2147483647.0;
      const bool i = is_integer(d);
      if (i) sym_assert(in && static_cast<double>(static_cast<int>(d)) == d, "what is called an integer is one, within int");
      else sym_assert(!in || static_cast<double>(static_cast<int>(d)) != d, "what is not called an integer is not one, or beyond int");
    }
  }
}
}  // namespace

void harness() {
  switch (sym_cfg("what", 0)) {
    case 0: return containers();
    case 1: return order();
    case 2: return options();
    default: return conversions();
  }
}
