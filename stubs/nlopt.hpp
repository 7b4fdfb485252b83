// Stand-in for NLopt (not installed here): declarations only; no check executes it.
#pragma once
#include <vector>
namespace nlopt {
enum algorithm { LN_COBYLA, LD_SLSQP, LD_MMA, AUGLAG, LN_AUGLAG, LD_AUGLAG };
enum result { FAILURE = -1, SUCCESS = 1, STOPVAL_REACHED, FTOL_REACHED, XTOL_REACHED, MAXEVAL_REACHED, MAXTIME_REACHED };
typedef double (*func)(unsigned, const double*, double*, void*);
typedef double (*vfunc)(const std::vector<double>&, std::vector<double>&, void*);
class opt {
 public:
  opt() {}
  opt(algorithm, unsigned) {}
  void set_ftol_rel(double); void set_ftol_abs(double); void set_maxeval(int); void set_maxtime(double);
  void set_min_objective(func, void*); void set_min_objective(vfunc, void*);
  void add_inequality_constraint(func, void*, double = 0); void add_equality_constraint(func, void*, double = 0);
  void set_lower_bounds(const std::vector<double>&); void set_upper_bounds(const std::vector<double>&);
  void set_lower_bounds(double); void set_upper_bounds(double);
  result optimize(std::vector<double>&, double&);
  unsigned get_dimension() const;
  void get_lower_bounds(std::vector<double>&) const; void get_upper_bounds(std::vector<double>&) const;
};
}  // namespace nlopt
