// Contracts on the line search (C01).
#include "verify.h"

#include "/repo/source/line_search.cc"
#ifndef VERIFY_SYMBOLIC
#include "/repo/source/run_time_parameters.cc"
#include "/repo/source/utilities.cc"
#endif

namespace contracts
{
using namespace verify;
using namespace gCP;

inline RunTimeParameters::LineSearchParameters line_search_parameters()
{
  RunTimeParameters::LineSearchParameters prm;
  prm.alpha = positive("alpha");
  prm.beta = positive("beta");
  require(prm.alpha <= 0.25);
  prm.n_max_iterations = integer("n_max_iterations", 0, 1000);
  return prm;
}

// what an earlier search may have left behind
inline void used(LineSearch &s)
{
  s.n_iterations = integer("earlier_iterations", 0, 2000);
  s.old_lambda = positive("earlier_relaxation");
  s.old_scalar_function_value = real("earlier_objective");
}

CONTRACT(C01_objective)
{
  const double r = real("residual");
  ensure_equal("the objective is half the squared residual",
               LineSearch::get_objective_function_value(r), 0.5 * r * r);
}

CONTRACT(C01_acceptance)
{
  const RunTimeParameters::LineSearchParameters prm = line_search_parameters();
  LineSearch s(prm);
  const double f0 = real("initial_objective");
  const double f = real("trial_objective");
  const double lambda = positive("relaxation");
  require(f0 >= 0.0 && f >= 0.0 && lambda <= 1.0);
  used(s);
  s.reinit(f0, 1, 1);
  ensure("a new search has made no iterations", s.get_n_iterations() == 0);
  const bool accepted = s.suficient_descent_condition(f, lambda);
  const double bound = f0 - 2.0 * prm.alpha * lambda * f0;
  require(std::fabs(f - bound) >= 1e-9 || (f == 0.0 && f0 == 0.0));
  ensure("a step is accepted if it lowers the objective by the given share "
         "of its predicted decrease", accepted == (f <= bound));
  if (f0 > 0.0 && accepted)
    ensure("an accepted step lowers the objective", f < f0);
}

// The number of iterations is bounded: beyond it every step is accepted.
CONTRACT(C01_termination)
{
  const RunTimeParameters::LineSearchParameters prm = line_search_parameters();
  LineSearch s(prm);
  const double f0 = positive("initial_objective");
  s.reinit(f0, 1, 1);
  s.n_iterations = integer("n_iterations", 0, 2000);
  const double f = positive("trial_objective");
  const unsigned int n = s.n_iterations;
  if (n > prm.n_max_iterations)
    ensure("the search ends after the maximum number of iterations",
           s.suficient_descent_condition(f, positive("relaxation")));
  else
    ensure("the search does not end early",
           !s.suficient_descent_condition(f0 + f, positive("relaxation")));
}

CONTRACT(C01_first_step)
{
  const RunTimeParameters::LineSearchParameters prm = line_search_parameters();
  LineSearch s(prm);
  const double f0 = real("initial_objective");
  const double f = real("trial_objective");
  require(f0 >= 0.0 && f >= 0.0);
  used(s);
  s.reinit(f0, 1, 1);
  // the full step was refused
  require(!s.suficient_descent_condition(f, 1.0));
  const double lambda = s.get_lambda(f, 1.0);
  ensure("the first step is a number between a tenth and a half",
         lambda >= 0.1 && lambda <= 0.5);
  ensure("one iteration was made", s.get_n_iterations() == 1);
  // f0 - 2 f0 x + c x^2 with the trial value at one
  const double c = f + f0;
  const double slope = -2.0 * f0 + 2.0 * c * lambda;
  if (lambda > 0.1 && lambda < 0.5)
    ensure_equal("the first step minimizes the parabola through the initial "
                 "value and slope and the trial value", slope, 0.0, c);
  if (lambda >= 0.5)
    ensure_le("the parabola still falls at the largest first step",
              slope, 0.0);
  if (lambda <= 0.1)
    ensure_le("the parabola already rises at the smallest first step",
              0.0, slope);
}

CONTRACT(C01_further_step)
{
  const RunTimeParameters::LineSearchParameters prm = line_search_parameters();
  LineSearch s(prm);
  const double f0 = real("initial_objective");
  require(f0 >= 0.0);
  // an arbitrary search that refused two relaxations
  const double l2 = positive("before_last_relaxation");
  const double ratio = real_in("ratio", 0.1, 0.5);
  const double l1 = ratio * l2;
  const double f1 = real("last_objective");
  const double f2 = real("before_last_objective");
  require(l2 <= 1.0 && f1 >= 0.0 && f2 >= 0.0);
  s.reinit(f0, 1, 1);
  require(!s.suficient_descent_condition(f1, l1));
  require(!s.suficient_descent_condition(f2, l2));
  s.n_iterations = integer("n_iterations", 1, 2000);
  s.old_lambda = l2;
  s.old_scalar_function_value = f2;
  const unsigned int n = s.n_iterations;
  const double lambda = s.get_lambda(f1, l1);
  ensure("a further step is a number between a tenth and a half of the last",
         lambda >= 0.1 * l1 && lambda <= 0.5 * l1);
  ensure("the iteration is counted", s.get_n_iterations() == n + 1);
  ensure_equal("the refused relaxation is kept for the next step",
               s.old_lambda, l1);
  ensure_equal("the refused objective is kept for the next step",
               s.old_scalar_function_value, f1);
  // f0 - 2 f0 x + b x^2 + a x^3 through both refused values
  const double v1 = (f1 - f0 + 2.0 * f0 * l1) / (l1 * l1);
  const double v2 = (f2 - f0 + 2.0 * f0 * l2) / (l2 * l2);
  const double a = (v1 - v2) / (l1 - l2);
  const double b = (l1 * v2 - l2 * v1) / (l1 - l2);
  const double slope = -2.0 * f0 + (2.0 * b + 3.0 * a * lambda) * lambda;
  if (lambda > 0.1 * l1 && lambda < 0.5 * l1)
    ensure_equal("a further step minimizes the cubic through the initial "
                 "value and slope and the last two values", slope, 0.0,
                 (std::fabs(b) + std::fabs(a) * lambda) * lambda);
}
} // namespace contracts

#include "main.h"
