// Contracts on the loading program (C16).
#include "verify.h"

#include "/repo/source/boundary_conditions.cc"
#include "/repo/source/run_time_parameters.cc"
#ifndef VERIFY_SYMBOLIC
#include "/repo/source/utilities.cc"
#endif

namespace contracts
{
using namespace verify;
using namespace gCP;

// the loading program of a parameter file
inline RunTimeParameters::SimpleLoading loading(const bool cyclic)
{
  dealii::ParameterHandler prm;
  RunTimeParameters::SimpleLoading::declare_parameters(prm);
  const double max = real("max_load"), min = real("min_load");
  require(0.0 <= min && min < max);
  prm.enter_subsection("2. Temporal discretization parameters");
  prm.enter_subsection("Simple loading");
  if (cyclic)
    prm.set("Loading type", std::string("cyclic"));
  else
    prm.set("Loading type", std::string("monotonic"));
  prm.set("Maximum load", max);
  prm.set("Minimum load", min);
  prm.enter_subsection("Monotonic load parameters");
  prm.set("Duration of monotonic load", positive("monotonic_duration"));
  prm.set("Number of steps during monotonic load",
          (long int)integer("n_steps_monotonic", 1, 1000));
  prm.leave_subsection();
  prm.enter_subsection("Cyclic load parameters");
  prm.set("Duration of un- and loading phase", positive("ramp_duration"));
  prm.set("Number of steps during un- and loading phase",
          (long int)integer("n_steps_ramp", 1, 1000));
  prm.set("Period", positive("period"));
  prm.set("Number of steps during a quarter cycle",
          (long int)integer("n_steps_quarter", 1, 1000));
  prm.set("Number of cycles", (long int)integer("n_cycles", 0, 1000));
  prm.set("Skip unloading phase", flag("skip_unloading"));
  prm.leave_subsection();
  prm.leave_subsection();
  prm.leave_subsection();
  RunTimeParameters::SimpleLoading p;
  p.start_time = real("start_time");
  p.parse_parameters(prm);
  return p;
}

CONTRACT(C16_program)
{
  const bool cyclic = flag("cyclic");
  const RunTimeParameters::SimpleLoading p = loading(cyclic);
  const double T = positive("ramp_duration");
  ensure("the loading type is the chosen one", p.loading_type ==
         (cyclic ? RunTimeParameters::LoadingType::Cyclic :
                   RunTimeParameters::LoadingType::Monotonic));
  ensure_equal("the maximum load is the chosen one", p.max_load,
               real("max_load"));
  ensure_equal("the minimum load is the chosen one", p.min_load,
               real("min_load"));
  ensure("the number of cycles is the chosen one",
         p.n_cycles == (unsigned int)integer("n_cycles", 0, 1000));
  const double cycles = p.n_cycles * positive("period");
  if (cyclic)
  {
    ensure_equal("the cycles follow the first ramp", p.start_of_cyclic_phase,
                 p.start_time + T);
    ensure_equal("the second ramp follows the cycles",
                 p.start_of_unloading_phase, p.start_time + T + cycles);
    ensure_equal("a cyclic program ends after the cycles or the second ramp",
                 p.end_time, p.start_time + T + cycles +
                 (flag("skip_unloading") ? 0.0 : T));
  }
  else
    ensure_equal("a monotonic program lasts its duration", p.end_time,
                 p.start_time + positive("monotonic_duration"));
}

template <int dim>
struct Control
{
  const unsigned int n_crystals, component;
  const double height, D;
  const bool decohesion;
  BoundaryConditions::DisplacementControl<dim> control;

  Control(const RunTimeParameters::SimpleLoading &p)
  :
  n_crystals(integer("n_crystals", 1, 5)),
  component(integer("component", 0, dim - 1)),
  height(positive("strip_height")),
  D(positive("characteristic_displacement")),
  decohesion(flag("decohesion")),
  control(p, n_crystals * dim, n_crystals, height, decohesion, D, component)
  {}

  dealii::Vector<double> at(const double time)
  {
    control.set_time(time);
    dealii::Vector<double> v(n_crystals * dim);
    v = real("garbage");
    const dealii::Point<dim> x;
    control.vector_value(x, v);
    return v;
  }

  // the load in units of the displacement of the strip
  double load(const double time)
  { return at(time)[component] * D / height; }
};

template <int dim>
void components()
{
  Control<dim> c(loading(flag("cyclic")));
  const double time = real("time");
  const dealii::Vector<double> v = c.at(time);
  const unsigned int i = index("crystal", c.n_crystals);
  const unsigned int d = integer("direction", 0, dim - 1);
  if (d == c.component && (i == 0 || c.decohesion))
    ensure_equal("every separated crystal takes the same displacement",
                 v[d + i * dim], v[c.component]);
  else
    ensure_equal("all other components are held", v[d + i * dim], 0.0);
}

template <int dim>
void monotonic()
{
  const RunTimeParameters::SimpleLoading p = loading(false);
  Control<dim> c(p);
  const double time = real("time");
  ensure_equal("a monotonic load grows linearly with the time",
               c.load(time), time * p.max_load);
}

template <int dim>
void cyclic()
{
  const RunTimeParameters::SimpleLoading p = loading(true);
  Control<dim> c(p);
  const double mean = (p.max_load + p.min_load) / 2.0;
  const double duration = p.duration_loading_and_unloading_phase;
  const double share = real_in("share_of_ramp", 0.0, 1.0);
  ensure_equal("the load ramps up linearly to the mean load",
               c.load(p.start_time + share * duration), share * mean);
  ensure_equal("the load ramps down linearly from the mean load",
               c.load(p.start_of_unloading_phase + share * duration),
               (1.0 - share) * mean);
  // within the cycles
  require(p.n_cycles > 0);
  const int cycle = index("cycle", p.n_cycles);
  const double start = p.start_of_cyclic_phase + cycle * p.period;
  ensure_equal("every cycle starts at the mean load", c.load(start), mean);
  ensure_equal("the maximum load is reached after a quarter of a cycle",
               c.load(start + 0.25 * p.period), p.max_load);
  ensure_equal("half-way a cycle passes through the mean load",
               c.load(start + 0.5 * p.period), mean);
  ensure_equal("the minimum load is reached after three quarters of a cycle",
               c.load(start + 0.75 * p.period), p.min_load);
  const double x = real_in("share_of_cycle", 0.0, 1.0);
  require(x <= 0.999999);
  const double load = c.load(start + x * p.period);
  ensure_equal("the load is a sine between the minimum and the maximum", load,
               mean + (p.max_load - mean) * std::sin(2.0 * M_PI * x));
  ensure_le("the load does not exceed the maximum", load, p.max_load);
  ensure_le("the load does not fall below the minimum", p.min_load, load);
}

CONTRACT(C16_components_2d) { components<2>(); }
CONTRACT(C16_components_3d) { components<3>(); }
CONTRACT(C16_monotonic_2d) { monotonic<2>(); }
CONTRACT(C16_monotonic_3d) { monotonic<3>(); }
CONTRACT(C16_cyclic_2d) { cyclic<2>(); }
CONTRACT(C16_cyclic_3d) { cyclic<3>(); }

// ---------------------------------------------------------------- the steps
CONTRACT(C16_step_sizes)
{
  RunTimeParameters::SimpleLoading p = loading(true);
  const unsigned int n = p.n_steps_loading_and_unloading_phase;
  const unsigned int m = 4 * p.n_steps_quarter_period * p.n_cycles;
  const unsigned int ramp = index("step_of_ramp", n);
  ensure_equal("the first ramp is passed in equal steps",
               n * p.get_next_time_step_size(ramp),
               positive("ramp_duration"));
  ensure_equal("the second ramp is passed in equal steps",
               n * p.get_next_time_step_size(n + m + ramp),
               p.duration_loading_and_unloading_phase);
  if (p.n_cycles > 0)
    ensure_equal("every quarter of a cycle is passed in equal steps",
                 p.n_steps_quarter_period *
                   p.get_next_time_step_size(n + index("step_of_cycles", m)),
                 positive("period") / 4.0);
  const RunTimeParameters::SimpleLoading q = loading(false);
  ensure_equal("a monotonic load is applied in equal steps",
               integer("n_steps_monotonic", 1, 1000) *
                 q.get_next_time_step_size(ramp),
               positive("monotonic_duration"));
}

CONTRACT(C16_reversals)
{
  RunTimeParameters::SimpleLoading p = loading(true);
  const unsigned int n = p.n_steps_loading_and_unloading_phase;
  const unsigned int q = p.n_steps_quarter_period;
  const unsigned int ramp = index("step_of_ramp", n);
  ensure("the ramp up is extrapolated", !p.skip_extrapolation(ramp));
  ensure("the end of the cycles is not extrapolated",
         p.skip_extrapolation(n + 4 * q * p.n_cycles));
  if (ramp > 0)
    ensure("the ramp down is extrapolated",
           !p.skip_extrapolation(n + 4 * q * p.n_cycles + ramp));
  require(p.n_cycles > 0);
  const unsigned int cycle = index("cycle", p.n_cycles);
  const unsigned int step = index("step_of_cycle", 4 * q);
  const bool skip = p.skip_extrapolation(n + 4 * q * cycle + step);
  ensure("the load is not extrapolated beyond its reversals and the start of "
         "the cycles, and is extrapolated everywhere else",
         skip == (step == q || step == 3 * q || (step == 0 && cycle == 0)));
  p.loading_type = RunTimeParameters::LoadingType::Monotonic;
  ensure("a monotonic load is always extrapolated",
         !p.skip_extrapolation(step));
}
} // namespace contracts

#include "main.h"
