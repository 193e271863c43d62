// Contracts on the state kept at quadrature points: interface history
// (C04) and slip resistances (C06).
#include "verify.h"

#include "/repo/source/gradient_crystal_plasticity/quadrature_point_history.cc"
#ifndef VERIFY_SYMBOLIC
#include "/repo/source/run_time_parameters.cc"
#include "/repo/source/utilities.cc"
#endif

namespace contracts
{
using namespace verify;
using namespace gCP;

struct InterfaceSetup
{
  RunTimeParameters::DamageEvolution damage;
  RunTimeParameters::CohesiveLawParameters cohesive;
  double M, D;
};

inline double macaulay(const double x) { return x > 0.0 ? x : 0.0; }

// an interface point in an arbitrary committed state
template <int dim>
InterfaceSetup arbitrary(InterfaceQuadraturePointHistory<dim> &h,
                         const bool zero_damage = false)
{
  InterfaceSetup s;
  s.cohesive.critical_cohesive_traction = positive("critical_cohesive_traction");
  s.cohesive.critical_opening_displacement = positive("critical_opening_displacement");
  s.cohesive.tangential_to_normal_stiffness_ratio =
    positive("tangential_to_normal_stiffness_ratio");
  s.damage.damage_accumulation_constant = positive("damage_accumulation_constant");
  s.damage.damage_decay_constant = positive("damage_decay_constant");
  s.damage.damage_decay_exponent = positive("damage_decay_exponent");
  s.damage.endurance_limit = real("endurance_limit");
  require(s.damage.endurance_limit >= 0.0);
  s.damage.flag_set_damage_to_zero = zero_damage;
  s.M = real("committed_max_effective_opening");
  s.D = real_in("committed_damage", 0.0, 1.0);
  require(s.M >= 0.0);
  h.init(s.damage, s.cohesive);
  h.update_values(s.M);
  h.set(s.D);
  h.store_current_values();
  return s;
}

inline void initial_state()
{
  InterfaceQuadraturePointHistory<2> h;
  ensure_equal("an interface starts undamaged", h.get_damage_variable(), 0.0);
  ensure_equal("an interface starts unopened",
               h.get_max_effective_opening_displacement(), 0.0);
  ensure_equal("an interface starts with no old opening",
               h.get_old_effective_opening_displacement(), 0.0);
}

// the damage of Ortiz et al. at a dimensionless maximum opening
inline double ortiz(const double r) { return 1.0 - (1.0 + r) * std::exp(-r); }

template <int dim>
void reversible_law()
{
  InterfaceQuadraturePointHistory<dim> h;
  const InterfaceSetup s = arbitrary<dim>(h);
  const double e = real("effective_opening");
  require(e >= 0.0);
  h.update_values(e);
  const double max = s.M > e ? s.M : e;
  const double dc = s.cohesive.critical_opening_displacement;
  ensure_equal("the maximum opening is the running maximum",
               h.get_max_effective_opening_displacement(), max);
  const double damage = h.get_damage_variable();
  ensure_equal("the damage is the dissipated share of the fracture energy",
               damage, ortiz(max / dc));
  ensure_le("the damage is not negative", 0.0, damage);
  ensure_le("the damage does not exceed one", damage, 1.0);
  h.reset_values();
  ensure_equal("a rollback restores the maximum opening",
               h.get_max_effective_opening_displacement(), s.M);
  ensure_equal("a rollback restores the damage", h.get_damage_variable(), s.D);
}

template <int dim>
void reversible_monotone()
{
  const double rate = derivative([&](const double x)
  {
    InterfaceQuadraturePointHistory<dim> h;
    const InterfaceSetup s = arbitrary<dim>(h);
    h.update_values(x);
    return h.get_damage_variable();
  }, positive("effective_opening"));
  ensure_le("a larger opening never lowers the damage", 0.0, rate);
}

template <int dim>
void trial_updates()
{
  InterfaceQuadraturePointHistory<dim> h, g;
  const InterfaceSetup s = arbitrary<dim>(h);
  arbitrary<dim>(g);
  const double a = real("trial_opening"), b = real("effective_opening");
  const double D = positive("characteristic_displacement");
  const double f = real("thermodynamic_force"), f2 = real("trial_force");
  require(a >= 0.0 && b >= 0.0);
  if (flag("energy_driven_evolution"))
  {
    h.update_values(a, D, f2);
    h.update_values(b, D, f);
    g.update_values(b, D, f);
  }
  else
  {
    h.update_values(a);
    h.update_values(b);
    g.update_values(b);
  }
  ensure_equal("an update does not depend on earlier uncommitted updates: "
               "damage", h.get_damage_variable(), g.get_damage_variable());
  ensure_equal("an update does not depend on earlier uncommitted updates: "
               "maximum opening", h.get_max_effective_opening_displacement(),
               g.get_max_effective_opening_displacement());
  // commit, then roll back a later trial
  const double d = h.get_damage_variable();
  const double m = h.get_max_effective_opening_displacement();
  h.store_current_values();
  ensure_equal("a commit keeps the damage", h.get_damage_variable(), d);
  ensure_equal("a commit keeps the maximum opening",
               h.get_max_effective_opening_displacement(), m);
  h.update_values(a);
  h.reset_values();
  ensure_equal("a rollback restores the committed damage",
               h.get_damage_variable(), d);
  ensure_equal("a rollback restores the committed maximum opening",
               h.get_max_effective_opening_displacement(), m);
}

template <int dim>
void no_damage()
{
  InterfaceQuadraturePointHistory<dim> h;
  const InterfaceSetup s = arbitrary<dim>(h, true);
  const double e = real("effective_opening");
  require(e >= 0.0);
  if (flag("energy_driven_evolution"))
    h.update_values(e, positive("characteristic_displacement"),
                    real("thermodynamic_force"));
  else
    h.update_values(e);
  ensure_equal("with damage switched off the interface stays intact",
               h.get_damage_variable(), 0.0);
  ensure_equal("with damage switched off the maximum opening still advances",
               h.get_max_effective_opening_displacement(), s.M > e ? s.M : e);
}

template <int dim>
void energy_law()
{
  InterfaceQuadraturePointHistory<dim> h;
  const InterfaceSetup s = arbitrary<dim>(h);
  const double e = real("effective_opening"), f = real("thermodynamic_force");
  const double D = positive("characteristic_displacement");
  require(e >= 0.0);
  dealii::Tensor<1,dim> n, u, w;
  n[0] = 1.0;
  const double old = real("old_effective_opening");
  require(old >= 0.0);
  w[0] = old;
  h.store_effective_opening_displacement(w, u, n);
  h.update_values(e, D, f);
  const double damage = h.get_damage_variable();
  const double growth = s.damage.damage_accumulation_constant * D *
                        macaulay(e - old) *
                        std::pow(1.0 - s.D + s.damage.damage_decay_constant,
                                 s.damage.damage_decay_exponent) *
                        macaulay(f - s.damage.endurance_limit);
  lemma("the damage increment is not negative", growth >= 0.0);
  ensure_equal("the damage grows while the interface opens under a force "
               "above the endurance limit, and saturates at one", damage,
               s.D + growth > 1.0 ? 1.0 : s.D + growth);
  ensure_le("the damage never heals", s.D, damage);
  ensure_le("the damage does not exceed one", damage, 1.0);
  ensure_equal("the maximum opening is the running maximum",
               h.get_max_effective_opening_displacement(), s.M > e ? s.M : e);
}

template <int dim>
void old_opening()
{
  InterfaceQuadraturePointHistory<dim> h;
  const InterfaceSetup s = arbitrary<dim>(h);
  const dealii::Tensor<1,dim> n = unit_vector<dim>("normal_vector");
  const dealii::Tensor<1,dim> u = vector<dim>("current_displacement");
  const dealii::Tensor<1,dim> w = vector<dim>("neighbor_displacement");
  const double t = real("effective_traction");
  const bool with_traction = flag("with_traction");
  if (with_traction)
    h.store_effective_opening_displacement(w, u, n, t);
  else
    h.store_effective_opening_displacement(w, u, n);
  const dealii::Tensor<1,dim> d = w - u;
  const double dn = d * n;
  const double beta = s.cohesive.tangential_to_normal_stiffness_ratio;
  double square = macaulay(dn) * macaulay(dn);
  for (unsigned int i = 0; i < dim; ++i)
    square += beta * beta * (d[i] - dn * n[i]) * (d[i] - dn * n[i]);
  const double e = h.get_old_effective_opening_displacement();
  ensure("the stored opening is not negative", e >= 0.0);
  ensure_equal("the stored opening weighs the tensile normal part and the "
               "tangential part", e * e, square);
  if (with_traction)
  {
    ensure_equal("the stored traction", h.get_effective_cohesive_traction(), t);
    ensure_equal("the stored opening is the reported one",
                 h.get_effective_opening_displacement(), e);
  }
  ensure_equal("storing the opening leaves the damage alone",
               h.get_damage_variable(), s.D);
  ensure_equal("storing the opening leaves the maximum opening alone",
               h.get_max_effective_opening_displacement(), s.M);
}

template <int dim>
void interface_data()
{
  InterfaceData<dim> data;
  const double v = real("value");
  const dealii::Tensor<1,dim> a = vector<dim>("a"), b = vector<dim>("b");
  const dealii::Tensor<1,dim> c = vector<dim>("c");
  data.init(v);
  data.prepare_for_update_call();
  data.update(a, b);
  const double jump = (a - b).norm();
  const double m = v > jump ? v : jump;
  ensure_equal("the interface value is the running maximum of the jump",
               data.get_value(), m);
  data.update(a, c);
  ensure_equal("the second face of an interface does not update it again",
               data.get_value(), m);
  data.prepare_for_update_call();
  ensure_equal("preparing an update keeps the value", data.get_value(), m);
  data.update(a, c);
  const double second = (a - c).norm();
  ensure_equal("the next update continues the running maximum",
               data.get_value(), m > second ? m : second);
}

CONTRACT(C04_initial_state) { initial_state(); }
CONTRACT(C04_opening_driven_2d) { reversible_law<2>(); }
CONTRACT(C04_opening_driven_3d) { reversible_law<3>(); }
CONTRACT(C04_monotone) { reversible_monotone<2>(); }
CONTRACT(C04_trial_updates_2d) { trial_updates<2>(); }
CONTRACT(C04_trial_updates_3d) { trial_updates<3>(); }
CONTRACT(C04_no_damage) { no_damage<2>(); }
CONTRACT(C04_energy_driven_2d) { energy_law<2>(); }
CONTRACT(C04_energy_driven_3d) { energy_law<3>(); }
CONTRACT(C04_old_opening_2d) { old_opening<2>(); }
CONTRACT(C04_old_opening_3d) { old_opening<3>(); }
CONTRACT(C04_interface_data_2d) { interface_data<2>(); }
CONTRACT(C04_interface_data_3d) { interface_data<3>(); }

// ------------------------------------------------------------ slip hardening
template <int dim>
void slip_resistance()
{
  RunTimeParameters::HardeningLaw prm;
  prm.initial_slip_resistance = positive("initial_slip_resistance");
  prm.linear_hardening_modulus = real("linear_hardening_modulus");
  prm.hardening_parameter = real("hardening_parameter");
  prm.flag_perfect_plasticity = flag("perfect_plasticity");
  require(prm.linear_hardening_modulus >= 0.0 && prm.hardening_parameter >= 0.0);
  const double C = positive("characteristic_slip_resistance");
  const unsigned int n = size("n_slips", 1), n_q = size("n_q_points", 1);
  const unsigned int q = index("q_point", n_q), alpha = index("alpha", n);

  QuadraturePointHistory<dim> h;
  h.init(prm, n, C);
  const double g0 = prm.initial_slip_resistance / C;
  ensure_equal("the initial slip resistance", h.get_slip_resistance(alpha), g0);
  ensure_equal("the initial committed slip resistance",
               h.get_old_slip_resistance(alpha), g0);

  // an arbitrary committed state, two trial updates
  const auto slips_0 = table("slips_0", n, n_q), old_0 = table("old_slips_0", n, n_q);
  h.update_values(q, slips_0, old_0);
  h.store_current_values();
  const double committed = h.get_old_slip_resistance(alpha);
  ensure_equal("a commit makes the current values the old ones",
               h.get_slip_resistance(alpha), committed);
  const auto slips_1 = table("slips_1", n, n_q), slips_2 = table("slips_2", n, n_q),
             old = table("old_slips", n, n_q);
  h.update_values(q, slips_1, old);
  h.update_values(q, slips_2, old);
  const double H = prm.linear_hardening_modulus / C;
  const double r = prm.hardening_parameter;
  const double growth = sum(n, [&](const unsigned int beta)
  {
    return (beta == alpha ? H : H * r) *
           std::fabs(slips_2[beta][q] - old[beta][q]);
  });
  const double g = h.get_slip_resistance(alpha);
  if (prm.flag_perfect_plasticity)
    ensure_equal("perfect plasticity keeps the slip resistance", g, committed);
  else
    ensure_equal("the slip resistance grows with the accumulated slip of all "
                 "systems from its committed value only", g, committed + growth);
  lemma("the slip increments harden", growth >= 0.0);
  ensure_le("slip never softens the crystal", committed, g);
  ensure_equal("a trial update leaves the committed value alone",
               h.get_old_slip_resistance(alpha), committed);
  ensure_equal("the list of slip resistances agrees", 
               h.get_slip_resistances()[alpha], g);
  ensure_equal("the list of committed slip resistances agrees",
               h.get_old_slip_resistances()[alpha], committed);
  h.reset_values();
  ensure_equal("a rollback restores the committed value",
               h.get_slip_resistance(alpha), committed);
}

template <int dim>
void uninitialized()
{
  QuadraturePointHistory<dim> h;
  const std::vector<std::vector<double>> empty;
  ensure("no value before the initialization",
         throws([&]() { h.get_slip_resistance(0); }) &&
         throws([&]() { h.store_current_values(); }) &&
         throws([&]() { h.reset_values(); }) &&
         throws([&]() { h.update_values(0, empty, empty); }));
}

CONTRACT(C06_slip_resistance_2d) { slip_resistance<2>(); }
CONTRACT(C06_slip_resistance_3d) { slip_resistance<3>(); }
CONTRACT(C06_uninitialized) { uninitialized<2>(); }
} // namespace contracts

#include "main.h"
