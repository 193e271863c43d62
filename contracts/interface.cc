// Contracts on the grain-boundary interface laws: cohesive traction (C02),
// its jacobian (C03), the interface history (C04), contact (C05).
#include "verify.h"

#include "/repo/source/constitutive_laws.cc"
#include "/repo/source/gradient_crystal_plasticity/quadrature_point_history.cc"
#ifndef VERIFY_SYMBOLIC
#include "/repo/source/crystal_data.cc"
#include "/repo/source/run_time_parameters.cc"
#include "/repo/source/utilities.cc"
#endif

namespace contracts
{
using namespace verify;
using namespace gCP;
using namespace gCP::ConstitutiveLaws;

struct CohesiveSetup
{
  RunTimeParameters::CohesiveLawParameters prm;
  double S, D, Tc, dc, beta;
};

inline CohesiveSetup cohesive_setup()
{
  CohesiveSetup s;
  s.Tc   = positive("critical_cohesive_traction");
  s.dc   = positive("critical_opening_displacement");
  s.beta = positive("tangential_to_normal_stiffness_ratio");
  s.S    = positive("characteristic_stress");
  s.D    = positive("characteristic_displacement");
  s.prm.critical_cohesive_traction = s.Tc;
  s.prm.critical_opening_displacement = s.dc;
  s.prm.tangential_to_normal_stiffness_ratio = s.beta;
  return s;
}

inline double macaulay(const double x) { return x > 0.0 ? x : 0.0; }

// <d_n>^2 + beta^2 |d_t|^2
template <int dim>
double squared_effective_opening(const dealii::Tensor<1,dim> &d,
                                 const dealii::Tensor<1,dim> &n,
                                 const double beta)
{
  const double dn = d * n;
  double s = macaulay(dn) * macaulay(dn);
  for (unsigned int i = 0; i < dim; ++i)
    s += beta * beta * (d[i] - dn * n[i]) * (d[i] - dn * n[i]);
  return s;
}

template <int dim>
void effective_opening()
{
  const CohesiveSetup s = cohesive_setup();
  const CohesiveLaw<dim> law(s.prm, s.S, s.D);
  const dealii::Tensor<1,dim> d = vector<dim>("opening_displacement");
  const dealii::Tensor<1,dim> n = unit_vector<dim>("normal_vector");
  const double e = law.get_effective_opening_displacement(d, n);
  ensure("the effective opening is never negative", e >= 0.0);
  ensure_equal("the effective opening weighs the tensile normal part and "
               "the tangential part", e * e,
               squared_effective_opening<dim>(d, n, s.beta));
  const dealii::Tensor<1,dim> m = -1.0 * n, r = -1.0 * d;
  ensure_equal("the effective opening does not depend on the side it is "
               "evaluated from",
               law.get_effective_opening_displacement(r, m), e);
}

template <int dim>
void traction()
{
  const CohesiveSetup s = cohesive_setup();
  const CohesiveLaw<dim> law(s.prm, s.S, s.D);
  const dealii::Tensor<1,dim> d = vector<dim>("opening_displacement");
  const dealii::Tensor<1,dim> n = unit_vector<dim>("normal_vector");
  const double old = real("old_effective_opening");
  const double dt = positive("time_step_size");
  const double e = law.get_effective_opening_displacement(d, n);
  const bool at_maximum = flag("at_maximum");
  const double max = at_maximum ? e : positive("max_effective_opening");
  require(old >= 0.0 && old <= max && e <= max);
  const dealii::Tensor<1,dim> t =
    law.get_cohesive_traction(d, n, max, old, dt);
  // T(x) / x of the universal binding law, at the secant point
  const double secant =
    s.Tc * s.D / s.dc * std::exp(1.0 - s.D * max / s.dc) / s.S;
  const double dn = d * n;
  if (e > 0.0)
    for (unsigned int i = 0; i < dim; ++i)
      ensure_equal("the traction lies on the master curve while loading "
                   "and on the secant to it while unloading", t[i],
                   secant * (macaulay(dn) * n[i] +
                             s.beta * s.beta * (d[i] - dn * n[i])));
  else
    for (unsigned int i = 0; i < dim; ++i)
      ensure_equal("a closed interface carries no cohesive traction", t[i], 0.0);
  const dealii::Tensor<1,dim> tangential = d - dn * n;
  lemma("squares are not negative", tangential * tangential >= 0.0);
  const double work = secant * macaulay(dn) * dn +
                      secant * s.beta * s.beta * (tangential * tangential);
  lemma("the opening works against the traction", work >= 0.0);
  if (e > 0.0)
    lemma_equal_("the traction works on the tensile and tangential opening",
                 t * d, work);
  ensure_le("the traction never pushes the faces apart", 0.0, t * n);
  ensure_le("the traction does not drive the opening", 0.0, t * d);
}

template <int dim>
void jacobian_loading()
{
  const CohesiveSetup s = cohesive_setup();
  const CohesiveLaw<dim> law(s.prm, s.S, s.D);
  const dealii::Tensor<1,dim> d = vector<dim>("opening_displacement");
  const dealii::Tensor<1,dim> n = unit_vector<dim>("normal_vector");
  const dealii::Tensor<1,dim> v = vector<dim>("direction");
  const double dt = positive("time_step_size");
  const double e = law.get_effective_opening_displacement(d, n);
  const double old = real("old_effective_opening");
  require(old >= 0.0 && old <= e - 0.05 * (1.0 + e));
  require(std::fabs(d * n) >= 0.01 && e >= 0.05);
  const dealii::Tensor<1,dim> expected = derivative(
    [&](const double x)
    {
      const dealii::Tensor<1,dim> dx = d + x * v;
      return law.get_cohesive_traction(
        dx, n, law.get_effective_opening_displacement(dx, n), old, dt);
    }, 0.0);
  const dealii::SymmetricTensor<2,dim> J = law.get_jacobian(d, n, e, old, dt);
  ensure_derivative("loading: the jacobian is the derivative of the traction",
                    J * v, expected);
}

template <int dim>
void jacobian_unloading()
{
  const CohesiveSetup s = cohesive_setup();
  const CohesiveLaw<dim> law(s.prm, s.S, s.D);
  const dealii::Tensor<1,dim> d = vector<dim>("opening_displacement");
  const dealii::Tensor<1,dim> n = unit_vector<dim>("normal_vector");
  const dealii::Tensor<1,dim> v = vector<dim>("direction");
  const double dt = positive("time_step_size");
  const double old = real("old_effective_opening");
  const double max = positive("max_effective_opening");
  const double e = law.get_effective_opening_displacement(d, n);
  require(old >= 0.0 && e <= max - 0.05 * (1.0 + max));
  require(std::fabs(d * n) >= 0.01 && e >= 0.05);
  const dealii::Tensor<1,dim> expected = derivative(
    [&](const double x)
    {
      const dealii::Tensor<1,dim> dx = d + x * v;
      return law.get_cohesive_traction(dx, n, max, old, dt);
    }, 0.0);
  const dealii::SymmetricTensor<2,dim> J = law.get_jacobian(d, n, max, old, dt);
  ensure_derivative("unloading: the jacobian is the derivative of the traction",
                    J * v, expected);
}

CONTRACT(C02_effective_opening_2d) { effective_opening<2>(); }
CONTRACT(C02_effective_opening_3d) { effective_opening<3>(); }
CONTRACT(C02_traction_2d) { traction<2>(); }
CONTRACT(C02_traction_3d) { traction<3>(); }
CONTRACT(C03_loading_2d) { jacobian_loading<2>(); }
CONTRACT(C03_loading_3d) { jacobian_loading<3>(); }
CONTRACT(C03_unloading_2d) { jacobian_unloading<2>(); }
CONTRACT(C03_unloading_3d) { jacobian_unloading<3>(); }

template <int dim>
void contact()
{
  RunTimeParameters::ContactLawParameters prm;
  prm.penalty_coefficient = positive("penalty_coefficient");
  const double S = positive("characteristic_stress");
  const double D = positive("characteristic_displacement");
  const ContactLaw<dim> law(prm, S, D);
  const dealii::Tensor<1,dim> d = vector<dim>("opening_displacement");
  const dealii::Tensor<1,dim> n = unit_vector<dim>("normal_vector");
  const double dn = d * n;
  const dealii::Tensor<1,dim> t = law.get_contact_traction(d, n);
  for (unsigned int i = 0; i < dim; ++i)
    ensure_equal("contact: penalty on the interpenetration only", t[i],
                 - prm.penalty_coefficient / S * D * macaulay(-dn) * n[i]);
  ensure_le("contact is compressive", t * n, 0.0);
}

template <int dim>
void contact_jacobian()
{
  RunTimeParameters::ContactLawParameters prm;
  prm.penalty_coefficient = positive("penalty_coefficient");
  const double S = positive("characteristic_stress");
  const double D = positive("characteristic_displacement");
  const ContactLaw<dim> law(prm, S, D);
  const dealii::Tensor<1,dim> d = vector<dim>("opening_displacement");
  const dealii::Tensor<1,dim> n = unit_vector<dim>("normal_vector");
  const dealii::Tensor<1,dim> v = vector<dim>("direction");
  require(std::fabs(d * n) >= 0.01);
  const dealii::Tensor<1,dim> expected = derivative(
    [&](const double x)
    { return law.get_contact_traction(d + x * v, n); }, 0.0);
  ensure_derivative("contact: the jacobian is the derivative of the traction",
                    law.get_jacobian(d, n) * v, expected);
}

CONTRACT(C05_traction_2d) { contact<2>(); }
CONTRACT(C05_traction_3d) { contact<3>(); }
CONTRACT(C05_jacobian_2d) { contact_jacobian<2>(); }
CONTRACT(C05_jacobian_3d) { contact_jacobian<3>(); }

// ------------------------------------------------- potentials of the interface
inline void degradation()
{
  RunTimeParameters::DegradationFunction prm;
  prm.degradation_exponent = positive("degradation_exponent");
  const DegradationFunction law(prm);
  const double D = real_in("damage", 0.0, 1.0);
  const double g = law.get_degradation_function_value(D, true);
  ensure("the degradation lies between zero and one", g >= 0.0 && g <= 1.0);
  ensure_equal("an intact interface is not degraded",
               law.get_degradation_function_value(0.0, true), 1.0);
  ensure_equal("a fully damaged interface is fully degraded",
               law.get_degradation_function_value(1.0, true), 0.0);
  ensure_equal("without coupling nothing is degraded",
               law.get_degradation_function_value(D, false), 1.0);
  require(D <= 0.95);
  const double slope = derivative(
    [&](const double x)
    { return law.get_degradation_function_value(x, true); }, D);
  ensure_derivative("the slope is the derivative of the degradation",
                    law.get_degradation_function_derivative_value(D, true),
                    slope);
  ensure("damage never stiffens the interface",
         law.get_degradation_function_derivative_value(D, true) <= 0.0);
  ensure_equal("without coupling the slope is zero",
               law.get_degradation_function_derivative_value(D, false), 0.0);
}

template <int dim>
void cohesive_energy()
{
  const CohesiveSetup s = cohesive_setup();
  const CohesiveLaw<dim> law(s.prm, 1.0, 1.0);
  ensure_equal("a closed interface stores no energy",
               law.get_free_energy_density(0.0), 0.0);
  const double x = positive("effective_opening");
  const double old = real("old_effective_opening");
  const double dt = positive("time_step_size");
  require(old >= 0.0 && old <= x);
  const double slope = derivative(
    [&](const double y) { return law.get_free_energy_density(y); }, x);
  dealii::Tensor<1,dim> n, d;
  n[0] = 1.0;
  d[0] = x;
  const dealii::Tensor<1,dim> t = law.get_cohesive_traction(d, n, x, old, dt);
  ensure_derivative("the loading traction derives from the stored energy",
                    t[0], slope);
  ensure_le("opening stores energy", 0.0, law.get_free_energy_density(x));
}

CONTRACT(C14_degradation) { degradation(); }
CONTRACT(C14_cohesive_energy_2d) { cohesive_energy<2>(); }
CONTRACT(C14_cohesive_energy_3d) { cohesive_energy<3>(); }
} // namespace contracts

#include "main.h"
