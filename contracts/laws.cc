// Contracts on the bulk and microscopic constitutive laws: scalar
// microstress (C07, C08), vectorial microstress (C09), microtraction (C10),
// elasticity (C11), kinematics and resolved shear stress (C13).
#include "verify.h"

#include "/repo/source/constitutive_laws.cc"
#ifndef VERIFY_SYMBOLIC
#include "/repo/source/crystal_data.cc"
#include "/repo/source/run_time_parameters.cc"
#include "/repo/source/utilities.cc"
#endif
#include "crystals.h"
#define VERIFY_WITH_MPI

namespace contracts
{
using namespace verify;
using namespace gCP;
using namespace gCP::ConstitutiveLaws;
using RunTimeParameters::RegularizationFunction;

// ------------------------------------------------------- scalar microstress
template <int dim>
struct ScalarSetup
{
  std::shared_ptr<CrystalsData<dim>> crystals_data;
  RunTimeParameters::ScalarMicrostressLawParameters law;
  RunTimeParameters::HardeningLaw hardening;
  double C;
  ScalarMicrostressLaw<dim> get() const
  { return ScalarMicrostressLaw<dim>(crystals_data, law, hardening, C); }
};

template <int dim>
ScalarSetup<dim> scalar_setup(const RegularizationFunction f)
{
  ScalarSetup<dim> s;
  s.crystals_data = crystals<dim>();
  s.law.regularization_function = f;
  s.law.regularization_parameter = positive("regularization_parameter");
  s.law.flag_rate_independent = false;
  s.hardening.linear_hardening_modulus = real("linear_hardening_modulus");
  s.hardening.hardening_parameter = real("hardening_parameter");
  s.hardening.flag_perfect_plasticity = flag("perfect_plasticity");
  s.C = positive("characteristic_slip_resistance");
  return s;
}

template <int dim>
void regularized(const RegularizationFunction f)
{
  const ScalarSetup<dim> s = scalar_setup<dim>(f);
  ScalarMicrostressLaw<dim> law = s.get();
  const double g = positive("slip_resistance"), dt = positive("time_step_size");
  const double a = real("slip"), b = real("old_slip");
  require(std::fabs(a - b) <= 5.0 * dt * s.law.regularization_parameter);
  const double xi = law.get_scalar_microstress(a, b, g, dt);
  ensure_equal("reversing the slip increment reverses the microstress",
               law.get_scalar_microstress(b, a, g, dt), -xi);
  ensure_equal("the microstress scales with the slip resistance",
               law.get_scalar_microstress(a, b, 2.0 * g, dt), 2.0 * xi);
  ensure_equal("no slip increment, no microstress",
               law.get_scalar_microstress(a, a, g, dt), 0.0);
  ensure("the microstress stays below the slip resistance",
         xi <= g && -g <= xi);
  ensure("slip dissipates", xi * (a - b) >= 0.0);
  ensure("the microstress has the sign of the slip rate",
         a <= b || xi > 0.0);
  const double slope = derivative([&](const double x)
    { return law.get_scalar_microstress(a + x, b, g, dt); }, 0.0);
  ensure("the microstress never falls with the slip rate", slope >= -1e-9);
  const double initial = derivative([&](const double x)
    { return law.get_scalar_microstress(a + x, a, g, dt); }, 0.0);
  ensure_derivative("the regularization parameter is the rate scale at which "
                    "the slope at rest reaches the slip resistance",
                    initial * dt * s.law.regularization_parameter, g);
}

template <int dim>
void rate_independent()
{
  ScalarSetup<dim> s = scalar_setup<dim>(RegularizationFunction::Tanh);
  s.law.flag_rate_independent = true;
  ScalarMicrostressLaw<dim> law = s.get();
  const double g = positive("slip_resistance"), dt = positive("time_step_size");
  const double a = real("slip"), b = real("old_slip");
  ensure_equal("rate-independent: the microstress is the slip resistance in "
               "the direction of slip", law.get_scalar_microstress(a, b, g, dt),
               a > b ? g : (a < b ? -g : 0.0));
}

template <int dim>
void scalar_jacobian(const RegularizationFunction f, const bool rate_independent)
{
  ScalarSetup<dim> s = scalar_setup<dim>(f);
  s.law.flag_rate_independent = rate_independent;
  ScalarMicrostressLaw<dim> law = s.get();
  const unsigned int n = s.crystals_data->get_n_slips();
  const unsigned int n_q = size("n_q_points", 1), q = index("q_point", n_q);
  const unsigned int alpha = index("alpha", n), beta = index("beta", n);
  const auto slips = table("slips", n, n_q), old = table("old_slips", n, n_q);
  const auto g = reals("slip_resistances", n);
  const double dt = positive("time_step_size");
  require(forall(n, [&](const unsigned int k)
    { return std::fabs(slips[k][q] - old[k][q]) <=
             5.0 * dt * s.law.regularization_parameter; }));
  const dealii::FullMatrix<double> J = law.get_jacobian(q, slips, old, g, dt);
  ensure("the jacobian couples all slip systems", J.m() == n && J.n() == n);
  auto direction = [&](const unsigned int k)
  { return law.get_scalar_microstress(slips[k][q], old[k][q], 1.0, dt); };
  const double H = s.hardening.linear_hardening_modulus / s.C;
  double expected = 0.0;
  if (!s.hardening.flag_perfect_plasticity)
    expected = (alpha == beta ? H : H * s.hardening.hardening_parameter) *
               direction(alpha) * direction(beta);
  if (alpha == beta && !rate_independent)
    expected += derivative([&](const double x)
      { return law.get_scalar_microstress(x, old[alpha][q], g[alpha], dt); },
      slips[alpha][q]);
  ensure_derivative("the jacobian is the viscous slope plus the hardening of "
                    "both systems", J[alpha][beta], expected);
  ensure_equal("the jacobian is symmetric", J[alpha][beta], J[beta][alpha]);
}

CONTRACT(C07_atan) { regularized<2>(RegularizationFunction::Atan); }
CONTRACT(C07_sqrt) { regularized<2>(RegularizationFunction::Sqrt); }
CONTRACT(C07_gd) { regularized<2>(RegularizationFunction::Gd); }
CONTRACT(C07_tanh) { regularized<2>(RegularizationFunction::Tanh); }
CONTRACT(C07_erf) { regularized<2>(RegularizationFunction::Erf); }
CONTRACT(C07_atan_3d) { regularized<3>(RegularizationFunction::Atan); }
CONTRACT(C07_sqrt_3d) { regularized<3>(RegularizationFunction::Sqrt); }
CONTRACT(C07_gd_3d) { regularized<3>(RegularizationFunction::Gd); }
CONTRACT(C07_tanh_3d) { regularized<3>(RegularizationFunction::Tanh); }
CONTRACT(C07_erf_3d) { regularized<3>(RegularizationFunction::Erf); }
CONTRACT(C07_rate_independent) { rate_independent<2>(); }
CONTRACT(C07_rate_independent_3d) { rate_independent<3>(); }

CONTRACT(C08_atan) { scalar_jacobian<2>(RegularizationFunction::Atan, false); }
CONTRACT(C08_sqrt) { scalar_jacobian<2>(RegularizationFunction::Sqrt, false); }
CONTRACT(C08_gd) { scalar_jacobian<2>(RegularizationFunction::Gd, false); }
CONTRACT(C08_tanh) { scalar_jacobian<2>(RegularizationFunction::Tanh, false); }
CONTRACT(C08_erf) { scalar_jacobian<2>(RegularizationFunction::Erf, false); }
CONTRACT(C08_rate_independent) { scalar_jacobian<2>(RegularizationFunction::Tanh, true); }
CONTRACT(C08_atan_3d) { scalar_jacobian<3>(RegularizationFunction::Atan, false); }
CONTRACT(C08_sqrt_3d) { scalar_jacobian<3>(RegularizationFunction::Sqrt, false); }
CONTRACT(C08_gd_3d) { scalar_jacobian<3>(RegularizationFunction::Gd, false); }
CONTRACT(C08_tanh_3d) { scalar_jacobian<3>(RegularizationFunction::Tanh, false); }
CONTRACT(C08_erf_3d) { scalar_jacobian<3>(RegularizationFunction::Erf, false); }
CONTRACT(C08_rate_independent_3d) { scalar_jacobian<3>(RegularizationFunction::Tanh, true); }

// ---------------------------------------------------- vectorial microstress
template <int dim>
struct VectorialSetup
{
  std::shared_ptr<CrystalsData<dim>> crystals_data;
  RunTimeParameters::VectorialMicrostressLawParameters prm;
  unsigned int c, k;
  bool dimensionless;
  double factor;
};

template <int dim>
VectorialSetup<dim> vectorial_setup()
{
  VectorialSetup<dim> s;
  s.crystals_data = crystals<dim>();
  s.prm.energetic_length_scale = positive("energetic_length_scale");
  s.prm.initial_slip_resistance = positive("initial_slip_resistance");
  s.prm.defect_energy_index = real_in("defect_energy_index", 1.0, 6.0);
  s.c = index("crystal_id", s.crystals_data->get_n_crystals());
  s.k = index("slip_id", s.crystals_data->get_n_slips());
  s.dimensionless = flag("dimensionless");
  s.factor = s.dimensionless ? 1.0 :
    s.prm.initial_slip_resistance *
    std::pow(s.prm.energetic_length_scale, s.prm.defect_energy_index);
  return s;
}

// x |x|^(p-2)
inline double signed_power(const double x, const double p)
{ return x == 0.0 ? 0.0 : std::pow(std::fabs(x), p - 2.0) * x; }

template <int dim>
void vectorial_microstress()
{
  const VectorialSetup<dim> s = vectorial_setup<dim>();
  VectorialMicrostressLaw<dim> law(s.crystals_data, s.prm);
  ensure("no microstress before the initialization", throws([&]()
    { law.get_vectorial_microstress(s.c, s.k, dealii::Tensor<1,dim>()); }));
  law.init(s.dimensionless);
  const dealii::Tensor<1,dim> grad = vector<dim>("slip_gradient");
  const dealii::Tensor<1,dim> &m =
    s.crystals_data->get_slip_direction(s.c, s.k);
  const dealii::Tensor<1,dim> &l =
    s.crystals_data->get_slip_orthogonal(s.c, s.k);
  const double edge = m * grad, screw = l * grad;
  // (rounding dominates a tiny projection; zero itself is included)
  require((edge == 0.0 || std::fabs(edge) >= 0.01) &&
          (screw == 0.0 || std::fabs(screw) >= 0.01));
  const double p = s.prm.defect_energy_index;
  const dealii::Tensor<1,dim> xi =
    law.get_vectorial_microstress(s.c, s.k, grad);
  for (unsigned int i = 0; i < dim; ++i)
    ensure_equal("the microstress derives from the defect energy of the edge "
                 "and screw gradients", xi[i],
                 dim == 2 ?
                 s.factor * signed_power(edge, p) * m[i] :
                 s.factor * (signed_power(edge, p) * m[i] +
                             signed_power(screw, p) * l[i]));
}

template <int dim>
void quadratic_energy()
{
  VectorialSetup<dim> s = vectorial_setup<dim>();
  s.prm.defect_energy_index = 2.0;
  s.factor = s.dimensionless ? 1.0 :
    s.prm.initial_slip_resistance * s.prm.energetic_length_scale *
    s.prm.energetic_length_scale;
  VectorialMicrostressLaw<dim> law(s.crystals_data, s.prm);
  law.init(s.dimensionless);
  const dealii::Tensor<1,dim> grad = vector<dim>("slip_gradient");
  const dealii::Tensor<1,dim> w = vector<dim>("direction");
  const dealii::Tensor<1,dim> &m =
    s.crystals_data->get_slip_direction(s.c, s.k);
  const dealii::Tensor<1,dim> &l =
    s.crystals_data->get_slip_orthogonal(s.c, s.k);
  const dealii::Tensor<1,dim> xi =
    law.get_vectorial_microstress(s.c, s.k, grad);
  const dealii::Tensor<1,dim> Jw = law.get_jacobian(s.c, s.k, grad) * w;
  for (unsigned int i = 0; i < dim; ++i)
  {
    ensure_equal("quadratic energy: the microstress is linear in the in-plane "
                 "gradient", xi[i],
                 s.factor * ((m * grad) * m[i] + (l * grad) * l[i]));
    ensure_equal("quadratic energy: the jacobian is constant", Jw[i],
                 s.factor * ((m * w) * m[i] + (l * w) * l[i]));
  }
  const double stored = s.factor * ((m * grad) * (m * grad) +
                                    (l * grad) * (l * grad));
  lemma("the stored power is not negative", stored >= 0.0);
  lemma_equal_("the stored power", xi * grad, stored);
  ensure("quadratic energy: gradients store energy", xi * grad >= -1e-12);
}

template <int dim>
void vectorial_jacobian()
{
  const VectorialSetup<dim> s = vectorial_setup<dim>();
  VectorialMicrostressLaw<dim> law(s.crystals_data, s.prm);
  law.init(s.dimensionless);
  const dealii::Tensor<1,dim> grad = vector<dim>("slip_gradient");
  const dealii::Tensor<1,dim> w = vector<dim>("direction");
  const dealii::Tensor<1,dim> &m =
    s.crystals_data->get_slip_direction(s.c, s.k);
  const dealii::Tensor<1,dim> &l =
    s.crystals_data->get_slip_orthogonal(s.c, s.k);
  require(std::fabs(m * grad) >= 0.1 &&
          (dim == 2 || std::fabs(l * grad) >= 0.1));
  const dealii::Tensor<1,dim> expected = derivative(
    [&](const double x)
    { return law.get_vectorial_microstress(s.c, s.k, grad + x * w); }, 0.0);
  ensure_derivative("the jacobian is the derivative of the microstress",
                    law.get_jacobian(s.c, s.k, grad) * w, expected);
}

CONTRACT(C09_microstress_2d) { vectorial_microstress<2>(); }
CONTRACT(C09_microstress_3d) { vectorial_microstress<3>(); }
CONTRACT(C09_quadratic_2d) { quadratic_energy<2>(); }
CONTRACT(C09_quadratic_3d) { quadratic_energy<3>(); }
CONTRACT(C09_jacobian_2d) { vectorial_jacobian<2>(); }
CONTRACT(C09_jacobian_3d) { vectorial_jacobian<3>(); }

// ------------------------------------------------------------- kinematics
template <int dim>
void kinematics()
{
  const auto data = crystals<dim>();
  const unsigned int n = data->get_n_slips();
  const unsigned int c = index("crystal_id", data->get_n_crystals());
  const unsigned int n_q = size("n_q_points", 1), q = index("q_point", n_q);
  const auto slips = table("slips", n, n_q);
  const dealii::SymmetricTensor<2,dim> strain = symmetric_tensor<dim>("strain");
  const double number = real("dimensionless_number");
  const Kinematics::ElasticStrain<dim> law(data, number);
  const dealii::SymmetricTensor<2,dim> elastic =
    law.get_elastic_strain_tensor(c, q, strain, slips);
  const dealii::SymmetricTensor<2,dim> plastic =
    law.get_plastic_strain_tensor(c, q, slips);
  for (unsigned int i = 0; i < dim; ++i)
    for (unsigned int j = 0; j < dim; ++j)
    {
      const double expected = sum(n, [&](const unsigned int k)
        {
          const dealii::Tensor<1,dim> &s = data->get_slip_direction(c, k);
          const dealii::Tensor<1,dim> &m = data->get_slip_normal(c, k);
          return slips[k][q] * 0.5 * (s[i] * m[j] + s[j] * m[i]);
        });
      ensure_equal("the plastic strain adds the slips on the symmetrized "
                   "Schmid tensors", plastic[i][j], expected);
      ensure_equal("the elastic strain is the strain less the scaled plastic "
                   "strain", elastic[i][j], strain[i][j] - number * expected);
    }
  ensure_equal("slip preserves the volume", trace(plastic), 0.0);
}

template <int dim>
void resolved_shear_stress()
{
  const auto data = crystals<dim>();
  const unsigned int c = index("crystal_id", data->get_n_crystals());
  const unsigned int k = index("slip_id", data->get_n_slips());
  const dealii::SymmetricTensor<2,dim> stress = symmetric_tensor<dim>("stress");
  const ResolvedShearStressLaw<dim> law(data);
  const dealii::Tensor<1,dim> &s = data->get_slip_direction(c, k);
  const dealii::Tensor<1,dim> &m = data->get_slip_normal(c, k);
  const double tau = law.get_resolved_shear_stress(c, k, stress);
  ensure_equal("the resolved shear stress is the traction on the slip plane "
               "along the slip direction", tau, s * (stress * m));
  const double p = real("pressure");
  ensure_equal("a pressure resolves no shear stress",
               law.get_resolved_shear_stress(
                 c, k, stress + p * dealii::unit_symmetric_tensor<dim>()), tau);
}

CONTRACT(C13_strain_2d) { kinematics<2>(); }
CONTRACT(C13_strain_3d) { kinematics<3>(); }
CONTRACT(C13_resolved_shear_stress_2d) { resolved_shear_stress<2>(); }
CONTRACT(C13_resolved_shear_stress_3d) { resolved_shear_stress<3>(); }

// -------------------------------------------------------------- elasticity
// contraction of the cubic stiffness with a strain in the crystal frame
template <int dim>
dealii::SymmetricTensor<2,dim>
cubic(const RunTimeParameters::HookeLawParameters &p, const double C,
      const dealii::SymmetricTensor<2,dim> &e)
{
  dealii::SymmetricTensor<2,dim> s;
  for (unsigned int i = 0; i < dim; ++i)
    for (unsigned int j = i; j < dim; ++j)
      if (i == j)
      {
        s[i][i] = p.C1111 / C * e[i][i];
        for (unsigned int k = 0; k < dim; ++k)
          if (k != i)
            s[i][i] += p.C1122 / C * e[k][k];
      }
      else
        s[i][j] = 2.0 * p.C1212 / C * e[i][j];
  return s;
}

inline RunTimeParameters::HookeLawParameters hooke_parameters()
{
  RunTimeParameters::HookeLawParameters p;
  p.C1111 = positive("C1111");
  p.C1122 = real("C1122");
  p.C1212 = positive("C1212");
  return p;
}

template <int dim>
void reference_stiffness()
{
  const RunTimeParameters::HookeLawParameters p = hooke_parameters();
  const double C = positive("characteristic_stiffness");
  HookeLaw<dim> law(p, C);
  ensure("no stress before the initialization", throws([&]()
    { law.get_stress_tensor(dealii::SymmetricTensor<2,dim>()); }));
  law.init();
  const dealii::SymmetricTensor<2,dim> e = symmetric_tensor<dim>("strain");
  ensure_equal("an unrotated crystal has cubic symmetry",
               law.get_stress_tensor(e), cubic<dim>(p, C, e));
  ensure_equal("the stiffness tetrad maps strains to stresses",
               law.get_stiffness_tetrad() * e, cubic<dim>(p, C, e));
  const dealii::SymmetricTensor<2,3> e3 = symmetric_tensor<3>("strain_3d");
  ensure_equal("the three-dimensional stiffness has cubic symmetry",
               law.get_stiffness_tetrad_3d() * e3, cubic<3>(p, C, e3));
}

// R e R^T
template <int dim>
dealii::SymmetricTensor<2,dim> rotate(const dealii::Tensor<2,dim> &R,
                                      const dealii::SymmetricTensor<2,dim> &e)
{
  dealii::SymmetricTensor<2,dim> r;
  for (unsigned int i = 0; i < dim; ++i)
    for (unsigned int j = i; j < dim; ++j)
    {
      double s = 0.0;
      for (unsigned int k = 0; k < dim; ++k)
        for (unsigned int l = 0; l < dim; ++l)
          s += R[i][k] * R[j][l] * e[k][l];
      r[i][j] = s;
    }
  return r;
}

template <int dim>
void rotated_stiffness()
{
  const auto data = crystals<dim>();
  const unsigned int c = index("crystal_id", data->get_n_crystals());
  const RunTimeParameters::HookeLawParameters p = hooke_parameters();
  const double C = positive("characteristic_stiffness");
  HookeLaw<dim> law(data, p, C);
  law.init();
  const dealii::SymmetricTensor<2,dim> e = symmetric_tensor<dim>("strain");
  const dealii::Tensor<2,dim> R = data->get_rotation_tensor(c);
  // a strain given in the crystal frame, rotated into the specimen
  ensure_equal("the stress of a rotated crystal is the rotated stress",
               law.get_stress_tensor(c, rotate<dim>(R, e)),
               rotate<dim>(R, cubic<dim>(p, C, e)));
  ensure_equal("the stiffness tetrad of a crystal gives its stress",
               law.get_stiffness_tetrad(c) * e, law.get_stress_tensor(c, e));
}

template <int dim>
void rotated_stiffness_3d()
{
  const auto data = crystals<dim>();
  const unsigned int c = index("crystal_id", data->get_n_crystals());
  const RunTimeParameters::HookeLawParameters p = hooke_parameters();
  const double C = positive("characteristic_stiffness");
  HookeLaw<dim> law(data, p, C);
  law.init();
  const dealii::SymmetricTensor<2,3> e = symmetric_tensor<3>("strain_3d");
  const dealii::Tensor<2,3> R = data->get_3d_rotation_tensor(c);
  ensure_equal("the three-dimensional stiffness of a rotated crystal",
               law.get_stiffness_tetrad_3d(c) * rotate<3>(R, e),
               rotate<3>(R, cubic<3>(p, C, e)));
}

template <int dim>
void stiffness_overloads()
{
  const auto data = crystals<dim>();
  const unsigned int c = index("crystal_id", data->get_n_crystals());
  const RunTimeParameters::HookeLawParameters p = hooke_parameters();
  HookeLaw<dim> single(p, 1.0), poly(data, p, 1.0);
  const dealii::SymmetricTensor<2,dim> e = symmetric_tensor<dim>("strain");
  ensure("no rotated stress before the initialization",
         throws([&]() { poly.get_stress_tensor(c, e); }) &&
         throws([&]() { poly.get_stiffness_tetrad(c); }));
  single.init();
  poly.init();
  ensure("a single crystal has no crystal identifiers",
         throws([&]() { single.get_stress_tensor(c, e); }) &&
         throws([&]() { single.get_stiffness_tetrad(c); }) &&
         throws([&]() { single.get_stiffness_tetrad_3d(c); }));
  ensure("a polycrystal has no single stiffness",
         throws([&]() { poly.get_stress_tensor(e); }) &&
         throws([&]() { poly.get_stiffness_tetrad(); }) &&
         throws([&]() { poly.get_stiffness_tetrad_3d(); }));
}

CONTRACT(C11_reference_2d) { reference_stiffness<2>(); }
CONTRACT(C11_reference_3d) { reference_stiffness<3>(); }
CONTRACT(C11_rotated_2d) { rotated_stiffness<2>(); }
CONTRACT(C11_rotated_3d) { rotated_stiffness<3>(); }
CONTRACT(C11_tetrad_3d_of_2d) { rotated_stiffness_3d<2>(); }
CONTRACT(C11_tetrad_3d) { rotated_stiffness_3d<3>(); }
CONTRACT(C11_overloads_2d) { stiffness_overloads<2>(); }

// ------------------------------------------------------------ microtraction
template <int dim>
struct BoundarySetup
{
  std::shared_ptr<CrystalsData<dim>> crystals_data;
  RunTimeParameters::MicrotractionLawParameters prm;
  double C;
  unsigned int c, d, n, n_q, q;
  std::vector<dealii::Tensor<1,dim>> normals;
};

template <int dim>
BoundarySetup<dim> boundary_setup()
{
  BoundarySetup<dim> s;
  s.crystals_data = crystals<dim>();
  s.prm.grain_boundary_modulus = positive("grain_boundary_modulus");
  s.C = positive("characteristic_vectorial_microstress");
  s.c = index("current_crystal", s.crystals_data->get_n_crystals());
  s.d = index("neighbor_crystal", s.crystals_data->get_n_crystals());
  require(s.c != s.d);
  s.n = s.crystals_data->get_n_slips();
  s.n_q = size("n_q_points", 1);
  s.q = index("q_point", s.n_q);
  s.normals = unit_vectors<dim>("normal_vector", s.n_q);
  return s;
}

// m x n of the slip normal m and the boundary normal n
inline double area(const dealii::Tensor<1,2> &a, const dealii::Tensor<1,2> &n,
                   const dealii::Tensor<1,2> &b, const dealii::Tensor<1,2> &m)
{ return (a[0] * n[1] - a[1] * n[0]) * (b[0] * m[1] - b[1] * m[0]); }

// (a x n) . (b x m) = (a.b)(n.m) - (a.m)(n.b)
inline double area(const dealii::Tensor<1,3> &a, const dealii::Tensor<1,3> &n,
                   const dealii::Tensor<1,3> &b, const dealii::Tensor<1,3> &m)
{ return (a * b) * (n * m) - (a * m) * (n * b); }

template <int dim>
double interaction(const CrystalsData<dim> &data, const unsigned int c,
                   const unsigned int a, const unsigned int d,
                   const unsigned int b, const dealii::Tensor<1,dim> &n)
{
  return (data.get_slip_direction(c, a) * data.get_slip_direction(d, b)) *
         area(data.get_slip_normal(c, a), n, data.get_slip_normal(d, b), n);
}

template <int dim>
void moduli()
{
  const BoundarySetup<dim> s = boundary_setup<dim>();
  const MicrotractionLaw<dim> law(s.crystals_data, s.prm, s.C);
  const unsigned int alpha = index("alpha", s.n), beta = index("beta", s.n);
  const auto moduli = law.get_grain_interaction_moduli(s.c, s.d, s.normals);
  ensure("one set of moduli per quadrature point",
         moduli.first.size() == s.n_q && moduli.second.size() == s.n_q);
  ensure_equal("the moduli within the grain",
               moduli.first[s.q][alpha][beta],
               interaction<dim>(*s.crystals_data, s.c, alpha, s.c, beta,
                                s.normals[s.q]));
  ensure_equal("the moduli between the grains",
               moduli.second[s.q][alpha][beta],
               interaction<dim>(*s.crystals_data, s.c, alpha, s.d, beta,
                                s.normals[s.q]));
}

template <int dim>
void same_crystal()
{
  const BoundarySetup<dim> s = boundary_setup<dim>();
  const MicrotractionLaw<dim> law(s.crystals_data, s.prm, s.C);
  ensure("there is no boundary within a crystal", throws([&]()
    { law.get_grain_interaction_moduli(s.c, s.c, s.normals); }));
}

template <int dim>
void microtraction()
{
  const BoundarySetup<dim> s = boundary_setup<dim>();
  const MicrotractionLaw<dim> law(s.crystals_data, s.prm, s.C);
  const unsigned int alpha = index("alpha", s.n), beta = index("beta", s.n);
  const auto moduli = law.get_grain_interaction_moduli(s.c, s.d, s.normals);
  const auto in = table("current_slips", s.n, s.n_q);
  const auto out = table("neighbor_slips", s.n, s.n_q);
  const double factor = s.prm.grain_boundary_modulus / s.C;
  const double expected = -factor * sum(s.n, [&](const unsigned int k)
    {
      return interaction<dim>(*s.crystals_data, s.c, alpha, s.c, k,
                              s.normals[s.q]) * in[k][s.q] -
             interaction<dim>(*s.crystals_data, s.c, alpha, s.d, k,
                              s.normals[s.q]) * out[k][s.q];
    });
  ensure_equal("the microtraction resists the slip mismatch",
               law.get_microtraction(s.q, alpha, moduli, in, out), expected);
  const dealii::FullMatrix<double> intra =
    law.get_intra_gateaux_derivative(s.q, moduli);
  const dealii::FullMatrix<double> inter =
    law.get_inter_gateaux_derivative(s.q, moduli);
  ensure_equal("derivative with respect to the own slips", intra[alpha][beta],
               -factor * interaction<dim>(*s.crystals_data, s.c, alpha, s.c,
                                          beta, s.normals[s.q]));
  ensure_equal("derivative with respect to the slips across the boundary",
               inter[alpha][beta],
               factor * interaction<dim>(*s.crystals_data, s.c, alpha, s.d,
                                         beta, s.normals[s.q]));
}

template <int dim>
void boundary_energy()
{
  const BoundarySetup<dim> s = boundary_setup<dim>();
  const MicrotractionLaw<dim> law(s.crystals_data, s.prm, s.C);
  const auto in = table("current_slips", s.n, s.n_q);
  const auto out = table("neighbor_slips", s.n, s.n_q);
  const double energy =
    law.get_free_energy_density(s.d, s.c, s.q, s.normals, out, in);
  ensure("the boundary energy is not negative", energy >= 0.0);
  const auto &n = s.normals[s.q];
  const auto &data = *s.crystals_data;
  auto pair = [&](const unsigned int c,
                  const std::vector<std::vector<double>> &x,
                  const unsigned int d,
                  const std::vector<std::vector<double>> &y)
  {
    return sum(s.n, [&](const unsigned int a)
      { return sum(s.n, [&](const unsigned int b)
          { return x[a][s.q] * y[b][s.q] *
                   interaction<dim>(data, c, a, d, b, n); }); });
  };
  ensure_equal("the boundary energy is quadratic in the slip mismatch", energy,
               0.5 * s.prm.grain_boundary_modulus *
               (pair(s.c, in, s.c, in) - pair(s.c, in, s.d, out) -
                pair(s.d, out, s.c, in) + pair(s.d, out, s.d, out)));
  ensure_equal("both sides see the same boundary energy",
               law.get_free_energy_density(s.c, s.d, s.q, s.normals, in, out),
               energy);
}

CONTRACT(C10_moduli_2d) { moduli<2>(); }
CONTRACT(C10_moduli_3d) { moduli<3>(); }
CONTRACT(C10_same_crystal) { same_crystal<2>(); }
CONTRACT(C10_same_crystal_3d) { same_crystal<3>(); }
CONTRACT(C10_microtraction_2d) { microtraction<2>(); }
CONTRACT(C10_microtraction_3d) { microtraction<3>(); }
CONTRACT(C10_energy_2d) { boundary_energy<2>(); }
CONTRACT(C10_energy_3d) { boundary_energy<3>(); }

} // namespace contracts

#include "main.h"
