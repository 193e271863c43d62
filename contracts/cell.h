// One cell of an arbitrary polycrystal: a solver with arbitrary parameters,
// trial and old solution, and an arbitrary cell of its mesh.
#ifndef CELL_H_
#define CELL_H_
#include <gCP/gradient_crystal_plasticity.h>
#include "crystals.h"

namespace verify
{
template <int dim>
using CellIterator = typename dealii::DoFHandler<dim>::active_cell_iterator;
// an arbitrary object                                          [intrinsic]
template <class T> T &object(const char *name);
// a function of which nothing is known                         [intrinsic]
template <class T, class... A> T some(const char *name, const A &... a);
// calls of the function with n arguments go to f, which is its contract; the
// contract is proved elsewhere                                 [intrinsic]
template <class F> void abstract(const char *function, unsigned int n, F f);
// an arbitrary cell of the mesh                                [intrinsic]
template <int dim> CellIterator<dim> a_cell();
// the face and the quadrature point are those of the contract   [intrinsic]
} // namespace verify

#include "/repo/source/gradient_crystal_plasticity/assembly_data.cc"
#ifndef VERIFY_SYMBOLIC
#include "/repo/source/gradient_crystal_plasticity/gradient_crystal_plasticity_solver.cc"
#include "/repo/source/gradient_crystal_plasticity/setup.cc"
#include "/repo/source/gradient_crystal_plasticity/quadrature_point_history.cc"
#include "/repo/source/constitutive_laws.cc"
#include "/repo/source/crystal_data.cc"
#include "/repo/source/fe_field.cc"
#include "/repo/source/postprocessing.cc"
#include "/repo/source/run_time_parameters.cc"
#include "/repo/source/utilities.cc"

#include <deal.II/grid/grid_generator.h>
#include <deal.II/grid/tria.h>
#include <optional>

namespace verify
{
template <class F> void abstract(const char *, unsigned int, F) {}
inline bool often(const double p) { return state().uniform() < p; }

template <int dim>
struct Uniform : dealii::TensorFunction<1, dim>
{
  dealii::Tensor<1, dim> v, w;
  dealii::Tensor<1, dim> value(const dealii::Point<dim> &p) const override
  { return v * (1.0 + this->get_time() + p[0]) + w * p[1]; }
};

template <int dim>
struct Bicrystal
{
  gCP::RunTimeParameters::SolverParameters p;
  dealii::DiscreteTime time{0.0, 1e6, 1.0};
  dealii::Triangulation<dim> mesh;
  std::shared_ptr<gCP::FEField<dim>> field;
  std::shared_ptr<gCP::CrystalsData<dim>> data;
  std::shared_ptr<dealii::ConditionalOStream> out;
  std::shared_ptr<dealii::TimerOutput> timer;
  std::unique_ptr<gCP::GradientCrystalPlasticitySolver<dim>> solver;

  static double u(const double lo, const double hi)
  { return lo + (hi - lo) * state().uniform(); }

  static void fill(dealii::LinearAlgebraTrilinos::MPI::BlockVector &x,
                   const double a)
  {
    dealii::LinearAlgebraTrilinos::MPI::BlockVector y = x;
    for (unsigned int i = 0; i < y.size(); ++i)
      y(i) = u(-a, a);
    y.compress(dealii::VectorOperation::insert);
    x = y;
  }

  static std::shared_ptr<Uniform<dim>> force()
  {
    auto f = std::make_shared<Uniform<dim>>();
    for (unsigned int d = 0; d < dim; ++d)
    {
      f->v[d] = u(-1, 1);
      f->w[d] = u(-1, 1);
    }
    return f;
  }

  Bicrystal(const bool microtraction, const bool decohesion)
  {
    std::vector<unsigned int> cells(dim, 1);
    cells[0] = 2;
    dealii::Point<dim> a, b;
    for (unsigned int d = 0; d < dim; ++d)
      b[d] = 1.0;
    dealii::GridGenerator::subdivided_hyper_rectangle(mesh, cells, a, b, true);
    do
      data = crystals<dim>();
    while (data->get_n_crystals() != 2);
    p.verbose = false;
    p.logger_output_directory = "./";
    p.allow_decohesion = decohesion;
    using Condition =
      gCP::RunTimeParameters::BoundaryConditionsAtGrainBoundaries;
    p.boundary_conditions_at_grain_boundaries =
      microtraction ? Condition::Microtraction : Condition::Microfree;
    auto &law = p.constitutive_laws_parameters;
    auto &hooke = law.hooke_law_parameters;
    hooke.C1111 = u(2, 4);
    hooke.C1122 = u(0.5, 1.5);
    hooke.C1212 = u(0.5, 1.5);
    using Regularization = gCP::RunTimeParameters::RegularizationFunction;
    law.scalar_microstress_law_parameters.regularization_function =
      std::array<Regularization, 5>{{Regularization::Atan, Regularization::Sqrt,
        Regularization::Gd, Regularization::Tanh, Regularization::Erf}}
        [state().next() % 5];
    law.scalar_microstress_law_parameters.regularization_parameter = u(0.5, 2);
    law.scalar_microstress_law_parameters.flag_rate_independent = false;
    auto &v = law.vectorial_microstress_law_parameters;
    v.energetic_length_scale = u(0.5, 2);
    v.initial_slip_resistance = u(0.5, 2);
    v.defect_energy_index = u(2, 4);
    law.microtraction_law_parameters.grain_boundary_modulus = u(0.5, 2);
    auto &c = law.cohesive_law_parameters;
    c.critical_cohesive_traction = u(0.5, 2);
    c.critical_opening_displacement = u(0.5, 2);
    c.tangential_to_normal_stiffness_ratio = u(0.2, 2);
    law.contact_law_parameters.penalty_coefficient = u(0.5, 2);
    law.degradation_function_parameters.degradation_exponent = u(1, 3);
    auto &h = law.hardening_law_parameters;
    h.initial_slip_resistance = u(0.5, 2);
    h.linear_hardening_modulus = u(0.5, 2);
    h.hardening_parameter = u(0.5, 2);
    h.flag_perfect_plasticity = often(0.3);
    auto &d = law.damage_evolution_parameters;
    using Model = gCP::RunTimeParameters::DamageEvolutionModel;
    d.damage_evolution_model = often(0.5) ? Model::OrtizEtAl : Model::M1;
    d.damage_accumulation_constant = u(0.5, 2);
    d.damage_decay_constant = u(0.0, 1);
    d.damage_decay_exponent = u(1, 2);
    d.endurance_limit = u(0, 0.1);
    d.flag_couple_macrotraction_to_damage = often(0.5);
    d.flag_couple_microtraction_to_damage = often(0.5);
    d.flag_set_damage_to_zero = false;
    auto &q = p.dimensionless_form_parameters.characteristic_quantities;
    q.stiffness = u(0.5, 2);
    q.slip_resistance = u(0.5, 2);
    q.displacement = u(0.5, 2);
    q.stress = u(0.5, 2);
    p.dimensionless_form_parameters.dimensionless_numbers =
      {u(0.5, 2), u(0.5, 2), u(0.5, 2), often(0.5) ? 1.0 : u(0.5, 2)};
    for (double x : p.dimensionless_form_parameters.dimensionless_numbers)
      remember("dimensionless number", x);
    field = std::make_shared<gCP::FEField<dim>>(mesh, 1, 1, decohesion, false);
    unsigned int n = 0;
    for (const auto &cell : mesh.active_cell_iterators())
      cell->set_material_id(n++);
    for (const auto &cell : field->get_dof_handler().active_cell_iterators())
      cell->set_active_fe_index(cell->material_id());
    field->setup_extractors(2, data->get_n_slips());
    field->setup_dofs();
    field->setup_vectors();
    field->flag_affine_constraints_were_set = true;
    field->flag_newton_method_constraints_were_set = true;
    out = std::make_shared<dealii::ConditionalOStream>(std::cout, false);
    timer = std::make_shared<dealii::TimerOutput>(
      *out, dealii::TimerOutput::never, dealii::TimerOutput::wall_times);
    time = dealii::DiscreteTime(0.0, 1e6, u(0.1, 1));
    solver = std::make_unique<gCP::GradientCrystalPlasticitySolver<dim>>(
      p, time, field, data, nullptr, out, timer);
    auto &s = *solver;
    s.nonlinear_solver_logger.pcout.set_condition(false);
    if (often(0.5))
      s.supply_term = force();
    for (unsigned int k = 0; k < 2 * dim; ++k)
      if (often(0.3))
        s.neumann_boundary_conditions[k] = force();
    for (unsigned int i = 0; i < dim; ++i)
      for (unsigned int j = i; j < dim; ++j)
        s.macroscopic_strain[i][j] = often(0.5) ? 0.0 : u(-0.3, 0.3);
    s.init();
    for (const auto &cell : field->get_dof_handler().active_cell_iterators())
      for (const auto &h : s.quadrature_point_history.get_data(cell))
        for (double &r : h->slip_resistances)
          r = u(0.5, 2);
    if (decohesion)
    {
      const auto cell = field->get_dof_handler().begin_active();
      for (const auto face : cell->face_indices())
        if (!cell->face(face)->at_boundary())
          for (const auto &h : s.interface_quadrature_point_history.get_data(
                 cell->id(), cell->neighbor(face)->id()))
          {
            h->damage_variable = often(0.2) ? 0.0 : u(0, 1);
            h->max_effective_opening_displacement = u(0, 1);
            h->old_effective_opening_displacement = u(0, 1);
          }
    }
    fill(s.trial_solution, 0.5);
    fill(field->solution, 0.5);
    fill(field->old_solution, 0.5);
  }
};

template <int dim> Bicrystal<dim> *&bicrystal()
{ static Bicrystal<dim> *b = nullptr; return b; }

template <int dim>
gCP::GradientCrystalPlasticitySolver<dim> &
polycrystal(const bool microtraction, const bool decohesion)
{
  delete bicrystal<dim>();
  bicrystal<dim>() = new Bicrystal<dim>(microtraction, decohesion);
  return *bicrystal<dim>()->solver;
}

template <int dim> CellIterator<dim> a_cell()
{
  auto cell = bicrystal<dim>()->field->get_dof_handler().begin_active();
  const bool second = often(0.5);
  remember("cell", second);
  if (second)
    ++cell;
  return cell;
}
template <int dim, class C> bool marked(const C &cell)
{
  return bicrystal<dim>()->solver->cell_is_at_grain_boundary(
    cell->active_cell_index()) != 0.0;
}
} // namespace verify
#else
namespace verify
{
// the marker of the cells at grain boundaries                  [intrinsic]
template <int dim, class C> bool marked(const C &cell);
// the interface history of a pair of cells, in either order    [intrinsic]
template <class R, class H>
R interface_history(const H &h, const dealii::CellId a, const dealii::CellId b);

// the constitutive laws are replaced by arbitrary functions of their arguments;
// that they are the laws they should be is stated by C02-C14
void pointwise(bool universal = false);
template <class A, class B> void bounded(const A &a, const B &b);
// a square matrix
template <class... A>
dealii::FullMatrix<double> matrix(const char *name, const unsigned int n,
                                  const A &... a)
{
  dealii::FullMatrix<double> m(n, n);
  for (unsigned int i = 0; i < n; ++i)
    for (unsigned int j = 0; j < n; ++j)
      m(i, j) = some<double>(name, i, j, a...);
  return m;
}
template <int dim> void arbitrary_laws(const unsigned int n_slips)
{
  using namespace gCP;
  using namespace gCP::ConstitutiveLaws;
  using Vector = dealii::Tensor<1, dim>;
  using Symmetric = dealii::SymmetricTensor<2, dim>;
  using Values = std::vector<std::vector<double>>;
  using Moduli = typename MicrotractionLaw<dim>::GrainInteractionModuli;
  abstract("gCP::FEField::get_displacement_extractor", 1,
           [](const FEField<dim> &, const unsigned int c)
           { return some<dealii::FEValuesExtractors::Vector>("displacement", c); });
  abstract("gCP::FEField::get_slip_extractor", 2,
           [](const FEField<dim> &, const unsigned int c, const unsigned int k)
           { return some<dealii::FEValuesExtractors::Scalar>("slip", c, k); });
  // the degrees of freedom of all crystals are numbered alike
  abstract("gCP::FEField::get_global_component", 2,
           [n_slips](const FEField<dim> &, const unsigned int, const unsigned int i)
           { const unsigned int r = some<unsigned int>("component", i);
             bounded(r, dim + n_slips);
             return r; });
  abstract("gCP::ConstitutiveLaws::HookeLaw::get_stress_tensor", 2,
           [](const HookeLaw<dim> &, const unsigned int c, const Symmetric e)
           { return some<Symmetric>("stress", c, e); });
  abstract("gCP::Kinematics::ElasticStrain::get_elastic_strain_tensor", 4,
           [](const gCP::Kinematics::ElasticStrain<dim> &, const unsigned int c,
              const unsigned int q, const Symmetric e, const Values &v)
           { return some<Symmetric>("elastic strain", c, q, e, v); });
  abstract("gCP::ConstitutiveLaws::ResolvedShearStressLaw::get_resolved_shear_stress", 3,
           [](const ResolvedShearStressLaw<dim> &, const unsigned int c,
              const unsigned int k, const Symmetric t)
           { return some<double>("resolved shear stress", c, k, t); });
  abstract("gCP::ConstitutiveLaws::ScalarMicrostressLaw::get_scalar_microstress", 4,
           [](ScalarMicrostressLaw<dim> &, const double a, const double b,
              const double r, const double dt)
           { return some<double>("scalar microstress", a, b, r, dt); });
  abstract("gCP::ConstitutiveLaws::VectorialMicrostressLaw::get_vectorial_microstress", 3,
           [](const VectorialMicrostressLaw<dim> &, const unsigned int c,
              const unsigned int k, const Vector g)
           { return some<Vector>("vectorial microstress", c, k, g); });
  abstract("gCP::ConstitutiveLaws::MicrotractionLaw::get_grain_interaction_moduli", 3,
           [](const MicrotractionLaw<dim> &, const unsigned int c,
              const unsigned int d, const std::vector<Vector> n)
           { return some<Moduli>("moduli", c, d, n); });
  abstract("gCP::ConstitutiveLaws::MicrotractionLaw::get_microtraction", 5,
           [](const MicrotractionLaw<dim> &, const unsigned int q,
              const unsigned int k, const Moduli &m, const Values &a,
              const Values &b)
           { return some<double>("microtraction", q, k, m, a, b); });
  abstract("gCP::ConstitutiveLaws::CohesiveLaw::get_cohesive_traction", 5,
           [](const CohesiveLaw<dim> &, const Vector u, const Vector n,
              const double a, const double b, const double dt)
           { return some<Vector>("cohesive traction", u, n, a, b, dt); });
  abstract("gCP::ConstitutiveLaws::ContactLaw::get_contact_traction", 2,
           [](const ContactLaw<dim> &, const Vector u, const Vector n)
           { return some<Vector>("contact traction", u, n); });
  using Storage = InterfaceDataStorage<
    typename dealii::Triangulation<dim>::cell_iterator,
    InterfaceQuadraturePointHistory<dim>>;
  abstract("gCP::InterfaceDataStorage::get_data", 2,
           [](Storage &h, const dealii::CellId a, const dealii::CellId b)
           { return interface_history<
               std::vector<std::shared_ptr<InterfaceQuadraturePointHistory<dim>>>>(
                 h, a, b); });
  // their tangents
  abstract("gCP::ConstitutiveLaws::HookeLaw::get_stiffness_tetrad", 1,
           [](const HookeLaw<dim> &, const unsigned int c)
             -> const dealii::SymmetricTensor<4, dim> &
           { return some<const dealii::SymmetricTensor<4, dim> &>("stiffness", c); });
  abstract("gCP::ConstitutiveLaws::ScalarMicrostressLaw::get_jacobian", 5,
           [n_slips](ScalarMicrostressLaw<dim> &, const unsigned int q,
              const Values a, const Values b, const std::vector<double> r,
              const double dt)
           { return matrix("scalar microstress tangent", n_slips, q, a, b, r, dt); });
  abstract("gCP::ConstitutiveLaws::VectorialMicrostressLaw::get_jacobian", 3,
           [](const VectorialMicrostressLaw<dim> &, const unsigned int c,
              const unsigned int k, const Vector g)
           { return some<Symmetric>("vectorial microstress tangent", c, k, g); });
  abstract("gCP::ConstitutiveLaws::MicrotractionLaw::get_intra_gateaux_derivative", 2,
           [n_slips](const MicrotractionLaw<dim> &, const unsigned int q, const Moduli &m)
           { return matrix("microtraction tangent", n_slips, q, m); });
  abstract("gCP::ConstitutiveLaws::MicrotractionLaw::get_inter_gateaux_derivative", 2,
           [n_slips](const MicrotractionLaw<dim> &, const unsigned int q, const Moduli &m)
           { return matrix("microtraction coupling", n_slips, q, m); });
  abstract("gCP::ConstitutiveLaws::CohesiveLaw::get_jacobian", 5,
           [](const CohesiveLaw<dim> &, const Vector u, const Vector n,
              const double a, const double b, const double dt)
           { return some<Symmetric>("cohesive tangent", u, n, a, b, dt); });
  abstract("gCP::ConstitutiveLaws::ContactLaw::get_jacobian", 2,
           [](const ContactLaw<dim> &, const Vector u, const Vector n)
           { return some<Symmetric>("contact tangent", u, n); });
  abstract("gCP::ConstitutiveLaws::DegradationFunction::get_degradation_function_value", 2,
           [](const DegradationFunction &, const double d, const bool b)
           { return some<double>("degradation", d, b); });
}

template <int dim>
gCP::GradientCrystalPlasticitySolver<dim> &
polycrystal(const bool microtraction, const bool decohesion)
{
  pointwise(true);
  auto &s = object<gCP::GradientCrystalPlasticitySolver<dim>>("solver");
  s.crystals_data = crystals<dim>();
  arbitrary_laws<dim>(s.crystals_data->get_n_slips());
  using Condition =
    gCP::RunTimeParameters::BoundaryConditionsAtGrainBoundaries;
  const_cast<gCP::RunTimeParameters::SolverParameters &>(s.parameters)
    .boundary_conditions_at_grain_boundaries =
      microtraction ? Condition::Microtraction : Condition::Microfree;
  const_cast<gCP::FEField<dim> &>(*s.fe_field).flag_allow_decohesion = decohesion;
  const auto &number =
    s.parameters.dimensionless_form_parameters.dimensionless_numbers;
  require(number.size() == 4);
  require(number[0] > 0.0);
  return s;
}
}
#endif
#endif
