// Contracts on the assembly of a cell: the local residual is the weak form of
// the momentum and the microforce balance (C19), the local matrix is its
// linearization (C20).
#include "verify.h"

#include "/repo/source/gradient_crystal_plasticity/assembly.cc"
#include "cell.h"
#define VERIFY_WITH_MPI

namespace contracts
{
using namespace verify;
using namespace gCP;
template <int dim>
using Solver = GradientCrystalPlasticitySolver<dim>;
using Condition = RunTimeParameters::BoundaryConditionsAtGrainBoundaries;

const dealii::UpdateFlags in_the_cell =
  dealii::update_JxW_values | dealii::update_values | dealii::update_gradients |
  dealii::update_quadrature_points;
const dealii::UpdateFlags on_the_face =
  dealii::update_JxW_values | dealii::update_normal_vectors |
  dealii::update_values | dealii::update_quadrature_points;

// the slips at the quadrature points
template <int dim>
std::vector<std::vector<double>>
slips(const Solver<dim> &s, const dealii::FEValuesBase<dim> &fe,
      const unsigned int n_q, const unsigned int c,
      const dealii::LinearAlgebraTrilinos::MPI::BlockVector &v)
{
  std::vector<std::vector<double>> r(s.crystals_data->get_n_slips(),
                                     std::vector<double>(n_q));
  for (unsigned int k = 0; k < s.crystals_data->get_n_slips(); ++k)
    fe[s.fe_field->get_slip_extractor(c, k)].get_function_values(v, r[k]);
  return r;
}

// the stress at the quadrature points
template <int dim>
dealii::SymmetricTensor<2, dim>
stress(const Solver<dim> &s, const dealii::FEValuesBase<dim> &fe,
       const unsigned int n_q, const unsigned int c, const unsigned int q,
       const std::vector<std::vector<double>> &slips)
{
  std::vector<dealii::SymmetricTensor<2, dim>> strain(n_q);
  fe[s.fe_field->get_displacement_extractor(c)].
    get_function_symmetric_gradients(s.trial_solution, strain);
  return s.hooke_law->get_stress_tensor(
    c, s.macroscopic_strain + s.elastic_strain->get_elastic_strain_tensor(
                                c, q, strain[q], slips));
}

// the virtual work in the cell of the degree of freedom i
template <int dim>
double in_the_bulk(Solver<dim> &s, const CellIterator<dim> &cell,
                   const unsigned int n_q, const unsigned int i)
{
  dealii::hp::FEValues<dim> hp(s.mapping_collection,
                               s.fe_field->get_fe_collection(),
                               s.quadrature_collection, in_the_cell);
  hp.reinit(cell);
  const dealii::FEValues<dim> &fe = hp.get_present_fe_values();
  const unsigned int c = cell->material_id();
  const auto gamma = slips(s, fe, n_q, c, s.trial_solution),
             old = slips(s, fe, n_q, c, s.fe_field->old_solution);
  const auto history = s.quadrature_point_history.get_data(cell);
  const auto &number =
    s.parameters.dimensionless_form_parameters.dimensionless_numbers;
  const unsigned int component = s.fe_field->get_global_component(c, i);
  std::vector<dealii::Tensor<1, dim>> force(n_q);
  if (s.supply_term.get() != nullptr)
    s.supply_term->value_list(fe.get_quadrature_points(), force);
  if (component < dim)
  {
    const auto &u = fe[s.fe_field->get_displacement_extractor(c)];
    return number[3] / number[0] * sum(n_q, [&](const unsigned int q)
      {
        return (u.value(i, q) * force[q] - u.symmetric_gradient(i, q) *
                stress(s, fe, n_q, c, q, gamma)) * fe.get_JxW_values()[q];
      });
  }
  const unsigned int k = component - dim;
  const auto &phi = fe[s.fe_field->get_slip_extractor(c, k)];
  std::vector<dealii::Tensor<1, dim>> gradient(n_q);
  phi.get_function_gradients(s.trial_solution, gradient);
  return sum(n_q, [&](const unsigned int q)
    {
      const double tau = s.resolved_shear_stress_law->get_resolved_shear_stress(
        c, k, stress(s, fe, n_q, c, q, gamma));
      const double pi = s.scalar_microstress_law->get_scalar_microstress(
        gamma[k][q], old[k][q], history[q]->get_slip_resistance(k),
        s.discrete_time.get_next_step_size());
      const dealii::Tensor<1, dim> xi =
        s.vectorial_microstress_law->get_vectorial_microstress(c, k, gradient[q]);
      return (phi.value(i, q) * (number[3] * tau - pi) -
              number[2] * (phi.gradient(i, q) * xi)) * fe.get_JxW_values()[q];
    });
}

// ... of the tractions of the grain boundary
template <int dim>
double on_the_grain_boundary(Solver<dim> &s, const CellIterator<dim> &cell,
                             const unsigned int face, const unsigned int n_q,
                             const unsigned int i)
{
  const auto neighbor = cell->neighbor(face);
  dealii::hp::FEFaceValues<dim>
    hp(s.mapping_collection, s.fe_field->get_fe_collection(),
       s.face_quadrature_collection, on_the_face),
    other_hp(s.mapping_collection, s.fe_field->get_fe_collection(),
             s.face_quadrature_collection, on_the_face);
  hp.reinit(cell, face);
  other_hp.reinit(neighbor, cell->neighbor_of_neighbor(face));
  const dealii::FEFaceValues<dim> &fe = hp.get_present_fe_values(),
                                  &other = other_hp.get_present_fe_values();
  const unsigned int c = cell->material_id(), d = neighbor->material_id();
  const auto &number =
    s.parameters.dimensionless_form_parameters.dimensionless_numbers;
  const auto &damage_parameters =
    s.parameters.constitutive_laws_parameters.damage_evolution_parameters;
  const unsigned int component = s.fe_field->get_global_component(c, i);
  const bool opens = s.fe_field->is_decohesion_allowed();
  std::vector<std::shared_ptr<InterfaceQuadraturePointHistory<dim>>> history;
  if (opens)
    history = s.interface_quadrature_point_history.get_data(cell->id(),
                                                            neighbor->id());
  const auto &normals = fe.get_normal_vectors();
  if (component < dim)
  {
    if (!opens)
      return 0.0;
    const auto &u = fe[s.fe_field->get_displacement_extractor(c)];
    std::vector<dealii::Tensor<1, dim>> here(n_q), there(n_q);
    u.get_function_values(s.trial_solution, here);
    other[s.fe_field->get_displacement_extractor(d)].get_function_values(
      s.trial_solution, there);
    return number[3] / number[0] * sum(n_q, [&](const unsigned int q)
      {
        const dealii::Tensor<1, dim> opening = there[q] - here[q];
        const dealii::Tensor<1, dim> cohesion =
          s.cohesive_law->get_cohesive_traction(
            opening, normals[q],
            history[q]->get_max_effective_opening_displacement(),
            history[q]->get_old_effective_opening_displacement(),
            s.discrete_time.get_next_step_size());
        const dealii::Tensor<1, dim> contact =
          s.contact_law->get_contact_traction(opening, normals[q]);
        const double intact =
          s.degradation_function->get_degradation_function_value(
            history[q]->get_damage_variable(),
            damage_parameters.flag_couple_macrotraction_to_damage);
        return u.value(i, q) * (intact * cohesion + contact) *
               fe.get_JxW_values()[q];
      });
  }
  if (s.parameters.boundary_conditions_at_grain_boundaries !=
      Condition::Microtraction)
    return 0.0;
  const unsigned int k = component - dim;
  const auto &phi = fe[s.fe_field->get_slip_extractor(c, k)];
  const auto here = slips(s, fe, n_q, c, s.trial_solution),
             there = slips(s, other, n_q, d, s.trial_solution);
  const auto moduli =
    s.microtraction_law->get_grain_interaction_moduli(c, d, normals);
  return number[2] * sum(n_q, [&](const unsigned int q)
    {
      const double intact =
        s.degradation_function->get_degradation_function_value(
          opens ? history[q]->get_damage_variable() : 0.0,
          damage_parameters.flag_couple_microtraction_to_damage);
      return phi.value(i, q) * intact *
             s.microtraction_law->get_microtraction(q, k, moduli, here, there) *
             fe.get_JxW_values()[q];
    });
}

// ... of the prescribed tractions
template <int dim>
double on_the_boundary(Solver<dim> &s, const CellIterator<dim> &cell,
                       const unsigned int face, const unsigned int n_q,
                       const unsigned int i)
{
  const auto id = cell->face(face)->boundary_id();
  if (s.neumann_boundary_conditions.find(id) ==
      s.neumann_boundary_conditions.end())
    return 0.0;
  dealii::hp::FEFaceValues<dim> hp(s.mapping_collection,
                                   s.fe_field->get_fe_collection(),
                                   s.face_quadrature_collection, on_the_face);
  hp.reinit(cell, face);
  const dealii::FEFaceValues<dim> &fe = hp.get_present_fe_values();
  const auto &u =
    fe[s.fe_field->get_displacement_extractor(cell->material_id())];
  std::vector<dealii::Tensor<1, dim>> traction(n_q);
  s.neumann_boundary_conditions.at(id)->set_time(
    s.discrete_time.get_next_time());
  s.neumann_boundary_conditions.at(id)->value_list(fe.get_quadrature_points(),
                                                   traction);
  return sum(n_q, [&](const unsigned int q)
    { return u.value(i, q) * traction[q] * fe.get_JxW_values()[q]; });
}

template <int dim>
void residual(const bool microtraction, const bool decohesion)
{
  Solver<dim> &s = polycrystal<dim>(microtraction, decohesion);
  const CellIterator<dim> cell = a_cell<dim>();
  const unsigned int n_marks = s.cell_is_at_grain_boundary.size();
  require(cell->active_cell_index() < n_marks);
  require(marked<dim>(cell) ==
          (s.cell_is_at_grain_boundary(cell->active_cell_index()) != 0.0));
  AssemblyData::Residual::Scratch<dim> scratch(
    s.mapping_collection, s.quadrature_collection, s.face_quadrature_collection,
    s.fe_field->get_fe_collection(), in_the_cell, on_the_face,
    s.crystals_data->get_n_slips());
  AssemblyData::Residual::Copy copy(
    s.fe_field->get_fe_collection().max_dofs_per_cell());
  const unsigned int i = index("dof", scratch.dofs_per_cell);
  const unsigned int n_q = s.quadrature_collection.max_n_quadrature_points(),
    n_face = s.face_quadrature_collection.max_n_quadrature_points();
  s.assemble_local_residual(cell, scratch, copy);
  double expected = in_the_bulk(s, cell, n_q, i);
  for (const auto face : cell->face_indices())
    if (cell->face(face)->at_boundary())
      expected += on_the_boundary(s, cell, face, n_face, i);
    else if (cell->material_id() != cell->neighbor(face)->material_id())
      expected += on_the_grain_boundary(s, cell, face, n_face, i);
  ensure_equal("the residual is the virtual work of what acts on the cell",
               copy.local_rhs(i), expected);
}

CONTRACT(C19_bulk_2d) { residual<2>(false, false); }
CONTRACT(C19_microtraction_2d) { residual<2>(true, false); }
CONTRACT(C19_decohesion_2d) { residual<2>(false, true); }
CONTRACT(C19_both_2d) { residual<2>(true, true); }
CONTRACT(C19_bulk_3d) { residual<3>(false, false); }
CONTRACT(C19_both_3d) { residual<3>(true, true); }
} // namespace contracts
#include "main.h"
