// Contracts on the local matrix of a cell: it is the linearization of the
// residual (C19) with the tangents of the constitutive laws (C03, C05, C07,
// C08, C10, C11), internal variables held fixed.
#include "verify.h"

#include "/repo/source/gradient_crystal_plasticity/assembly.cc"
#include "cell.h"
#define VERIFY_WITH_MPI

namespace contracts
{
using namespace verify;
using namespace gCP;
template <int dim>
using Solver = GradientCrystalPlasticitySolver<dim>;
using Condition = RunTimeParameters::BoundaryConditionsAtGrainBoundaries;

const dealii::UpdateFlags in_the_cell =
  dealii::update_JxW_values | dealii::update_values | dealii::update_gradients;
const dealii::UpdateFlags on_the_face =
  dealii::update_JxW_values | dealii::update_normal_vectors |
  dealii::update_values;

// the change of the virtual work of i in the cell with the degree of freedom j
template <int dim>
double in_the_bulk(Solver<dim> &s, const CellIterator<dim> &cell,
                   const unsigned int n_q, const unsigned int i,
                   const unsigned int j)
{
  dealii::hp::FEValues<dim> hp(s.mapping_collection,
                               s.fe_field->get_fe_collection(),
                               s.quadrature_collection, in_the_cell);
  hp.reinit(cell);
  const dealii::FEValues<dim> &fe = hp.get_present_fe_values();
  const unsigned int c = cell->material_id();
  const auto history = s.quadrature_point_history.get_data(cell);
  const auto &number =
    s.parameters.dimensionless_form_parameters.dimensionless_numbers;
  const unsigned int row = s.fe_field->get_global_component(c, i),
                     column = s.fe_field->get_global_component(c, j);
  const auto &u = fe[s.fe_field->get_displacement_extractor(c)];
  const dealii::SymmetricTensor<4, dim> stiffness =
    s.hooke_law->get_stiffness_tetrad(c);
  if (row < dim && column < dim)
    return number[3] / number[0] * sum(n_q, [&](const unsigned int q)
      {
        return u.symmetric_gradient(i, q) *
               (stiffness * u.symmetric_gradient(j, q)) * fe.get_JxW_values()[q];
      });
  if (row < dim)
  {
    const auto &phi = fe[s.fe_field->get_slip_extractor(c, column - dim)];
    const auto schmid =
      s.crystals_data->get_symmetrized_schmid_tensor(c, column - dim);
    return -number[3] * sum(n_q, [&](const unsigned int q)
      {
        return u.symmetric_gradient(i, q) * (stiffness * schmid) *
               phi.value(j, q) * fe.get_JxW_values()[q];
      });
  }
  const unsigned int a = row - dim;
  const auto &test = fe[s.fe_field->get_slip_extractor(c, a)];
  const auto schmid_a = s.crystals_data->get_symmetrized_schmid_tensor(c, a);
  if (column < dim)
    return -number[3] * sum(n_q, [&](const unsigned int q)
      {
        return test.value(i, q) *
               (schmid_a * (stiffness * u.symmetric_gradient(j, q))) *
               fe.get_JxW_values()[q];
      });
  const unsigned int b = column - dim;
  const auto &trial = fe[s.fe_field->get_slip_extractor(c, b)];
  const auto schmid_b = s.crystals_data->get_symmetrized_schmid_tensor(c, b);
  const unsigned int n_slips = s.crystals_data->get_n_slips();
  std::vector<std::vector<double>> now(n_slips, std::vector<double>(n_q)),
    old(n_slips, std::vector<double>(n_q));
  for (unsigned int k = 0; k < n_slips; ++k)
  {
    const auto &slip = fe[s.fe_field->get_slip_extractor(c, k)];
    slip.get_function_values(s.trial_solution, now[k]);
    slip.get_function_values(s.fe_field->old_solution, old[k]);
  }
  std::vector<dealii::Tensor<1, dim>> gradient(n_q);
  test.get_function_gradients(s.trial_solution, gradient);
  return sum(n_q, [&](const unsigned int q)
    {
      const double hardening =
        s.scalar_microstress_law->get_jacobian(
          q, now, old, history[q]->get_slip_resistances(),
          s.discrete_time.get_next_step_size())[a][b];
      const dealii::SymmetricTensor<2, dim> nonlocal =
        s.vectorial_microstress_law->get_jacobian(c, a, gradient[q]);
      double r = test.value(i, q) * trial.value(j, q) *
                 (hardening + number[0] * number[3] *
                                (schmid_a * (stiffness * schmid_b)));
      if (a == b)
        r += number[2] *
             (test.gradient(i, q) * (nonlocal * trial.gradient(j, q)));
      return r * fe.get_JxW_values()[q];
    });
}

// ... at a grain boundary
template <int dim>
double on_the_grain_boundary(Solver<dim> &s, const CellIterator<dim> &cell,
                             const unsigned int face, const unsigned int n_q,
                             const unsigned int i, const unsigned int j)
{
  dealii::hp::FEFaceValues<dim> hp(s.mapping_collection,
                                   s.fe_field->get_fe_collection(),
                                   s.face_quadrature_collection, on_the_face),
    hp_neighbor(s.mapping_collection, s.fe_field->get_fe_collection(),
                s.face_quadrature_collection, on_the_face);
  const auto neighbor = cell->neighbor(face);
  hp.reinit(cell, face);
  hp_neighbor.reinit(neighbor, cell->neighbor_of_neighbor(face));
  const dealii::FEFaceValues<dim> &fe = hp.get_present_fe_values(),
                                  &other = hp_neighbor.get_present_fe_values();
  const unsigned int c = cell->material_id(), d = neighbor->material_id();
  const auto &number =
    s.parameters.dimensionless_form_parameters.dimensionless_numbers;
  const auto &damage_parameters =
    s.parameters.constitutive_laws_parameters.damage_evolution_parameters;
  const unsigned int row = s.fe_field->get_global_component(c, i),
                     column = s.fe_field->get_global_component(c, j);
  const bool opens = s.fe_field->is_decohesion_allowed();
  std::vector<std::shared_ptr<InterfaceQuadraturePointHistory<dim>>> history;
  if (opens)
    history = s.interface_quadrature_point_history.get_data(cell->id(),
                                                            neighbor->id());
  const auto &normals = fe.get_normal_vectors();
  if (row < dim && column < dim)
  {
    if (!opens)
      return 0.0;
    const auto &u = fe[s.fe_field->get_displacement_extractor(c)];
    std::vector<dealii::Tensor<1, dim>> here(n_q), there(n_q);
    u.get_function_values(s.trial_solution, here);
    other[s.fe_field->get_displacement_extractor(d)].get_function_values(
      s.trial_solution, there);
    return number[3] / number[0] * sum(n_q, [&](const unsigned int q)
      {
        const dealii::Tensor<1, dim> opening = there[q] - here[q];
        const dealii::SymmetricTensor<2, dim> cohesion =
          s.cohesive_law->get_jacobian(
            opening, normals[q],
            history[q]->get_max_effective_opening_displacement(),
            history[q]->get_old_effective_opening_displacement(),
            s.discrete_time.get_next_step_size());
        const dealii::SymmetricTensor<2, dim> contact =
          s.contact_law->get_jacobian(opening, normals[q]);
        const double intact =
          s.degradation_function->get_degradation_function_value(
            history[q]->get_damage_variable(),
            damage_parameters.flag_couple_macrotraction_to_damage);
        return u.value(i, q) * ((intact * cohesion + contact) * u.value(j, q)) *
               fe.get_JxW_values()[q];
      });
  }
  if (row < dim || column < dim ||
      s.parameters.boundary_conditions_at_grain_boundaries !=
        Condition::Microtraction)
    return 0.0;
  const unsigned int a = row - dim, b = column - dim;
  const auto &test = fe[s.fe_field->get_slip_extractor(c, a)];
  const auto &trial = fe[s.fe_field->get_slip_extractor(c, b)];
  const auto moduli =
    s.microtraction_law->get_grain_interaction_moduli(c, d, normals);
  return -number[2] * sum(n_q, [&](const unsigned int q)
    {
      const double intact =
        s.degradation_function->get_degradation_function_value(
          opens ? history[q]->get_damage_variable() : 0.0,
          damage_parameters.flag_couple_microtraction_to_damage);
      return test.value(i, q) * intact *
             s.microtraction_law->get_intra_gateaux_derivative(q, moduli)[a][b] *
             trial.value(j, q) * fe.get_JxW_values()[q];
    });
}

template <int dim>
void tangent(const bool microtraction, const bool decohesion)
{
  Solver<dim> &s = polycrystal<dim>(microtraction, decohesion);
  const CellIterator<dim> cell = a_cell<dim>();
  const unsigned int n_marks = s.cell_is_at_grain_boundary.size();
  require(cell->active_cell_index() < n_marks);
  require(marked<dim>(cell) ==
          (s.cell_is_at_grain_boundary(cell->active_cell_index()) != 0.0));
  AssemblyData::Jacobian::Scratch<dim> scratch(
    s.mapping_collection, s.quadrature_collection, s.face_quadrature_collection,
    s.fe_field->get_fe_collection(), in_the_cell, on_the_face,
    s.crystals_data->get_n_slips());
  AssemblyData::Jacobian::Copy copy(
    s.fe_field->get_fe_collection().max_dofs_per_cell());
  const unsigned int i = index("dof", scratch.dofs_per_cell),
                     j = index("other dof", scratch.dofs_per_cell);
  const unsigned int n_q = s.quadrature_collection.max_n_quadrature_points(),
    n_face = s.face_quadrature_collection.max_n_quadrature_points();
  s.assemble_local_jacobian(cell, scratch, copy);
  double expected = in_the_bulk(s, cell, n_q, i, j);
  for (const auto face : cell->face_indices())
    if (!cell->face(face)->at_boundary() &&
        cell->material_id() != cell->neighbor(face)->material_id())
      expected += on_the_grain_boundary(s, cell, face, n_face, i, j);
  ensure_equal("the matrix is the linearization of the residual",
               copy.local_matrix(i, j), expected);
}

CONTRACT(C20_bulk_2d) { tangent<2>(false, false); }
CONTRACT(C20_microtraction_2d) { tangent<2>(true, false); }
CONTRACT(C20_decohesion_2d) { tangent<2>(false, true); }
CONTRACT(C20_both_2d) { tangent<2>(true, true); }
CONTRACT(C20_bulk_3d) { tangent<3>(false, false); }
CONTRACT(C20_both_3d) { tangent<3>(true, true); }
} // namespace contracts
#include "main.h"
