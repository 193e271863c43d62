// The concrete meaning of solver.h: a solver on a small mesh with random
// values, on which the contracts run with the compiled code.
#ifndef FIXTURE_H_
#define FIXTURE_H_
#ifndef VERIFY_SYMBOLIC

#include "/repo/source/gradient_crystal_plasticity/gradient_crystal_plasticity_solver.cc"
#include "/repo/source/gradient_crystal_plasticity/assembly_data.cc"
#include "/repo/source/gradient_crystal_plasticity/quadrature_point_history.cc"
#include "/repo/source/constitutive_laws.cc"
#include "/repo/source/crystal_data.cc"
#include "/repo/source/postprocessing.cc"
#include "/repo/source/run_time_parameters.cc"
#include "/repo/source/utilities.cc"

#include <deal.II/grid/grid_generator.h>
#include <deal.II/grid/tria.h>

namespace verify
{
using Index = dealii::types::global_dof_index;

struct Fixture
{
  unsigned int n_blocks = 2;
  Index dof[2] = {0, 0};                  // in each block
  Index offset[2] = {0, 0}, size[2] = {0, 0};   // they differ
  const Constraints *held = nullptr;      // of the Newton updates
  unsigned int n_evaluations = 0;
};

inline Fixture &fixture() { static Fixture f; return f; }

inline void blocks(const unsigned int n) { fixture().n_blocks = n; }
inline double at(const Vectors &v, const unsigned int b)
{ return v.block(b)(fixture().dof[b]); }
inline double at(const Vector &v) { return v(fixture().dof[0]); }
inline Index global(const unsigned int b)
{ return fixture().offset[b] + fixture().dof[b]; }
inline bool constrained(const Constraints &c, const unsigned int b)
{ return c.is_constrained(global(b)); }
inline double prescribed(const Constraints &c, const unsigned int b)
{ return c.get_inhomogeneity(global(b)); }
inline bool contains(const dealii::IndexSet &s)
{ return s.is_element(global(0)); }
inline dealii::IndexSet arbitrary_set() { return {}; }
inline Index arbitrary_dof() { return global(0); }
inline double arbitrary() { return draw(); }
inline double norm(const Vector &v) { return v.l2_norm(); }
inline unsigned int n_entries(const dealii::TableHandler &table, const char *column)
{ return table.columns.at(column).entries.size(); }
inline void lax() {}
inline void pointwise() {}
inline void last_iterations(unsigned int) {}
inline bool local_flag(const char *) { return false; }
template <class F> void abstract(const char *, unsigned int, F) {}
template <class F> void invariant(const char *, unsigned int, const char *, F)
{}

inline bool same(const Vectors &a, const Vectors &b)
{
  if (a.size() != b.size() || a.n_blocks() != b.n_blocks())
    return false;
  for (unsigned int k = 0; k < a.n_blocks(); ++k)
    for (const auto i : a.block(k).locally_owned_elements())
      if (!(std::fabs(a.block(k)(i) - b.block(k)(i)) <=
            1e-9 * (1.0 + std::fabs(a.block(k)(i)))))
        return false;
  return true;
}

inline void ensure_same(const char *name, const Vectors &a, const Vectors &b)
{ ensure(name, same(a, b)); }

// some value that only depends on the name and the degree of freedom
inline double chosen(const std::string &name, const Index i, const double lo,
                     const double hi)
{
  const std::uint64_t h = std::hash<std::string>()(name) * 31 + i * 2654435761u;
  return lo + (hi - lo) * ((h ^ (h >> 17)) % 10007) / 10006.0;
}

inline double stiffness(const Index i) { return chosen("stiffness", i, 0.5, 3.0); }

// ... a monotone equation of each degree of freedom, coupled with another
// one; those without a Newton update have none
inline void function_of(const char *name, Vectors &r, const Vectors &a,
                        const Vectors &s)
{
  // the load step is given up
  AssertThrow(fixture().n_evaluations++ < 500, dealii::ExcInternalError());
  const Index n = a.size();
  Vectors w = r;
  for (Index g = 0; g < n; ++g)
  {
    const double x = 0.5 * (a(g) + s(g)), y = a((g + n / 2) % n);
    double v = chosen(name, g, -1.0, 1.0);
    if (std::string(name) == "residual")
      v = fixture().held->is_constrained(g) ? 0.0 :
          stiffness(g) * (v - x - 0.3 * std::sin(3.0 * x)) - 0.02 * y;
    else
      v += x + 0.1 * y;
    w(g) = v;
  }
  w.compress(dealii::VectorOperation::insert);
  r = w;
}

inline void function_of(const char *, Matrices &m, const Vectors &a,
                        const Vectors &s)
{
  const unsigned int n = m.n_block_rows();
  for (unsigned int p = 0; p < n; ++p)
    for (unsigned int q = 0; q < n; ++q)
      for (Index i = 0; i < std::min(m.block(p, q).m(), m.block(p, q).n()); ++i)
      {
        const Index g = i + (p == 0 ? 0 : m.block(0, 0).m());
        const double x = 0.5 * (a(g) + s(g));
        m.block(p, q).set(i, i, p == q ?
          stiffness(g) * (1.0 + 0.9 * std::cos(3.0 * x)) : 0.02);
      }
  m.compress(dealii::VectorOperation::insert);
}

inline double function_of(const char *, const Vectors &v) { return v.l2_norm(); }

// the matrices are diagonal
inline double diagonal(const Matrix &m, const Index i)
{ return i < std::min(m.m(), m.n()) ? m.el(i, i) : 0.0; }

inline double solution(const Matrix &m, const Vector &b)
{
  const Index i = fixture().dof[m.m() == fixture().size[0] ? 0 : 1];
  return b(i) / diagonal(m, i);
}

inline double schur_solution(const Matrix &d, const Matrix &e, const Matrix &f,
                             const Matrix &g, const Vector &b)
{
  const Index i = fixture().dof[0];
  const double x = i < g.m() ?
    diagonal(e, i) * diagonal(f, i) / diagonal(g, i) : 0.0;
  return b(i) / (diagonal(d, i) - x);
}

// -------------------------------------------------------------- the solver
template <int dim>
struct World
{
  gCP::RunTimeParameters::SolverParameters parameters;
  dealii::DiscreteTime time{0.0, 1e6, 1.0};
  dealii::Triangulation<dim> triangulation;
  std::shared_ptr<gCP::FEField<dim>> field;
  std::shared_ptr<gCP::CrystalsData<dim>> crystals;
  std::shared_ptr<dealii::ConditionalOStream> out;
  std::shared_ptr<dealii::TimerOutput> timer;
  std::unique_ptr<gCP::GradientCrystalPlasticitySolver<dim>> solver;

  World(const bool single)
  {
    std::vector<unsigned int> cells(dim, 1);
    cells[0] = 2;
    dealii::Point<dim> a, b;
    for (unsigned int d = 0; d < dim; ++d)
      b[d] = 1.0;
    dealii::GridGenerator::subdivided_hyper_rectangle(triangulation, cells, a,
                                                      b);
    crystals = std::make_shared<gCP::CrystalsData<dim>>();
    crystals->n_crystals = 2;
    crystals->n_slips = 2;
    crystals->flag_init_was_called = true;
    field = std::make_shared<gCP::FEField<dim>>(triangulation, 1, 1, false,
                                                single);
    unsigned int n = 0;
    for (const auto &cell : triangulation.active_cell_iterators())
      cell->set_material_id(n++);
    for (const auto &cell : field->get_dof_handler().active_cell_iterators())
      cell->set_active_fe_index(cell->material_id());
    field->setup_extractors(2, 2);
    field->setup_dofs();
    field->setup_vectors();
    field->flag_affine_constraints_were_set = true;
    field->flag_newton_method_constraints_were_set = true;
    parameters.verbose = false;
    parameters.flag_output_debug_fields = false;
    parameters.logger_output_directory = "./";
    out = std::make_shared<dealii::ConditionalOStream>(std::cout, false);
    timer = std::make_shared<dealii::TimerOutput>(
      *out, dealii::TimerOutput::never, dealii::TimerOutput::wall_times);
    solver = std::make_unique<gCP::GradientCrystalPlasticitySolver<dim>>(
      parameters, time, field, crystals, nullptr, out, timer);
    auto &s = *solver;
    s.nonlinear_solver_logger.pcout.set_condition(false);
    s.trial_microstress = std::make_shared<gCP::FEField<dim>>(*field);
    s.trial_microstress->setup_vectors();
    s.trial_microstress_right_hand_side.reinit(field->distributed_vector);
    s.trial_microstress_lumped_matrix.reinit(field->distributed_vector);
    s.slip_resistance.reinit(field->distributed_vector);
    s.tmp_slip_resistance.reinit(field->distributed_vector);
    s.residual.reinit(field->distributed_vector);
    for (auto *v : {&s.trial_solution, &s.initial_trial_solution,
                    &s.tmp_trial_solution, &s.newton_update})
      v->reinit(field->solution);
    dealii::TrilinosWrappers::BlockSparsityPattern pattern(
      field->get_locally_owned_dofs_per_block(),
      field->get_locally_owned_dofs_per_block(),
      field->get_locally_relevant_dofs_per_block(), MPI_COMM_WORLD);
    const Index n_macro = field->get_locally_owned_dofs_per_block()[0].size(),
                n_all = field->n_dofs();
    for (Index i = 0; i < n_all; ++i)
    {
      const Index k = i < n_macro ? i : i - n_macro;
      pattern.add(i, i);
      if (i < n_macro ? n_macro + k < n_all : k < n_macro)
        pattern.add(i, i < n_macro ? n_macro + k : k);
    }
    pattern.compress();
    s.jacobian.reinit(pattern);
    s.init_dof_to_info_map();
  }
};

inline bool often(const double p) { return state().uniform() < p; }

template <class V> void fill(V &v)
{
  Vectors w = v;
  for (Index i = 0; i < w.size(); ++i)
    w(i) = draw();
  w.compress(dealii::VectorOperation::insert);
  v = w;
}

inline void fill(gCP::RunTimeParameters::KrylovParameters &k)
{
  using Type = gCP::RunTimeParameters::SolverType;
  k.solver_type = often(0.4) ? Type::DirectSolver : often(0.5) ? Type::CG :
                  Type::GMRES;
  k.relative_tolerance = 1e-12;
  k.absolute_tolerance = 1e-14;
  k.n_max_iterations = 100;
}

inline void fill(gCP::RunTimeParameters::NonlinearSystemSolverParameters &p)
{
  fill(p.krylov_parameters);
  p.newton_parameters.absolute_tolerance = often(0.2) ? 1e-1 : 1e-7;
  p.newton_parameters.relative_tolerance = 1e-7;
  p.newton_parameters.n_max_iterations = 60;
  p.newton_parameters.flag_line_search = often(0.8);
  p.line_search_parameters.n_max_iterations = 15;
}

template <int dim>
gCP::GradientCrystalPlasticitySolver<dim> &solver_of(const unsigned int n)
{
  static std::unique_ptr<World<dim>> &world =
    *new std::unique_ptr<World<dim>>[3]();
  auto &w = (&world)[n];
  if (!w)
    w = std::make_unique<World<dim>>(n == 1);
  auto &s = *w->solver;
  auto &f = *w->field;
  // a random load step
  auto &p = w->parameters;
  p.extrapolation_factor = state().uniform();
  p.flag_skip_extrapolation = often(0.2);
  fill(p.monolithic_algorithm_parameters.monolithic_system_solver_parameters);
  auto &g = p.staggered_algorithm_parameters;
  fill(g.linear_momentum_solver_parameters);
  fill(g.pseudo_balance_solver_parameters);
  g.max_n_solution_loops = 60;
  g.flag_reset_trial_solution_at_micro_loop = often(0.5);
  auto &law = p.constitutive_laws_parameters;
  law.scalar_microstress_law_parameters.flag_rate_independent = often(0.5);
  law.hardening_law_parameters.flag_perfect_plasticity = often(0.3);
  law.hardening_law_parameters.initial_slip_resistance = state().uniform();
  law.hardening_law_parameters.linear_hardening_modulus = state().uniform();
  law.hardening_law_parameters.hardening_parameter = state().uniform();
  p.dimensionless_form_parameters.characteristic_quantities.slip_resistance =
    0.5 + state().uniform();
  w->time = dealii::DiscreteTime(0.0, 1e6, 0.1 + state().uniform());
  for (unsigned int k = state().next() % 3; k > 0; --k)
  {
    w->time.advance_time();
    w->time.set_desired_next_step_size(0.1 + state().uniform());
  }
  // prescribed values
  auto &c = f.affine_constraints, &m = f.newton_method_constraints;
  const bool values = often(0.8);
  c.clear();
  m.clear();
  c.reinit(f.locally_relevant_dofs);
  m.reinit(f.locally_relevant_dofs);
  for (Index i = 0; i < f.n_dofs(); ++i)
    if (often(0.25))
    {
      c.add_line(i);
      m.add_line(i);
      if (values)
        c.set_inhomogeneity(i, draw());
    }
  c.close();
  m.close();
  s.internal_newton_method_constraints.copy_from(m);
  // vectors
  for (auto *v : {&f.solution, &f.old_solution, &f.old_old_solution,
                  &s.trial_solution, &s.initial_trial_solution,
                  &s.tmp_trial_solution, &s.newton_update, &s.residual,
                  &s.trial_microstress_right_hand_side,
                  &s.trial_microstress_lumped_matrix, &s.slip_resistance,
                  &s.tmp_slip_resistance, &s.trial_microstress->solution})
    fill(*v);
  for (auto *v : {&s.trial_microstress_lumped_matrix, &s.slip_resistance,
                  &s.tmp_slip_resistance})
    for (Index i = 0; i < f.n_dofs(); ++i)
      (*v)(i) = 0.1 + state().uniform();
  for (auto *set : {&s.locally_owned_active_set, &s.locally_owned_inactive_set})
  {
    set->clear();
    set->set_size(f.n_dofs());
    for (const auto i : f.locally_owned_plastic_slip_dofs)
      if (often(0.5))
        set->add_index(i);
  }
  auto &fix = fixture();
  fix.n_evaluations = 0;
  fix.held = &s.internal_newton_method_constraints;
  function_of("jacobian", s.jacobian, s.trial_solution, s.tmp_trial_solution);
  fix.offset[0] = 0;
  for (unsigned int b = 0; b < n; ++b)
  {
    const Index size = s.residual.block(b).size();
    fix.size[b] = size;
    if (b == 0)
      fix.offset[1] = size;
    fix.dof[b] = state().next() % size;
    remember("degree of freedom " + std::to_string(b), fix.dof[b]);
  }
  return s;
}
} // namespace verify
#endif
#endif
