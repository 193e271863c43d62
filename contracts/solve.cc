// Contracts on the solution of a load step (C15, C17).
#define VERIFY_WITH_MPI
#include "verify.h"

#include "/repo/source/gradient_crystal_plasticity/solve.cc"
#include "/repo/source/gradient_crystal_plasticity/active_set.cc"
#include "/repo/source/gradient_crystal_plasticity/setup.cc"
#include "/repo/source/fe_field.cc"
#include "/repo/source/line_search.cc"
#include "solver.h"

namespace contracts
{
using namespace verify;
using namespace gCP;

// the value of block b after a step of length lambda along the Newton update
template <int dim>
double stepped(const Solver<dim> &s, const Vectors &from, const double lambda,
               const unsigned int b)
{
  const auto &c = s.fe_field->get_affine_constraints();
  return constrained(c, b) ? prescribed(c, b)
                           : at(from, b) + lambda * at(s.newton_update, b);
}

inline BlockIndex index_of(const unsigned int b)
{ return b == 0 ? BlockIndex::Macro : BlockIndex::Micro; }

// ------------------------------------------------------------ trial states
template <int dim>
void update_block(const unsigned int b)
{
  Solver<dim> &s = solver<dim>(2);
  const Vectors trial = s.trial_solution, update = s.newton_update;
  const double lambda = real("relaxation");
  s.update_trial_solution(lambda, index_of(b));
  ensure_equal("the updated block takes the step and the prescribed values",
               at(s.trial_solution, b), stepped(s, trial, lambda, b));
  ensure_equal("the other block is left alone",
               at(s.trial_solution, 1 - b), at(trial, 1 - b));
  ensure_same("the Newton update is left alone", s.newton_update, update);
}

CONTRACT(C17_update_macro_2d) { update_block<2>(0); }
CONTRACT(C17_update_micro_2d) { update_block<2>(1); }
CONTRACT(C17_update_macro_3d) { update_block<3>(0); }
CONTRACT(C17_update_micro_3d) { update_block<3>(1); }

template <int dim>
void update_all()
{
  Solver<dim> &s = solver<dim>(1);
  const Vectors trial = s.trial_solution, update = s.newton_update;
  const double lambda = real("relaxation");
  s.update_trial_solution(lambda);
  ensure_equal("the trial solution takes the step and the prescribed values",
               at(s.trial_solution, 0), stepped(s, trial, lambda, 0));
  ensure_same("the Newton update is left alone", s.newton_update, update);
}

CONTRACT(C17_update_all_2d) { update_all<2>(); }
CONTRACT(C17_update_all_3d) { update_all<3>(); }

template <int dim>
void distribute()
{
  Solver<dim> &s = solver<dim>(2);
  const Vectors trial = s.trial_solution;
  s.distribute_affine_constraints_to_trial_solution();
  const auto &c = s.fe_field->get_affine_constraints();
  for (unsigned int b = 0; b < 2; ++b)
    ensure_equal("the trial solution takes the prescribed values only",
                 at(s.trial_solution, b),
                 constrained(c, b) ? prescribed(c, b) : at(trial, b));
}

CONTRACT(C17_distribute_2d) { distribute<2>(); }
CONTRACT(C17_distribute_3d) { distribute<3>(); }

template <int dim>
void store()
{
  Solver<dim> &s = solver<dim>(2);
  const bool initial = flag("initial");
  const Vectors trial = s.trial_solution;
  const Vectors other = initial ? s.tmp_trial_solution
                                : s.initial_trial_solution;
  s.store_trial_solution(initial);
  ensure_same("the trial solution is stored",
              initial ? s.initial_trial_solution : s.tmp_trial_solution, trial);
  ensure_same("the other stored solution is left alone",
              initial ? s.tmp_trial_solution : s.initial_trial_solution, other);
  ensure_same("the trial solution is left alone", s.trial_solution, trial);
}

CONTRACT(C17_store_2d) { store<2>(); }
CONTRACT(C17_store_3d) { store<3>(); }

template <int dim>
void reset(const unsigned int b)
{
  Solver<dim> &s = solver<dim>(2);
  const bool initial = flag("initial");
  const Vectors trial = s.trial_solution;
  const Vectors stored = initial ? s.initial_trial_solution
                                 : s.tmp_trial_solution;
  s.reset_trial_solution(initial, index_of(b));
  const auto &c = s.fe_field->get_affine_constraints();
  ensure_equal("the reset block is the stored one with the prescribed values",
               at(s.trial_solution, b),
               constrained(c, b) ? prescribed(c, b) : at(stored, b));
  ensure_equal("the other block is left alone",
               at(s.trial_solution, 1 - b), at(trial, 1 - b));
  ensure_same("the stored solution is left alone",
              initial ? s.initial_trial_solution : s.tmp_trial_solution,
              stored);
}

CONTRACT(C17_reset_macro_2d) { reset<2>(0); }
CONTRACT(C17_reset_micro_2d) { reset<2>(1); }
CONTRACT(C17_reset_macro_3d) { reset<3>(0); }
CONTRACT(C17_reset_micro_3d) { reset<3>(1); }

template <int dim>
void extrapolate()
{
  Solver<dim> &s = solver<dim>(2);
  const bool skip = flag("skip");
  const unsigned int n_rows = n_entries(s.table_handler, "LoadStep");
  const Vectors old = s.fe_field->old_solution,
                old_old = s.fe_field->old_old_solution;
  require(s.discrete_time.get_previous_step_size() > 0.0);
  s.extrapolate_initial_trial_solution(skip);
  const double ratio = s.discrete_time.get_step_number() > 0 ?
    s.parameters.extrapolation_factor * s.discrete_time.get_next_step_size() /
    s.discrete_time.get_previous_step_size() : 1.0;
  const auto &h = s.fe_field->get_hanging_node_constraints();
  const auto &c = s.fe_field->get_affine_constraints();
  for (unsigned int b = 0; b < 2; ++b)
  {
    require(!constrained(h, b) && !constrained(c, b));
    ensure_equal("the initial trial solution continues the last two solutions",
                 at(s.trial_solution, b), at(old, b) + (skip ? 0.0 :
                 ratio * (at(old, b) - at(old_old, b))));
  }
  ensure_same("the old solution is left alone", s.fe_field->old_solution, old);
  ensure_same("the older solution is left alone",
              s.fe_field->old_old_solution, old_old);
}

CONTRACT(C17_extrapolate_2d) { extrapolate<2>(); }
CONTRACT(C17_extrapolate_3d) { extrapolate<3>(); }

template <int dim>
void shift()
{
  Solver<dim> &s = solver<dim>(2);
  FEField<dim> &f = *s.fe_field;
  const Vectors now = f.solution, old = f.old_solution;
  f.update_solution_vectors();
  ensure_same("the solution becomes the old one", f.old_solution, now);
  ensure_same("the old solution becomes the older one", f.old_old_solution, old);
  ensure_same("the solution is left alone", f.solution, now);
}

CONTRACT(C17_shift_2d) { shift<2>(); }
CONTRACT(C17_shift_3d) { shift<3>(); }

// ------------------------------------------------------------- line search
// a search may propose any relaxation and accept any step (C01 says which it
// does), but it is asked for each trial step in turn
struct Asked
{
  double objective = 0.0, lambda = 0.0;
  bool accepted = false;
};

inline Asked &asked()
{
  static Asked asked;
  return asked;
}

inline void any_search()
{
  asked() = Asked();
  abstract("gCP::LineSearch::suficient_descent_condition", 2,
           [](const LineSearch &, const double objective, const double lambda)
           {
             asked().objective = objective;
             asked().lambda = lambda;
             asked().accepted = arbitrary() > 0.0;
             return asked().accepted;
           });
  abstract("gCP::LineSearch::get_lambda", 2,
           [](LineSearch &, const double objective, const double lambda)
           {
             ensure("another relaxation is asked for after a refusal",
                    !asked().accepted && objective == asked().objective &&
                    lambda == asked().lambda);
             return arbitrary();
           });
}

// the full step was taken and evaluated
template <int dim>
void take_step(Solver<dim> &s, const Vectors &stored, const double lambda,
               const unsigned int b)
{
  if (replaying())
  {
    s.trial_solution.block(b) = stored.block(b);
    if (s.fe_field->flag_use_single_block)
      s.update_trial_solution(lambda);
    else
      s.update_trial_solution(lambda, index_of(b));
  }
  require(at(s.trial_solution, b) == stepped(s, stored, lambda, b));
  s.reset_and_update_internal_variables();
  s.assemble_residual();
}

template <int dim>
double objective(Solver<dim> &s, const unsigned int b)
{
  const double r = norm(s.residual.block(b));
  return 0.5 * r * r;
}

// the relaxation found by the same search
template <int dim>
double search_again(Solver<dim> &s, const Vectors &stored, const double start,
                    const unsigned int b)
{
  LineSearch search(s.parameters.staggered_algorithm_parameters.
    linear_momentum_solver_parameters.line_search_parameters);
  search.reinit(start);
  double lambda = 1.0;
  take_step(s, stored, lambda, b);
  while (!search.suficient_descent_condition(objective(s, b), lambda))
  {
    lambda = search.get_lambda(objective(s, b), lambda);
    take_step(s, stored, lambda, b);
  }
  return lambda;
}

template <int dim>
void search(const unsigned int n, const unsigned int b)
{
  Solver<dim> &s = solver<dim>(n);
  const Vectors stored = s.tmp_trial_solution;
  any_search();
  take_step(s, stored, 1.0, b);
  const Vectors before = s.trial_solution;
  auto search = std::make_unique<LineSearch>(
    s.parameters.staggered_algorithm_parameters.
      linear_momentum_solver_parameters.line_search_parameters);
  double start = positive("initial_objective");
  if (replaying())
    start *= objective(s, b);
  search->reinit(start);
  const double lambda = n == 1 ? s.line_search_algorithm(search) :
                        s.line_search_algorithm(search, index_of(b));
  ensure_equal("the accepted trial block is the returned step from the stored "
               "one", at(s.trial_solution, b), stepped(s, stored, lambda, b));
  if (n == 2)
    ensure_equal("the other block is left alone",
                 at(s.trial_solution, 1 - b), at(before, 1 - b));
  ensure_same("the internal variables are those of the trial solution",
              internal_state(), s.trial_solution);
  const Vectors residual = s.residual;
  s.assemble_residual();
  ensure_same("the residual is that of the trial solution", s.residual,
              residual);
  if (!replaying())
  {
    const double expected = objective(s, b);
    require(expected >= 0.0);         // a number
    ensure_equal("the search was asked for the objective of the block",
                 asked().objective, expected);
    ensure_equal("the search was asked for the returned step", asked().lambda,
                 lambda);
    ensure("the search accepts the returned step", asked().accepted);
  }
  else
    ensure_equal("the relaxation is that of the search for this block",
                 search_again(s, stored, start, b), lambda);
}

CONTRACT(C17_search_macro_2d) { search<2>(2, 0); }
CONTRACT(C17_search_micro_2d) { search<2>(2, 1); }
CONTRACT(C17_search_macro_3d) { search<3>(2, 0); }
CONTRACT(C17_search_micro_3d) { search<3>(2, 1); }
CONTRACT(C17_search_all_2d) { search<2>(1, 0); }
CONTRACT(C17_search_all_3d) { search<3>(1, 0); }

// ----------------------------------------------------------- Newton update
inline void known(const RunTimeParameters::KrylovParameters &k)
{
  using Type = RunTimeParameters::SolverType;
  require(k.solver_type == Type::DirectSolver || k.solver_type == Type::CG ||
          k.solver_type == Type::GMRES);
}

template <int dim>
void newton(const unsigned int b)
{
  Solver<dim> &s = solver<dim>(2);
  const Vectors trial = s.trial_solution, residual = s.residual;
  const auto &p = s.parameters.staggered_algorithm_parameters;
  known(b == 0 ? p.linear_momentum_solver_parameters.krylov_parameters :
                 p.pseudo_balance_solver_parameters.krylov_parameters);
  s.solve_decoupled_linearized_subsystem(index_of(b));
  const auto &c = s.internal_newton_method_constraints;
  ensure_equal("the update of the block solves its linearized equation",
               at(s.newton_update, b),
               constrained(c, b) ? prescribed(c, b) :
               solution(s.jacobian.block(b, b), residual.block(b)));
  ensure_equal("the update of the other block vanishes",
               at(s.newton_update, 1 - b), 0.0);
  ensure_same("the residual is left alone", s.residual, residual);
  ensure_same("the trial solution is left alone", s.trial_solution, trial);
}

CONTRACT(C17_newton_macro_2d) { newton<2>(0); }
CONTRACT(C17_newton_micro_2d) { newton<2>(1); }
CONTRACT(C17_newton_macro_3d) { newton<3>(0); }
CONTRACT(C17_newton_micro_3d) { newton<3>(1); }

template <int dim>
void newton_all()
{
  Solver<dim> &s = solver<dim>(1);
  const Vectors trial = s.trial_solution, residual = s.residual;
  known(s.parameters.monolithic_algorithm_parameters.
          monolithic_system_solver_parameters.krylov_parameters);
  s.solve_linearized_system();
  const auto &c = s.internal_newton_method_constraints;
  ensure_equal("the update solves the linearized equations",
               at(s.newton_update, 0),
               constrained(c, 0) ? prescribed(c, 0) :
               solution(s.jacobian.block(0, 0), residual.block(0)));
  ensure_same("the residual is left alone", s.residual, residual);
  ensure_same("the trial solution is left alone", s.trial_solution, trial);
}

CONTRACT(C17_newton_all_2d) { newton_all<2>(); }
CONTRACT(C17_newton_all_3d) { newton_all<3>(); }

// the Schur complement D - E G^-1 F of the Jacobian | D E | F G |
template <int dim>
void newton_reduced()
{
  Solver<dim> &s = solver<dim>(2);
  const Vectors trial = s.trial_solution, residual = s.residual;
  s.solve_reduced_linearized_system();
  const auto &c = s.internal_newton_method_constraints;
  const double x = schur_solution(s.jacobian.block(0, 0),
    s.jacobian.block(0, 1), s.jacobian.block(1, 0), s.jacobian.block(1, 1),
    residual.block(0));
  ensure_equal("the macroscopic update solves the reduced equations",
               at(s.newton_update, 0),
               constrained(c, 0) ? prescribed(c, 0) : x);
  ensure_equal("the update of the other block vanishes",
               at(s.newton_update, 1), 0.0);
  ensure_same("the residual is left alone", s.residual, residual);
  ensure_same("the trial solution is left alone", s.trial_solution, trial);
}

CONTRACT(C17_newton_reduced_2d) { newton_reduced<2>(); }
CONTRACT(C17_newton_reduced_3d) { newton_reduced<3>(); }

// ------------------------------------------------------------------- norms
template <int dim>
void norms()
{
  Solver<dim> &s = solver<dim>(2);
  const dealii::Vector<double> n = s.fe_field->get_sub_l2_norms(s.residual);
  ensure("there are two norms", n.size() == 2);
  for (unsigned int b = 0; b < 2; ++b)
  {
    const double expected = norm(s.residual.block(b));
    require(expected >= 0.0);
    ensure_equal("each norm is that of its block", n[b], expected);
  }
}

CONTRACT(C17_norms_2d) { norms<2>(); }
CONTRACT(C17_norms_3d) { norms<3>(); }

// ------------------------------------------------------ accepted load steps
// What the functions called by the algorithms do, as proved by C17
template <int dim>
void search_from_full_step(Solver<dim> &s, const unsigned int b)
{
  ensure("a search starts from the full step",
         at(s.trial_solution, b) == stepped(s, s.tmp_trial_solution, 1.0, b));
  ensure_same("a search starts with the internal variables of the trial "
              "solution", internal_state(), s.trial_solution);
  s.reset_trial_solution(false, index_of(b));
  s.update_trial_solution(arbitrary(), index_of(b));
  s.reset_and_update_internal_variables();
  s.assemble_residual();
}

template <int dim>
void newton_step(Solver<dim> &s)
{
  function_of("update", s.newton_update, s.trial_solution, s.residual);
  s.internal_newton_method_constraints.distribute(s.newton_update);
}

template <int dim>
void modular()
{
  lax();
  abstract("gCP::GradientCrystalPlasticitySolver::debug_output", 0,
           [](Solver<dim> &) {});
  abstract("gCP::FEField::get_sub_l2_norms", 2,
           [](const FEField<dim> &, const Vectors &v, const double)
           { dealii::Vector<double> r(2);
             r[0] = function_of("macroscopic norm", v);
             r[1] = function_of("microscopic norm", v);
             return r; });
  abstract("gCP::GradientCrystalPlasticitySolver::line_search_algorithm", 1,
           [](Solver<dim> &s, const std::unique_ptr<LineSearch> &)
           { search_from_full_step(s, 0); return arbitrary(); });
  abstract("gCP::GradientCrystalPlasticitySolver::line_search_algorithm", 2,
           [](Solver<dim> &s, const std::unique_ptr<LineSearch> &,
              const BlockIndex b)
           { search_from_full_step(s, static_cast<unsigned int>(b));
             return arbitrary(); });
  abstract("gCP::GradientCrystalPlasticitySolver::solve_linearized_system", 0,
           [](Solver<dim> &s) { newton_step(s); return 0u; });
  abstract("gCP::GradientCrystalPlasticitySolver::"
           "solve_reduced_linearized_system", 0,
           [](Solver<dim> &s) { newton_step(s); return 0u; });
  abstract("gCP::GradientCrystalPlasticitySolver::"
           "solve_decoupled_linearized_subsystem", 1,
           [](Solver<dim> &s, const BlockIndex)
           { newton_step(s); return 0u; });
}

template <int dim>
void is_accepted(Solver<dim> &s, const unsigned int n_blocks)
{
  const auto &c = s.fe_field->get_affine_constraints();
  for (unsigned int b = 0; b < n_blocks; ++b)
    ensure("the accepted solution takes the prescribed values",
           !constrained(c, b) ||
           at(s.trial_solution, b) == prescribed(c, b));
  ensure_same("the internal variables are those of the accepted solution",
              internal_state(), s.trial_solution);
  ensure_same("the residual is that of the accepted solution",
              assembled_solution(), s.trial_solution);
  ensure_same("the residual is that of its internal variables",
              assembled_state(), s.trial_solution);
  Vectors residual = s.residual;
  function_of("residual", residual, assembled_solution(), assembled_state());
  ensure_same("the assembled residual is left alone", s.residual, residual);
}

template <int dim>
bool slip_dof(const Solver<dim> &s)
{ return contains(s.fe_field->get_locally_owned_plastic_slip_dofs()); }

// a degree of freedom without plastic flow keeps its value
template <int dim>
bool holds_inactive(const Solver<dim> &s)
{
  const bool inactive = slip_dof(s) &&
                        !contains(s.locally_owned_active_set) &&
                        !constrained(s.fe_field->get_affine_constraints(), 0);
  const auto &c = s.internal_newton_method_constraints;
  return contains(s.locally_owned_inactive_set) == inactive &&
         (!inactive || (constrained(c, 0) && prescribed(c, 0) == 0.0 &&
          at(s.trial_solution, 0) == at(s.fe_field->old_solution, 0)));
}

// some unprescribed slips flow and the others are held (which, is C18)
template <int dim>
void any_active_set(Solver<dim> &s)
{
  const dealii::IndexSet flows = arbitrary_set();
  dealii::AffineConstraints<double> held;
  s.locally_owned_active_set.clear();
  for (const auto dof : s.fe_field->get_locally_owned_plastic_slip_dofs())
  {
    if (flows.is_element(dof) &&
        !s.fe_field->get_affine_constraints().is_constrained(dof))
      s.locally_owned_active_set.add_index(dof);
    if (!s.locally_owned_active_set.is_element(dof))
      held.add_line(dof);
  }
  s.internal_newton_method_constraints.merge(
    held, dealii::AffineConstraints<double>::right_object_wins);
}

template <int dim>
void monolithic()
{
  Solver<dim> &s = solver<dim>(1);
  modular<dim>();
  abstract("gCP::GradientCrystalPlasticitySolver::determine_active_set", 0,
           [](Solver<dim> &s) { any_active_set(s); });
  pointwise();
  const bool rate_independent = s.parameters.constitutive_laws_parameters.
    scalar_microstress_law_parameters.flag_rate_independent;
  require(!slip_dof(s) || contains(s.fe_field->get_locally_owned_dofs()));
  if (rate_independent)
    invariant("gCP::GradientCrystalPlasticitySolver::monolithic_algorithm", 0,
              "once the active set is known the other slips are kept", [&]
              { return local_flag("flag_compute_active_set") ||
                       holds_inactive(s); });
  const auto &p = s.parameters.monolithic_algorithm_parameters.
    monolithic_system_solver_parameters;
  known(p.krylov_parameters);
  const bool failed = throws([&] { s.monolithic_algorithm(); });
  if (failed)
    return;
  is_accepted<dim>(s, 1);
  ensure("the residual of the accepted solution is below the tolerance",
         s.fe_field->get_sub_l2_norms(s.residual).l2_norm() <
         p.newton_parameters.absolute_tolerance);
  ensure("slips without plastic flow are kept",
         !rate_independent || holds_inactive(s));
}

CONTRACT(C15_monolithic_2d) { monolithic<2>(); }
CONTRACT(C15_monolithic_3d) { monolithic<3>(); }

template <int dim>
void staggered(const bool bouncing)
{
  Solver<dim> &s = solver<dim>(2);
  last_iterations(2);
  modular<dim>();
  require(!s.parameters.constitutive_laws_parameters.
            scalar_microstress_law_parameters.flag_rate_independent);
  const auto &p = s.parameters.staggered_algorithm_parameters;
  known(p.linear_momentum_solver_parameters.krylov_parameters);
  known(p.pseudo_balance_solver_parameters.krylov_parameters);
  const bool failed = throws([&] {
    if (bouncing)
      s.bouncing_algorithm();
    else
      s.embracing_algorihtm(); });
  if (failed)
    return;
  is_accepted<dim>(s, 2);
  const auto norms = s.fe_field->get_sub_l2_norms(s.residual);
  ensure("the macroscopic residual of the accepted solution is below the "
         "tolerance", norms[0] <
         p.linear_momentum_solver_parameters.newton_parameters.
           absolute_tolerance);
  ensure("the microscopic residual of the accepted solution is below the "
         "tolerance", norms[1] <
         p.pseudo_balance_solver_parameters.newton_parameters.
           absolute_tolerance);
}

CONTRACT(C15_bouncing_2d) { staggered<2>(true); }
CONTRACT(C15_bouncing_3d) { staggered<3>(true); }
CONTRACT(C15_embracing_2d) { staggered<2>(false); }
CONTRACT(C15_embracing_3d) { staggered<3>(false); }

// ------------------------------------------------------------ the load step
struct Stages
{
  int n_prepared = 0, n_solved = 0, n_stored = 0;
  bool skipped = false;
};

inline Stages &stages()
{
  static Stages stages;
  return stages;
}

template <int dim>
void load_step(const unsigned int n_blocks)
{
  Solver<dim> &s = solver<dim>(n_blocks);
  lax();
  stages() = Stages();
  require(!replaying());          // the stages are not seen there
  using Algorithm = RunTimeParameters::SolutionAlgorithm;
  const Algorithm algorithm = s.parameters.solution_algorithm;
  require(n_blocks == 1 ? algorithm == Algorithm::Monolithic :
          algorithm == Algorithm::Bouncing ||
          algorithm == Algorithm::Embracing);
  abstract("gCP::GradientCrystalPlasticitySolver::"
           "prepare_quadrature_point_history", 0, [](Solver<dim> &)
           { stages().n_prepared++; });
  abstract("gCP::GradientCrystalPlasticitySolver::"
           "extrapolate_initial_trial_solution", 1,
           [](Solver<dim> &s, const bool skip)
           { stages().skipped = skip;
             function_of("extrapolated", s.trial_solution,
                         s.fe_field->old_solution,
                         s.fe_field->old_old_solution); });
  const auto solve = [](Solver<dim> &s)
  {
    ensure("the internal variables of the last step were stored",
           stages().n_prepared == 1);
    ensure_same("the slip resistances of the last step were stored",
                s.tmp_slip_resistance, s.slip_resistance);
    Vectors expected = s.trial_solution;
    function_of("extrapolated", expected, s.fe_field->old_solution,
                s.fe_field->old_old_solution);
    ensure_same("the solution starts from the extrapolated one",
                s.trial_solution, expected);
    ensure_same("the start is stored", s.initial_trial_solution, expected);
    const auto &i = s.internal_newton_method_constraints;
    const auto &n = s.fe_field->get_newton_method_constraints();
    ensure("the Newton updates start with the constraints of the field",
           constrained(i, 0) == constrained(n, 0) &&
           (!constrained(n, 0) || prescribed(i, 0) == prescribed(n, 0)));
    stages().n_solved++;
    function_of("accepted", s.trial_solution, s.trial_solution,
                s.fe_field->old_solution);
  };
  abstract("gCP::GradientCrystalPlasticitySolver::monolithic_algorithm", 0,
           [solve](Solver<dim> &s)
           { ensure("the monolithic algorithm was asked for",
                    s.parameters.solution_algorithm == Algorithm::Monolithic);
             solve(s); });
  abstract("gCP::GradientCrystalPlasticitySolver::bouncing_algorithm", 0,
           [solve](Solver<dim> &s)
           { ensure("the bouncing algorithm was asked for",
                    s.parameters.solution_algorithm == Algorithm::Bouncing);
             solve(s); });
  abstract("gCP::GradientCrystalPlasticitySolver::embracing_algorihtm", 0,
           [solve](Solver<dim> &s)
           { ensure("the embracing algorithm was asked for",
                    s.parameters.solution_algorithm == Algorithm::Embracing);
             solve(s); });
  abstract("gCP::GradientCrystalPlasticitySolver::"
           "store_effective_opening_displacement_in_quadrature_history", 0,
           [](Solver<dim> &)
           { ensure("openings are stored for the accepted solution",
                    stages().n_solved == 1);
             stages().n_stored++; });
  const bool skip = flag("skip");
  const unsigned int n_rows = n_entries(s.table_handler, "LoadStep");
  const Vectors old = s.fe_field->old_solution;
  s.solve_nonlinear_system(skip);
  ensure("the step is solved once", stages().n_solved == 1);
  ensure("the openings are stored once", stages().n_stored == 1);
  ensure("the step has a row in the statistics",
         n_entries(s.table_handler, "LoadStep") == n_rows + 1);
  ensure("the extrapolation is skipped when it is to be skipped",
         stages().skipped == (skip || s.parameters.flag_skip_extrapolation));
  ensure_same("the solution is the accepted one", s.fe_field->solution,
              s.trial_solution);
  ensure_same("the old solution is left alone", s.fe_field->old_solution, old);
}

CONTRACT(C15_monolithic_step_2d) { load_step<2>(1); }
CONTRACT(C15_monolithic_step_3d) { load_step<3>(1); }
CONTRACT(C15_staggered_step_2d) { load_step<2>(2); }
CONTRACT(C15_staggered_step_3d) { load_step<3>(2); }

// ---------------------------------------------------------- the active set
template <int dim>
Solver<dim> &flowing()
{
  pointwise();
  Solver<dim> &s = solver<dim>(1);
  const auto &slips = s.fe_field->get_locally_owned_plastic_slip_dofs();
  require(contains(s.trial_microstress->get_locally_owned_plastic_slip_dofs())
          == contains(slips));
  require(!contains(slips) || contains(s.fe_field->get_locally_owned_dofs()));
  require(s.crystals_data->flag_init_was_called);
  require(s.crystals_data->get_n_slips() > 0);
  return s;
}

template <int dim>
double yield_stress(const Solver<dim> &s)
{
  const auto &law =
    s.parameters.constitutive_laws_parameters.hardening_law_parameters;
  return law.flag_perfect_plasticity ? law.initial_slip_resistance /
    s.parameters.dimensionless_form_parameters.characteristic_quantities.
      slip_resistance : at(s.slip_resistance, 0);
}

template <int dim>
void active_set()
{
  Solver<dim> &s = flowing<dim>();
  const auto &c = s.fe_field->get_affine_constraints();
  const auto &n = s.fe_field->get_newton_method_constraints();
  require(!constrained(s.trial_microstress->get_hanging_node_constraints(), 0));
  require(!constrained(s.fe_field->get_hanging_node_constraints(), 0));
  require(s.parameters.constitutive_laws_parameters.
            scalar_microstress_law_parameters.flag_rate_independent);
  const Vectors before = s.trial_solution;
  bool compute = true;
  if (throws([&] { s.active_set_algorithm(compute); }))
    return;
  ensure("the active set is known", !compute);
  const double m = at(s.trial_microstress_right_hand_side, 0) /
                   at(s.trial_microstress_lumped_matrix, 0);
  const bool slip = slip_dof(s), held = constrained(c, 0),
             flows = slip && !held && std::abs(m) > yield_stress(s);
  ensure("a slip flows when its microstress exceeds the yield stress",
         contains(s.locally_owned_active_set) == flows);
  ensure("the other unprescribed slips are inactive",
         contains(s.locally_owned_inactive_set) == (slip && !held && !flows));
  ensure_equal("an inactive slip takes its old value", at(s.trial_solution, 0),
               held ? prescribed(c, 0) : slip && !flows ?
               at(s.fe_field->old_solution, 0) : at(before, 0));
  const auto &i = s.internal_newton_method_constraints;
  ensure("a slip that does not flow has no Newton update",
         !slip || flows || (constrained(i, 0) && prescribed(i, 0) == 0.0));
  ensure("the Newton update is not prescribed otherwise",
         (slip && !flows) || constrained(i, 0) == constrained(n, 0));
}

CONTRACT(C18_active_set_2d) { active_set<2>(); }
CONTRACT(C18_active_set_3d) { active_set<3>(); }

// ... is kept until it is asked for again
template <int dim>
void kept_set()
{
  Solver<dim> &s = flowing<dim>();
  const bool independent = s.parameters.constitutive_laws_parameters.
    scalar_microstress_law_parameters.flag_rate_independent;
  const Vectors trial = s.trial_solution;
  const bool active = contains(s.locally_owned_active_set),
             inactive = contains(s.locally_owned_inactive_set);
  bool compute = flag("compute");
  require(!independent || !compute);
  s.active_set_algorithm(compute);
  ensure("every slip flows if the flow is viscous",
         contains(s.locally_owned_active_set) ==
         (independent ? active : slip_dof(s)));
  ensure("the inactive set is kept",
         contains(s.locally_owned_inactive_set) == inactive);
  ensure_same("the trial solution is left alone", s.trial_solution, trial);
}

CONTRACT(C18_kept_set_2d) { kept_set<2>(); }
CONTRACT(C18_kept_set_3d) { kept_set<3>(); }

// the yield stress grows with the slips since the last load step
template <int dim>
void hardening()
{
  Solver<dim> &s = flowing<dim>();
  const unsigned int n_slips = s.fe_field->get_n_slips();
  const Vectors before = s.slip_resistance, stored = s.tmp_slip_resistance;
  const bool active = slip_dof(s) && contains(s.locally_owned_active_set);
  const auto info = s.dof_to_info[arbitrary_dof()];
  require(info.first.size() == n_slips);
  require(s.parameters.dimensionless_form_parameters.
            characteristic_quantities.slip_resistance > 0.0);
  s.reset_and_update_slip_resistances();
  const auto &law =
    s.parameters.constitutive_laws_parameters.hardening_law_parameters;
  const double h = law.linear_hardening_modulus /
    s.parameters.dimensionless_form_parameters.characteristic_quantities.
      slip_resistance, q = law.hardening_parameter;
  double expected = at(stored, 0);
  if (active)
    for (unsigned int k = 0; k < n_slips; ++k)
      expected += h * (k == info.second ? 1.0 : q) *
        std::abs(s.trial_solution(info.first[k]) -
                 s.fe_field->old_solution(info.first[k]));
  ensure_equal("the yield stress is the stored one and what the slips since "
               "harden", at(s.slip_resistance, 0),
               law.flag_perfect_plasticity ? at(before, 0) : expected);
  ensure_same("the stored one is left alone", s.tmp_slip_resistance, stored);
  s.store_slip_resistances();
  ensure_same("the yield stress is stored", s.tmp_slip_resistance,
              s.slip_resistance);
}

CONTRACT(C18_hardening_2d) { hardening<2>(); }
CONTRACT(C18_hardening_3d) { hardening<3>(); }
} // namespace contracts

#include "main.h"
