// The solver of a load step: an arbitrary solver object, the values of its
// vectors at an arbitrary degree of freedom of each block, and what stands
// for the assembly.
#ifndef SOLVER_H_
#define SOLVER_H_

namespace verify
{
using Vectors = dealii::LinearAlgebraTrilinos::MPI::BlockVector;
using Vector = dealii::LinearAlgebraTrilinos::MPI::Vector;
using Matrices = dealii::LinearAlgebraTrilinos::MPI::BlockSparseMatrix;
using Matrix = dealii::LinearAlgebraTrilinos::MPI::SparseMatrix;
using Constraints = dealii::AffineConstraints<double>;

// the vectors have n blocks                                    [intrinsic]
void blocks(unsigned int n);
// an arbitrary object                                          [intrinsic]
template <class T> T &object(const char *name);
// the value at the arbitrary degree of freedom of block b      [intrinsic]
double at(const Vectors &v, unsigned int b);
double at(const Vector &v);
// whether and to what it is prescribed                         [intrinsic]
bool constrained(const Constraints &c, unsigned int b);
double prescribed(const Constraints &c, unsigned int b);
// result := the named function of whole vectors                [intrinsic]
void function_of(const char *name, Vectors &result, const Vectors &a,
                 const Vectors &b);
void function_of(const char *name, Matrices &result, const Vectors &a,
                 const Vectors &b);
double function_of(const char *name, const Vectors &v);
// the entry of the solution of a linear system                 [intrinsic]
double solution(const Matrix &matrix, const Vector &rhs);
// ... with the matrix d - e g^-1 f                              [intrinsic]
double schur_solution(const Matrix &d, const Matrix &e, const Matrix &f,
                      const Matrix &g, const Vector &rhs);
// equal vectors                                                [intrinsic]
bool same(const Vectors &a, const Vectors &b);
void ensure_same(const char *name, const Vectors &a, const Vectors &b);
// calls of the function with n arguments go to f, which is its contract; the
// contract is proved elsewhere                                 [intrinsic]
template <class F> void abstract(const char *function, unsigned int n, F f);
double arbitrary();
// the Euclidean norm of a vector                               [intrinsic]
double norm(const Vector &v);
// logarithms and quotients are only reported                    [intrinsic]
void lax();
// a loop that ends is described by its last n iterations        [intrinsic]
void last_iterations(unsigned int n);
// ... and has an invariant; the loop is the one at the depth in the function
//                                                              [intrinsic]
template <class F>
void invariant(const char *function, unsigned int depth, const char *name, F f);
bool local_flag(const char *name);
// the number of entries of a column since the start            [intrinsic]
unsigned int n_entries(const dealii::TableHandler &table, const char *column);
// whether the set has the arbitrary degree of freedom           [intrinsic]
bool contains(const dealii::IndexSet &set);
dealii::IndexSet arbitrary_set();
dealii::types::global_dof_index arbitrary_dof();
// loops over degrees of freedom treat each on its own          [intrinsic]
void pointwise();
} // namespace verify

#ifndef VERIFY_SYMBOLIC
namespace verify
{
template <int dim>
gCP::GradientCrystalPlasticitySolver<dim> &solver_of(unsigned int n_blocks);
}
#endif

namespace contracts
{
template <int dim>
using Solver = gCP::GradientCrystalPlasticitySolver<dim>;
using verify::Vectors;

// the trial solution for which the internal variables were computed
inline Vectors &internal_state()
{
  static Vectors state;
  return state;
}

// those for which the residual was assembled
inline Vectors &assembled_solution()
{
  static Vectors solution;
  return solution;
}

inline Vectors &assembled_state()
{
  static Vectors state;
  return state;
}

template <int dim>
void evaluate_residual(Solver<dim> &s)
{
  assembled_solution() = s.trial_solution;
  assembled_state() = internal_state();
  verify::function_of("residual", s.residual, s.trial_solution,
                      internal_state());
}

template <int dim>
Solver<dim> &solver(const unsigned int n_blocks)
{
  verify::blocks(n_blocks);
  verify::last_iterations(1);
#ifdef VERIFY_SYMBOLIC
  Solver<dim> &s = verify::object<Solver<dim>>("solver");
#else
  Solver<dim> &s = verify::solver_of<dim>(n_blocks);
#endif
  s.fe_field->flag_use_single_block = (n_blocks == 1);
  internal_state() = s.tmp_trial_solution;
  evaluate_residual(s);
  return s;
}
} // namespace contracts

namespace gCP
{
// what stands for the assembly
template <int dim>
double GradientCrystalPlasticitySolver<dim>::assemble_residual()
{
  contracts::evaluate_residual(*this);
  return 0.0;
}

template <int dim>
void GradientCrystalPlasticitySolver<dim>::assemble_jacobian()
{
  verify::function_of("jacobian", jacobian, trial_solution,
                      contracts::internal_state());
}

template <int dim>
void GradientCrystalPlasticitySolver<dim>::assemble_linear_system()
{
  assemble_jacobian();
  assemble_residual();
}

template <int dim>
void GradientCrystalPlasticitySolver<dim>::reset_and_update_internal_variables()
{
  contracts::internal_state() = trial_solution;
}

template <int dim>
void GradientCrystalPlasticitySolver<dim>::
assemble_trial_microstress_right_hand_side()
{
  verify::function_of("trial microstress",
                      trial_microstress_right_hand_side, trial_solution,
                      fe_field->old_solution);
}
} // namespace gCP

#include "fixture.h"
#endif
