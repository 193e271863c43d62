// Specification vocabulary of the contract files.
//
// Every contract file is one C++ text that is read twice:
//  * with VERIFY_SYMBOLIC by the extractor: the functions below marked
//    [intrinsic] are given their logical meaning by the verifier
//    (universally quantified inputs, assumptions, proof obligations);
//  * by g++ for the replay on the real compiled code: inputs come from
//    the verifier's counterexample or from a seeded sampler, `require`
//    discards a sample, `ensure` records a failure.
#ifndef VERIFY_H_
#define VERIFY_H_

#include <deal.II/base/tensor.h>
#include <deal.II/base/symmetric_tensor.h>
#include <deal.II/base/exceptions.h>
#include <deal.II/lac/full_matrix.h>
#include <deal.II/lac/vector.h>

#include <cmath>
#include <string>
#include <vector>
#include <memory>

namespace verify
{

// ------------------------------------------------------------ intrinsics
// universally quantified inputs
double   real(const char *name, int i = -1, int j = -1, int k = -1);
double   real_in(const char *name, double lo, double hi);   // lo <= x <= hi
double   positive(const char *name, int i = -1);            // x > 0
bool     flag(const char *name);
int      integer(const char *name, int lo, int hi);         // lo <= n <= hi
unsigned int size(const char *name, unsigned int lo = 0);   // n >= lo, unbounded
unsigned int index(const char *name, unsigned int n);       // 0 <= i < n

// sequences of symbolic length
std::vector<double> reals(const char *name, unsigned int n);
std::vector<std::vector<double>>
table(const char *name, unsigned int n, unsigned int m);
template <int dim>
std::vector<dealii::Tensor<1,dim>> vectors(const char *name, unsigned int n);
template <int dim>
std::vector<dealii::Tensor<1,dim>> unit_vectors(const char *name, unsigned int n);

void require(bool condition);
void ensure(const char *name, bool condition);
void ensure_equal_(const char *name, double a, double b, double scale);
void ensure_le_(const char *name, double a, double b);
void ensure_derivative(const char *name, double a, double b);
// proved, then available to the proofs of what follows
void lemma(const char *name, bool condition);
void lemma_equal_(const char *name, double a, double b, double scale = 1.0);

// true when we are replaying (no obligation depends on it)
bool replaying();
// x0 -> d/dx f(x) at x0
template <class F> auto derivative(F f, double x0) -> decltype(f(x0));
// runs f and tells whether it threw
template <class F> bool throws(F f);
// sum_{k<n} f(k)
template <class F> double sum(unsigned int n, F f);
// for all k<n: f(k)
template <class F> bool forall(unsigned int n, F f);

// ---------------------------------------------------- defined vocabulary
inline void ensure_equal(const char *name, double a, double b, double scale = 1.0)
{ ensure_equal_(name, a, b, scale); }

inline void ensure_le(const char *name, double a, double b)
{ ensure_le_(name, a, b); }

template <int dim>
void ensure_equal(const char *name, const dealii::Tensor<1,dim> a,
                  const dealii::Tensor<1,dim> b, double scale = 1.0)
{
  for (unsigned int i = 0; i < dim; ++i)
    ensure_equal_(name, a[i], b[i], scale);
}

template <int dim>
void ensure_equal(const char *name, const dealii::Tensor<2,dim> a,
                  const dealii::Tensor<2,dim> b, double scale = 1.0)
{
  for (unsigned int i = 0; i < dim; ++i)
    for (unsigned int j = 0; j < dim; ++j)
      ensure_equal_(name, a[i][j], b[i][j], scale);
}

template <int dim>
void ensure_equal(const char *name, const dealii::SymmetricTensor<2,dim> a,
                  const dealii::SymmetricTensor<2,dim> b, double scale = 1.0)
{
  for (unsigned int i = 0; i < dim; ++i)
    for (unsigned int j = i; j < dim; ++j)
      ensure_equal_(name, a[i][j], b[i][j], scale);
}

template <int dim>
void ensure_derivative(const char *name, const dealii::Tensor<1,dim> a,
                       const dealii::Tensor<1,dim> b)
{
  for (unsigned int i = 0; i < dim; ++i)
    ensure_derivative(name, a[i], b[i]);
}

template <int dim>
dealii::Tensor<1,dim> vector(const char *name)
{
  dealii::Tensor<1,dim> v;
  for (unsigned int i = 0; i < dim; ++i)
    v[i] = real(name, i);
  return v;
}

template <int dim>
dealii::Tensor<2,dim> tensor(const char *name)
{
  dealii::Tensor<2,dim> v;
  for (unsigned int i = 0; i < dim; ++i)
    for (unsigned int j = 0; j < dim; ++j)
      v[i][j] = real(name, i, j);
  return v;
}

template <int dim>
dealii::SymmetricTensor<2,dim> symmetric_tensor(const char *name)
{
  dealii::SymmetricTensor<2,dim> v;
  for (unsigned int i = 0; i < dim; ++i)
    for (unsigned int j = i; j < dim; ++j)
      v[i][j] = real(name, i, j);
  return v;
}

// an arbitrary vector of unit length
template <int dim>
dealii::Tensor<1,dim> unit_vector(const char *name);
} // namespace verify

#ifndef VERIFY_SYMBOLIC
#include "replay.h"
#define CONTRACT(name)                                              \
  void name();                                                      \
  static const bool registered_##name = verify::register_contract(#name, &name); \
  void name()
#else
#define CONTRACT(name) void name()
#endif

#endif
