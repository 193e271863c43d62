// Contracts on CrystalsData (C12): reading, rejecting, rotating the slip systems.
#include "verify.h"

#include "/repo/source/crystal_data.cc"
#define VERIFY_WITH_MPI
#include "files.h"

namespace contracts
{
using namespace verify;
using namespace gCP;

template <int dim>
struct Input
{
  const dealii::Triangulation<dim> &grid;
  const std::string                 euler, directions, normals;
  unsigned int                      n_angles() const { return dim == 2 ? 1 : 3; }
  void read(CrystalsData<dim> &data) const
  { data.init(grid, euler, directions, normals); }
  dealii::Tensor<1,dim> direction(const unsigned int k) const
  { return row<dim>(directions, k); }
  dealii::Tensor<1,dim> normal(const unsigned int k) const
  { return row<dim>(normals, k); }
};

template <int dim>
Input<dim> input()
{
  return {crystal_grid<dim>(), text_file("euler", dim), text_file("directions", dim), text_file("normals", dim)};
}

double degrees(const double angle) { return angle * (M_PI / 180.0); }

// plane rotation by an angle; about the k-th axis in three dimensions
template <int dim>
dealii::Tensor<2,dim> rotation(const double t, const unsigned int axis = 2)
{
  dealii::Tensor<2,dim> r;
  for (unsigned int i = 0; i < dim; ++i) r[i][i] = 1.0;
  const unsigned int a = (axis + 1) % 3, b = (axis + 2) % 3;
  r[a][a] = std::cos(t); r[a][b] = -std::sin(t);
  r[b][a] = std::sin(t); r[b][b] = std::cos(t);
  return r;
}

// the z-x-z Euler angles in three dimensions, one angle in two
template <int dim>
dealii::Tensor<2,dim> orientation(const std::string &euler, const unsigned int c)
{
  if constexpr (dim == 2)
    return rotation<2>(degrees(entry(euler, c, 0)));
  else
    return rotation<3>(degrees(entry(euler, c, 0)), 2) *
           rotation<3>(degrees(entry(euler, c, 1)), 0) *
           rotation<3>(degrees(entry(euler, c, 2)), 2);
}

template <int dim>
void rotation_tensor(const char *name, const dealii::Tensor<2,dim> &r)
{
  for (unsigned int i = 0; i < dim; ++i)
    for (unsigned int j = i; j < dim; ++j)
    {
      double p = 0;
      for (unsigned int k = 0; k < dim; ++k) p += r[k][i] * r[k][j];
      ensure_equal(name, p, i == j ? 1.0 : 0.0);
    }
  ensure_equal(name, dealii::determinant(r), 1.0);
}

template <int dim>
void geometry(const Input<dim> &in, const CrystalsData<dim> &data, const unsigned int c, const unsigned int s)
{
  const dealii::Tensor<2,dim> R = data.get_rotation_tensor(c);
  ensure_equal("the rotation tensor follows from the Euler angles", R, orientation<dim>(in.euler, c));
  rotation_tensor("the rotation tensor is a rotation", R);
  const dealii::Tensor<2,3> Q = data.get_3d_rotation_tensor(c);
  rotation_tensor("the three-dimensional rotation tensor is a rotation", Q);
  for (unsigned int i = 0; i < dim; ++i)
    for (unsigned int j = 0; j < dim; ++j)
      ensure_equal("both rotation tensors agree", Q[i][j], R[i][j]);

  const dealii::Tensor<1,dim> d = data.get_slip_direction(c, s), n = data.get_slip_normal(c, s),
                              o = data.get_slip_orthogonal(c, s);
  ensure_equal("slip directions have unit length", d.norm_square(), 1.0);
  ensure_equal("slip normals have unit length", n.norm_square(), 1.0);
  const dealii::Tensor<1,dim> a = row<dim>(in.directions, s), b = row<dim>(in.normals, s);
  lemma("the vectors of the file are nonzero", a.norm() > 0 && b.norm() > 0);
  ensure_equal("slip directions are the rotated directions of the file", d, R * (a / a.norm()));
  ensure_equal("slip normals are the rotated normals of the file", n, R * (b / b.norm()));
  lemma_equal_("rotations preserve scalar products", (d * n) * (a.norm() * b.norm()), a * b, a.norm() * b.norm());
  lemma("nearly orthogonal vectors of the file", std::fabs(a * b) <= __DBL_EPSILON__ * (a.norm() * b.norm()));
  ensure_le("slip directions and normals are orthogonal", std::fabs(d * n), 4 * __DBL_EPSILON__);
  if constexpr (dim == 2)
    ensure_equal("there is no third direction in two dimensions", o.norm_square(), 0.0);
  else
    {
      ensure_equal("the third direction has unit length", o.norm_square(), 1.0);
      ensure_equal("the third direction is orthogonal to the normal", o * n, 0.0);
      ensure_equal("the third direction is orthogonal to the slip direction", o * d, 0.0);
      const dealii::Tensor<1,dim> t = dealii::cross_product_3d(b, a);
      ensure_equal("the third direction is the rotated cross product of normal and direction", o * t.norm(), R * t, t.norm());
    }
  const dealii::Tensor<2,dim> m = data.get_schmid_tensor(c, s);
  const dealii::SymmetricTensor<2,dim> p = data.get_symmetrized_schmid_tensor(c, s);
  for (unsigned int i = 0; i < dim; ++i)
    for (unsigned int j = 0; j < dim; ++j)
    {
      ensure_equal("the Schmid tensor is the dyad of slip direction and normal", m[i][j], d[i] * n[j]);
      ensure_equal("the symmetrized Schmid tensor is its symmetric part", p[i][j], 0.5 * (d[i] * n[j] + d[j] * n[i]));
    }
  ensure("all observers agree on the number of slip systems",
         data.get_slip_directions(c).size() == data.get_n_slips() && data.get_slip_normals(c).size() == data.get_n_slips() &&
         data.get_symmetrized_schmid_tensors(c).size() == data.get_n_slips());
  ensure_equal("the vector of slip directions agrees", data.get_slip_directions(c)[s], d);
  ensure_equal("the vector of slip normals agrees", data.get_slip_normals(c)[s], n);
  ensure_equal("the vector of Schmid tensors agrees", data.get_symmetrized_schmid_tensors(c)[s], p);
}

// whatever the files say: an accepted input results in orthonormal slip systems
template <int dim>
void accepted()
{
  const Input<dim> in = input<dim>();
  CrystalsData<dim> data;
  if (throws([&]() { in.read(data); }))
    return;
  ensure("an accepted input marks the object as initialized", data.is_initialized());
  ensure("every file exists", exists(in.euler) && exists(in.directions) && exists(in.normals));
  ensure("there is one orientation per crystal", rows(in.euler) == crystals_of<dim>(in.grid));
  ensure("the crystals are those of the triangulation", data.get_n_crystals() == crystals_of<dim>(in.grid));
  ensure("there are as many slip directions as slip normals", rows(in.directions) == rows(in.normals));
  ensure("every listed slip system is used", data.get_n_slips() == rows(in.normals));
  const unsigned int c = index("crystal", data.get_n_crystals());
  const unsigned int s = index("slip", data.get_n_slips());
  ensure("an orientation has one angle in two dimensions and three otherwise", columns(in.euler, c) == in.n_angles());
  ensure("vectors have as many components as there are dimensions",
         columns(in.directions, s) == dim && columns(in.normals, s) == dim);
  geometry(in, data, c, s);
}

// well-formed input is accepted
template <int dim>
void well_formed()
{
  const Input<dim> in = input<dim>();
  require(exists(in.euler) && exists(in.directions) && exists(in.normals));
  require(rows(in.euler) == crystals_of<dim>(in.grid));
  require(rows(in.directions) == rows(in.normals));
  require(forall(rows(in.euler), [&](const unsigned int c) { return columns(in.euler, c) == in.n_angles(); }));
  require(forall(rows(in.normals), [&](const unsigned int s)
    { return columns(in.directions, s) == dim && columns(in.normals, s) == dim; }));
  require(forall(rows(in.normals), [&](const unsigned int s)
    { return in.direction(s) * in.normal(s) == 0 && in.direction(s).norm() > 0 && in.normal(s).norm() > 0; }));
  CrystalsData<dim> data;
  ensure("well-formed input is accepted", !throws([&]() { in.read(data); }));
}

// no observer answers before the initialization
template <int dim>
void uninitialized()
{
  const CrystalsData<dim> data;
  const unsigned int c = size("crystal"), s = size("slip");
  ensure("the object says that it is not initialized", !data.is_initialized());
  ensure("the number of crystals is not available", throws([&]() { data.get_n_crystals(); }));
  ensure("the number of slip systems is not available", throws([&]() { data.get_n_slips(); }));
  ensure("no rotation is available", throws([&]() { data.get_rotation_tensor(c); }) &&
                                     throws([&]() { data.get_3d_rotation_tensor(c); }));
  ensure("no slip direction is available", throws([&]() { data.get_slip_direction(c, s); }) &&
                                           throws([&]() { data.get_slip_directions(c); }));
  ensure("no slip normal is available", throws([&]() { data.get_slip_normal(c, s); }) &&
                                        throws([&]() { data.get_slip_normals(c); }));
  ensure("no third direction is available", throws([&]() { data.get_slip_orthogonal(c, s); }));
  ensure("no Schmid tensor is available", throws([&]() { data.get_schmid_tensor(c, s); }) &&
                                          throws([&]() { data.get_symmetrized_schmid_tensor(c, s); }) &&
                                          throws([&]() { data.get_symmetrized_schmid_tensors(c); }));
}

CONTRACT(C12_well_formed_2d) { well_formed<2>(); }
CONTRACT(C12_well_formed_3d) { well_formed<3>(); }
CONTRACT(C12_uninitialized) { uninitialized<2>(); uninitialized<3>(); }
CONTRACT(C12_accepted_2d) { accepted<2>(); }
CONTRACT(C12_accepted_3d) { accepted<3>(); }
} // namespace contracts

#include "main.h"
