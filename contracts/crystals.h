// An arbitrary, initialized CrystalsData object. The verifier knows only
// the contract of its observers (unit slip directions and normals that are
// orthogonal, Schmid tensors built from them, rotations), which C12 proves
// on the real class; the replay builds a real one through init().
#ifndef VERIFY_CRYSTALS_H_
#define VERIFY_CRYSTALS_H_
#include <gCP/crystal_data.h>

#ifdef VERIFY_SYMBOLIC
namespace verify
{
template <int dim> std::shared_ptr<gCP::CrystalsData<dim>> crystals();
}
#else
#include <deal.II/grid/grid_generator.h>
#include <deal.II/grid/tria.h>
#include <iomanip>

namespace verify
{
// an integer vector pair with scalar product exactly zero
template <int dim>
void orthogonal_pair(int (&a)[3], int (&b)[3])
{
  auto &s = state();
  do
    for (int i = 0; i < 3; ++i)
      a[i] = i < dim ? (int)(s.next() % 5) - 2 : 0;
  while (a[0] == 0 && a[1] == 0 && a[2] == 0);
  if (dim == 2)
  { b[0] = -a[1]; b[1] = a[0]; b[2] = 0; return; }
  do
  {
    int c[3];
    for (int i = 0; i < 3; ++i) c[i] = (int)(s.next() % 5) - 2;
    for (int i = 0; i < 3; ++i)
      b[i] = a[(i + 1) % 3] * c[(i + 2) % 3] - a[(i + 2) % 3] * c[(i + 1) % 3];
  }
  while (b[0] == 0 && b[1] == 0 && b[2] == 0);
}

inline std::string scratch_file(const char *n)
{ return std::string("./in-") + std::to_string(getpid()) + "-" + n; }

template <int dim>
std::shared_ptr<gCP::CrystalsData<dim>>
crystals_from(unsigned int nc, const std::vector<std::vector<double>> &euler,
              const std::vector<std::vector<double>> &directions,
              const std::vector<std::vector<double>> &normals)
{
  auto write = [](const std::string &n, const std::vector<std::vector<double>> &t)
  {
    std::ofstream o(n + ".txt");
    o << std::setprecision(17);
    for (auto &l : t)
    {
      for (unsigned int i = 0; i < l.size(); ++i) o << (i ? ", " : "") << l[i];
      o << "\n";
    }
  };
  const std::string e = scratch_file("euler"), d = scratch_file("directions"), n = scratch_file("normals");
  write(e, euler);
  write(d, directions);
  write(n, normals);
  static std::map<unsigned int, std::shared_ptr<dealii::Triangulation<dim>>> grids;
  if (!grids[nc])
  {
    grids[nc] = std::make_shared<dealii::Triangulation<dim>>();
    std::vector<unsigned int> rep(dim, 1);
    rep[0] = nc;
    dealii::Point<dim> p, q;
    for (int i = 0; i < dim; ++i) q[i] = 1.;
    dealii::GridGenerator::subdivided_hyper_rectangle(*grids[nc], rep, p, q);
    unsigned int i = 0;
    for (const auto &c : grids[nc]->active_cell_iterators()) c->set_material_id(i++);
  }
  auto r = std::make_shared<gCP::CrystalsData<dim>>();
  r->init(*grids[nc], e, d, n);
  for (auto &f : {e, d, n}) std::remove((f + ".txt").c_str());
  return r;
}

template <int dim> std::shared_ptr<gCP::CrystalsData<dim>> crystals()
{
  auto &s = state();
  const unsigned int nc = 2 + s.next() % 2, ns = 1 + s.next() % 3;
  std::vector<std::vector<double>> euler, dir, nor;
  for (unsigned int c = 0; c < nc; ++c)
  {
    std::vector<double> v;
    for (int i = 0; i < (dim == 2 ? 1 : 3); ++i)
      v.push_back(s.mode == 0 ? 360. * s.uniform() - 180. : 15. * (int)(s.next() % 25));
    euler.push_back(v);
  }
  for (unsigned int k = 0; k < ns; ++k)
  {
    int a[3], b[3];
    orthogonal_pair<dim>(a, b);
    dir.push_back(std::vector<double>(a, a + dim));
    nor.push_back(std::vector<double>(b, b + dim));
  }
  remember("n_crystals", nc);
  remember("n_slips", ns);
  for (unsigned int c = 0; c < nc; ++c)
    for (unsigned int i = 0; i < euler[c].size(); ++i)
      remember(key("euler_angle", c, i, -1), euler[c][i]);
  for (unsigned int k = 0; k < ns; ++k)
    for (int i = 0; i < dim; ++i)
    {
      remember(key("reference_slip_direction", k, i, -1), dir[k][i]);
      remember(key("reference_slip_normal", k, i, -1), nor[k][i]);
    }
  return crystals_from<dim>(nc, euler, dir, nor);
}
} // namespace verify
#endif
#endif
