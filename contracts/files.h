// Files of arbitrary content and the triangulations they belong to.
#ifndef VERIFY_FILES_H_
#define VERIFY_FILES_H_
#include <gCP/crystal_data.h>

namespace verify
{
#ifdef VERIFY_SYMBOLIC
template <int dim> const dealii::Triangulation<dim> &crystal_grid();
template <int dim> unsigned int crystals_of(const dealii::Triangulation<dim> &grid);
std::string text_file(const char *role, int dim);         // name without ".txt"
bool exists(const std::string &file);
unsigned int rows(const std::string &file);               // lines before the first blank one
unsigned int columns(const std::string &file, unsigned int row);
double entry(const std::string &file, unsigned int row, unsigned int column);
#else
} // namespace verify
#include "crystals.h"
namespace verify
{
struct File { bool there = true; std::vector<std::vector<double>> v; };
struct Files
{
  std::map<std::string, File> f;
  unsigned int crystals = 0, slips = 0;
  std::vector<std::vector<double>> normals;
  void clear()
  {
    for (auto &x : f) std::remove((x.first + ".txt").c_str());
    f.clear();
  }
  ~Files() { clear(); }
};
inline Files &files() { static Files s; return s; }
inline unsigned int chance(const unsigned int n) { return state().next() % n; }

// a grid of some cells with repeated material ids 0, ..., n-1
template <int dim> const dealii::Triangulation<dim> &crystal_grid()
{
  files().clear();
  const unsigned int n = 1 + chance(3), cells = n + chance(3);
  files().crystals = n;
  remember("n_crystals", n);
  static std::map<std::pair<unsigned int, unsigned int>, std::shared_ptr<dealii::Triangulation<dim>>> grids;
  auto &g = grids[{n, cells}];
  if (!g)
  {
    g = std::make_shared<dealii::Triangulation<dim>>();
    std::vector<unsigned int> rep(dim, 1);
    rep[0] = cells;
    dealii::Point<dim> p, q;
    for (int i = 0; i < dim; ++i) q[i] = 1.;
    dealii::GridGenerator::subdivided_hyper_rectangle(*g, rep, p, q);
    unsigned int i = 0;
    for (const auto &c : g->active_cell_iterators()) c->set_material_id(i++ % n);
  }
  return *g;
}
template <int dim> unsigned int crystals_of(const dealii::Triangulation<dim> &)
{ return files().crystals; }

inline std::string text_file(const char *role, const int dim)
{
  auto &s = state();
  auto &all = files();
  const std::string name = scratch_file(role);
  File f;
  const std::string r = role;
  unsigned int n;
  if (r == "euler")
    n = all.crystals;
  else if (r == "directions")
  {
    n = all.slips = 1 + chance(3);
    all.normals.clear();
  }
  else
    n = all.slips;
  for (unsigned int k = 0; k < n; ++k)
  {
    std::vector<double> v;
    if (r == "euler")
      for (int i = 0; i < (dim == 2 ? 1 : 3); ++i)
        v.push_back(s.mode == 0 ? 360. * s.uniform() - 180. : 15. * (int)chance(25));
    else if (r == "directions")
    {
      int a[3], b[3];
      if (dim == 2) orthogonal_pair<2>(a, b); else orthogonal_pair<3>(a, b);
      // short, long and slightly inclined vectors
      const double p = std::pow(2., (int)chance(60) - 30), q = std::pow(2., (int)chance(60) - 30);
      std::vector<double> w;
      for (int i = 0; i < dim; ++i) { v.push_back(p * a[i]); w.push_back(q * b[i]); }
      if (!chance(8)) w[chance(dim)] += q * std::pow(10., -(int)chance(18));
      if (!chance(25)) for (auto &x : v) x = 0.;
      if (!chance(25)) for (auto &x : w) x = 0.;
      all.normals.push_back(w);
    }
    else
      v = all.normals[k];
    if (!chance(30)) v.push_back(1.);
    if (!chance(30) && v.size() > 1) v.pop_back();
    f.v.push_back(v);
  }
  if (!chance(25)) f.v.push_back(f.v.back());
  if (!chance(25)) f.v.pop_back();
  f.there = chance(40) > 0;
  all.f[name] = f;
  std::remove((name + ".txt").c_str());
  if (f.there)
  {
    std::ofstream o(name + ".txt");
    o << std::setprecision(17);
    for (const auto &l : f.v)
    {
      for (unsigned int i = 0; i < l.size(); ++i) o << (i ? ", " : "") << l[i];
      o << "\n";
    }
    if (!chance(3)) o << (chance(2) ? "   \n" : "\n");
  }
  else
    all.f[name].v.clear();
  for (unsigned int k = 0; k < f.v.size(); ++k)
    for (unsigned int i = 0; i < f.v[k].size(); ++i)
      remember(key(role, k, i, -1), f.v[k][i]);
  return name;
}
inline bool exists(const std::string &n) { return files().f[n].there; }
inline unsigned int rows(const std::string &n) { return files().f[n].v.size(); }
inline unsigned int columns(const std::string &n, const unsigned int r)
{ return files().f[n].v.at(r).size(); }
inline double entry(const std::string &n, const unsigned int r, const unsigned int c)
{ return files().f[n].v.at(r).at(c); }
#endif

template <int dim>
dealii::Tensor<1,dim> row(const std::string &file, const unsigned int k)
{
  dealii::Tensor<1,dim> v;
  for (unsigned int i = 0; i < dim; ++i) v[i] = entry(file, k, i);
  return v;
}
} // namespace verify
#endif
