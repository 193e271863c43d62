// Concrete meaning of the specification vocabulary: replay and sampling
// on the real compiled code.
#ifndef VERIFY_REPLAY_H_
#define VERIFY_REPLAY_H_

#include <cfloat>
#include <csignal>
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <unistd.h>

namespace verify
{
struct Rejected {};

struct State
{
  std::map<std::string, void (*)()> contracts;
  std::map<std::string, double> fixed;    // from the counterexample
  bool use_fixed = false;
  std::map<std::string, double> values;   // drawn in this sample
  std::vector<std::string> failures;
  std::map<std::string, long> checked;
  std::uint64_t s = 1;
  int mode = 0;
  std::string current;
  int failure_fd = 2;
  std::uint64_t next()
  {
    s += 0x9E3779B97F4A7C15ull;
    std::uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  double uniform() { return (next() >> 11) * 0x1.0p-53; }
};

inline State &state() { static State *s = new State; return *s; }

inline bool register_contract(const char *n, void (*f)())
{ state().contracts[n] = f; return true; }

inline bool replaying() { return true; }

inline std::string key(const char *n, int i, int j, int k)
{
  std::string s = n;
  if (i >= 0) s += "[" + std::to_string(i) + "]";
  if (j >= 0) s += "[" + std::to_string(j) + "]";
  if (k >= 0) s += "[" + std::to_string(k) + "]";
  return s;
}

inline double remember(const std::string &k, double v)
{ state().values[k] = v; return v; }

inline bool lookup(const std::string &k, double &v)
{
  auto &s = state();
  auto d = s.values.find(k);          // the same name is the same input
  if (d != s.values.end()) { v = d->second; return true; }
  if (!s.use_fixed) return false;
  auto it = s.fixed.find(k);
  if (it == s.fixed.end()) return false;
  v = it->second;
  return true;
}

inline double draw()
{
  auto &s = state();
  static const double nice[] = {0., 1., -1., 0.5, -0.5, 2., -2., 0.25, 3., -3., 0.1};
  const double u = s.uniform();
  switch (s.mode)
  {
    case 0: return (2. * s.uniform() - 1.) * 3.;
    case 1: return u < 0.35 ? nice[s.next() % 11] : (2. * s.uniform() - 1.) * 3.;
    case 2: return u < 0.7 ? nice[s.next() % 11] : (2. * s.uniform() - 1.);
    default:
      return (s.next() & 1 ? 1. : -1.) * std::pow(10., 4. * s.uniform() - 2.5);
  }
}

inline double real(const char *n, int i, int j, int k)
{
  const std::string id = key(n, i, j, k);
  double v;
  if (lookup(id, v)) return remember(id, v);
  return remember(id, draw());
}

inline double real_in(const char *n, double lo, double hi)
{
  double v;
  auto &s = state();
  if (!(lookup(n, v) && v >= lo && v <= hi))
  {
    const double u = s.uniform();
    if (s.mode > 0 && u < 0.1) v = lo;
    else if (s.mode > 0 && u < 0.2) v = hi;
    else v = lo + (hi - lo) * s.uniform();
  }
  return remember(n, v);
}

inline double positive(const char *n, int i)
{
  const std::string id = key(n, i, -1, -1);
  double v;
  if (lookup(id, v) && v > 0) return remember(id, v);
  do v = std::fabs(draw()); while (!(v > 1e-3));
  return remember(id, v);
}

inline bool flag(const char *n)
{
  double v;
  if (!lookup(n, v)) v = state().next() & 1;
  return remember(n, v != 0) != 0;
}

inline int integer(const char *n, int lo, int hi)
{
  double v;
  if (!(lookup(n, v) && v >= lo && v <= hi))
    v = lo + (int)(state().next() % (std::uint64_t)(hi - lo + 1));
  return (int)remember(n, v);
}

inline unsigned int size(const char *n, unsigned int lo)
{
  double v;
  if (!(lookup(n, v) && v >= lo && v <= 12))
    v = lo + state().next() % 4;
  return (unsigned int)remember(n, v);
}

inline unsigned int index(const char *n, unsigned int m)
{
  if (m == 0) throw Rejected();
  double v;
  if (!(lookup(n, v) && v >= 0 && v < m)) v = state().next() % m;
  return (unsigned int)remember(n, v);
}

inline std::vector<double> reals(const char *n, unsigned int m)
{
  std::vector<double> r(m);
  for (unsigned int i = 0; i < m; ++i) r[i] = real(n, i, -1, -1);
  return r;
}

inline std::vector<std::vector<double>>
table(const char *n, unsigned int a, unsigned int b)
{
  std::vector<std::vector<double>> r(a, std::vector<double>(b));
  for (unsigned int i = 0; i < a; ++i)
    for (unsigned int j = 0; j < b; ++j) r[i][j] = real(n, i, j, -1);
  return r;
}

template <int dim>
std::vector<dealii::Tensor<1,dim>> vectors(const char *n, unsigned int m)
{
  std::vector<dealii::Tensor<1,dim>> r(m);
  for (unsigned int i = 0; i < m; ++i)
    for (int d = 0; d < dim; ++d) r[i][d] = real(n, i, d, -1);
  return r;
}

template <int dim>
dealii::Tensor<1,dim> unit_from(dealii::Tensor<1,dim> v)
{
  if (v.norm() < 1e-6) { v = 0.; v[0] = 1.; }
  return v / v.norm();
}

template <int dim>
std::vector<dealii::Tensor<1,dim>> unit_vectors(const char *n, unsigned int m)
{
  auto r = vectors<dim>(n, m);
  for (auto &v : r) v = unit_from<dim>(v);
  return r;
}

template <int dim>
dealii::Tensor<1,dim> unit_vector(const char *n)
{
  return unit_from<dim>(vector<dim>(n));
}

inline void require(bool c) { if (!c) throw Rejected(); }

inline void fail(const std::string &m) { state().failures.push_back(m); }

inline void ensure(const char *n, bool c)
{
  state().checked[n]++;
  if (!c) fail(std::string(n) + ": the condition is false");
}

inline std::string str(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }

inline void ensure_equal_(const char *n, double a, double b, double scale)
{
  state().checked[n]++;
  const double tol = 1e-8 * (std::fabs(scale) + std::fabs(a) + std::fabs(b));
  if (!(std::fabs(a - b) <= tol))
    fail(std::string(n) + ": " + str(a) + " should be " + str(b));
}

inline void lemma(const char *n, bool c) { ensure(n, c); }
inline void lemma_equal_(const char *n, double a, double b, double scale)
{ ensure_equal_(n, a, b, scale); }

inline void ensure_le_(const char *n, double a, double b)
{
  state().checked[n]++;
  const double tol = 1e-9 * (1. + std::fabs(a) + std::fabs(b));
  if (!(a <= b + tol))
    fail(std::string(n) + ": " + str(a) + " should be at most " + str(b));
}

template <class T> double magnitude(const T &t) { return t.norm(); }
inline double magnitude(double t) { return std::fabs(t); }

template <class F> auto derivative(F f, double x0) -> decltype(f(x0))
{
  // Richardson-extrapolated central differences
  const double h = 1e-3 * (1. + std::fabs(x0));
  decltype(f(x0)) d1 = (f(x0 + h) - f(x0 - h)) * (1. / (2. * h));
  decltype(f(x0)) d2 = (f(x0 + h / 2) - f(x0 - h / 2)) * (1. / h);
  decltype(f(x0)) d3 = (f(x0 + h / 4) - f(x0 - h / 4)) * (2. / h);
  decltype(f(x0)) r1 = (4. * d2 - d1) * (1. / 3.);
  decltype(f(x0)) r2 = (4. * d3 - d2) * (1. / 3.);
  decltype(f(x0)) r = (16. * r2 - r1) * (1. / 15.);
  // a sample at which the quotient does not settle (kink) decides nothing
  if (!(magnitude(r2 - r1) <= 1e-5 * (1. + magnitude(r)))) throw Rejected();
  return r;
}

// comparison with a numerically differentiated value
inline void ensure_derivative(const char *n, double a, double b)
{
  state().checked[n]++;
  const double tol = 2e-5 * (1. + std::fabs(a) + std::fabs(b));
  if (!(std::fabs(a - b) <= tol))
    fail(std::string(n) + ": " + str(a) + " should be " + str(b));
}

template <class F> bool throws(F f)
{
  try { f(); }
  catch (const Rejected &) { throw; }
  catch (...) { return true; }
  return false;
}

template <class F> double sum(unsigned int n, F f)
{
  double r = 0.;
  for (unsigned int k = 0; k < n; ++k) r += f(k);
  return r;
}

template <class F> bool forall(unsigned int n, F f)
{
  for (unsigned int k = 0; k < n; ++k) if (!f(k)) return false;
  return true;
}

inline std::string dump_values()
{
  std::ostringstream o;
  o << "{";
  bool first = true;
  for (auto &p : state().values)
  { o << (first ? "" : ", ") << "\"" << p.first << "\": " << (std::isfinite(p.second) ? str(p.second) : "\"" + str(p.second) + "\""); first = false; }
  o << "}";
  return o.str();
}

inline std::string quote(const std::string &s)
{
  std::string r = "\"";
  for (char c : s)
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32) r += ' ';
    else r += c;
  return r + "\"";
}

inline void report(std::ostream &o, const std::string &contract,
                   const std::string &what)
{
  o << "{\"contract\": " << quote(contract) << ", \"failure\": " << quote(what)
    << ", \"input\": " << dump_values() << "}" << std::endl;
}

inline void on_signal(int sig)
{
  report(std::cout, state().current, "the real code was stopped by signal " + std::to_string(sig));
  std::cout.flush();
  _exit(3);
}

inline int run_main(int argc, char **argv)
{
  auto &s = state();
  std::string only, fixed;
  long samples = 1000;
  std::uint64_t seed = 1;
  double budget = 60.;
  for (int i = 1; i + 1 < argc; i += 2)
  {
    std::string a = argv[i];
    if (a == "--contract") only = argv[i + 1];
    else if (a == "--samples") samples = std::atol(argv[i + 1]);
    else if (a == "--seed") seed = std::strtoull(argv[i + 1], nullptr, 10);
    else if (a == "--values") fixed = argv[i + 1];
    else if (a == "--budget") budget = std::atof(argv[i + 1]);
  }
  for (int sig : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) std::signal(sig, on_signal);
  if (!fixed.empty())
  {
    std::ifstream in(fixed);
    std::string line;
    while (std::getline(in, line))
    {
      auto p = line.rfind('\t');
      if (p != std::string::npos) s.fixed[line.substr(0, p)] = std::strtod(line.c_str() + p + 1, nullptr);
    }
  }
  bool bad = false;
  for (auto &c : s.contracts)
  {
    if (!only.empty() && c.first != only) continue;
    s.current = c.first;
    s.s = seed * 1000003ull + std::hash<std::string>()(c.first);
    long accepted = 0, rejected = 0, nfail = 0;
    const std::clock_t t0 = std::clock();
    for (long n = 0; n < samples && rejected < 60 * samples; )
    {
      if ((double)(std::clock() - t0) / CLOCKS_PER_SEC > budget) break;
      s.use_fixed = !s.fixed.empty() && accepted + rejected < 20;
      s.mode = (accepted + rejected) % 4;
      s.values.clear();
      s.failures.clear();
      bool ok = true;
      try { c.second(); }
      catch (const Rejected &) { ok = false; }
      catch (const std::exception &e) { fail(std::string("threw: ") + e.what()); }
      catch (...) { fail("threw an exception"); }
      // a sample rejected half-way still counts what it ensured before
      if (!ok) { ++rejected; if (s.failures.empty()) continue; }
      else { ++accepted; ++n; }
      if (!s.failures.empty())
      {
        report(std::cout, c.first, s.failures[0]);
        bad = true;
        if (++nfail >= 1) break;
      }
    }
    std::cout << "{\"contract\": " << quote(c.first) << ", \"accepted\": " << accepted
              << ", \"rejected\": " << rejected << ", \"last\": " << dump_values() << "}" << std::endl;
  }
  std::cout.flush();
  std::fflush(nullptr);
  _exit(bad ? 1 : 0);
}
} // namespace verify

int main(int argc, char **argv);
#endif
