// Contracts of the initial mesh computations.  The triangulation is a ghost object that records
// what it is asked to become; the integer routines are the compiled ones of src/grid/grid_tools.cc.
// hv: assume dealii::GridGenerator and Triangulation::refine_global create what they are asked for; log2 is monotone and exact at powers of two
// hv: bound integer routines for n <= 64 and primes <= 31; sizes and widths are arbitrary reals
#include <hv_dealii.h>
#include <deal.II/grid/grid_generator.h>
#include <deal.II/grid/grid_tools.h>
#include <cmath>
#include <vector>
#include <hv.h>

template <int dim>
struct Ghost
{
  using cell_iterator = int;
  std::vector<unsigned int> divisions;
  dealii::Point<dim>        a, b;
  bool                      created = false, colorize = false;
  long                      refined = 0, periodic = 0;
  mutable long              pairs   = 0;
  void
  refine_global(const unsigned int n)
  {
    hv_check(created, "the mesh exists before it is refined");
    refined += n;
  }
  void
  add_periodicity(const std::vector<dealii::GridTools::PeriodicFacePair<int>> &v)
  {
    hv_check(created && refined == 0, "periodicity is imposed on the coarse mesh");
    periodic += pairs;
  }
};

namespace dealii
{
  namespace GridGenerator
  {
    template <int dim>
    void
    subdivided_hyper_rectangle(Ghost<dim> &t, const std::vector<unsigned int> &n, const Point<dim> &a, const Point<dim> &b, const bool colorize = false)
    {
      t.created   = true;
      t.divisions = n;
      t.a         = a;
      t.b         = b;
      t.colorize  = colorize;
    }
  } // namespace GridGenerator
  namespace GridTools
  {
    template <int dim>
    void
    collect_periodic_faces(const Ghost<dim> &t, const unsigned int b1, const unsigned int b2, const unsigned int d, std::vector<PeriodicFacePair<int>> &v)
    {
      hv_check(t.colorize, "boundary indicators exist");
      hv_check_ieq(b1, 2 * d, "opposite faces of the direction are matched");
      hv_check_ieq(b2, 2 * d + 1, "opposite faces of the direction are matched");
      hv_check_ieq(t.pairs, d, "each direction once");
      ++t.pairs;
    }
  } // namespace GridTools
} // namespace dealii
#include <src/grid/grid_tools.cc>
using namespace hpsint;

static bool
is_prime(unsigned int p)
{
  if (p < 2)
    return false;
  for (unsigned int q = 2; q * q <= p; ++q)
    if (p % q == 0)
      return false;
  return true;
}

// bounded: all ranges up to 45
HV_SPEC(primes)
{
  const long lo = hv_pick("start", 0, 12), hi = hv_pick("end", 0, 45);
  const auto v = get_primes(lo, hi);
  std::size_t k = 0;
  for (long p = lo; p <= hi; ++p)
    if (is_prime(p))
      {
        hv_check(k < v.size(), "no prime is missing");
        hv_check_ieq(v[k], p, "the primes of the range in increasing order");
        ++k;
      }
  hv_check_ieq(v.size(), k, "nothing but primes");
}

static long
dist(long a, long b)
{
  return a < b ? b - a : a - b;
}

// number of cells of p * 2^s with s the ceiling of log2(n div p)
static long
cells(long n, long p, long &s)
{
  s = 0;
  while ((1l << s) < n / p)
    ++s;
  return p << s;
}

// bounded: all cell counts up to 64 and limits up to 31
static void
decompose(long lo, long hi, long max_prime)
{
  const long n      = hv_pick("n", lo, hi);
  const auto [p, s] = decompose_to_prime_tuple(n, max_prime);
  if (max_prime < 2)
    {
      hv_check(p >= 1, "at least one cell");
      hv_check_ieq(p, n, "without primes the number is kept");
      hv_check_ieq(s, 0, "without primes there is no refinement");
      return;
    }
  hv_check(is_prime(p) && p <= max_prime, "the coarse number is an allowed prime");
  const long total = (long)p << s;
  for (long q = 2; q <= max_prime; ++q)
    if (is_prime(q))
      {
        long       t;
        const long c = cells(n, q, t);
        hv_check(dist(total, n) <= dist(c, n), "no other prime comes closer to the requested number");
      }
  bool exact = false;
  for (long q = 2; q <= max_prime; ++q)
    if (is_prime(q) && n % q == 0 && ((n / q) & (n / q - 1)) == 0)
      exact = true;
  if (exact)
    hv_check_ieq(total, n, "an exactly representable number is reproduced");
  hv_check(n < 2 || 2 * total > n, "never less than half of the requested cells");
  hv_check(total < 2 * n || n < 2, "never twice the requested cells");
}

HV_SPEC(decompose_none)
{
  decompose(1, 40, 1);
}
HV_SPEC(decompose_small)
{
  decompose(1, 64, hv_pick("max_prime", 2, 9));
}
HV_SPEC(decompose_large)
{
  decompose(1, 64, hv_pick("max_prime", 10, 31));
}

HV_SPEC(adjust)
{
  const long                dim = hv_pick("dim", 2, 3);
  const long                mp  = hv_pick("max_prime", 0, 3) * 6 + 1;
  std::vector<unsigned int> n(dim), m;
  for (long d = 0; d < dim; ++d)
    n[d] = hv_pick("n", 1, 4) * 9 - d;
  m            = n;
  const long r = hpsint::internal::adjust_divisions_to_primes(mp, m);
  hv_check_ieq(m.size(), dim, "number of directions is kept");
  if (mp == 0)
    hv_check_ieq(r, 0, "no limit, no refinement");
  long smallest = 1000;
  for (long d = 0; d < dim; ++d)
    {
      hv_check(m[d] >= 1, "at least one cell in each direction");
      if (mp < 2)
        {
          hv_check_ieq(m[d], n[d], "unchanged without primes");
          smallest = 0;
          continue;
        }
      const auto [p, s] = decompose_to_prime_tuple(n[d], mp);
      hv_check_ieq((long)m[d] << r, (long)p << s, "refinement restores the decomposed number of cells");
      smallest = std::min<long>(smallest, s);
    }
  hv_check_ieq(r, smallest, "as many common refinements as possible");
}

template <int dim>
static dealii::Point<dim>
corner(const char *name, double lo, double hi)
{
  dealii::Point<dim> p;
  for (int d = 0; d < dim; ++d)
    p[d] = hv_real(name, lo, hi);
  return p;
}

template <int dim>
static void
common(const Ghost<dim> &t, const dealii::Point<dim> &a, const dealii::Point<dim> &b, bool periodic)
{
  hv_check(t.created && t.colorize, "the mesh is created with boundary indicators");
  for (int d = 0; d < dim; ++d)
    {
      hv_check_eq(t.a[d], a[d], "the mesh covers the box");
      hv_check_eq(t.b[d], b[d], "the mesh covers the box");
    }
  hv_check_ieq(t.periodic, periodic ? dim : 0, "periodicity in all directions exactly when requested");
}

static InitialRefine
strategy()
{
  const long k = hv_pick("refine", 0, 2);
  return k == 0 ? InitialRefine::None : k == 1 ? InitialRefine::Base : InitialRefine::Full;
}

static void
refinements(long refined, long delayed, InitialRefine how, long base, long interface)
{
  hv_check_ieq(refined + delayed, base + interface, "global and delayed refinements add up to the needed ones");
  hv_check_ieq(refined, how == InitialRefine::None ? 0 : how == InitialRefine::Base ? base : base + interface, "the strategy decides what is refined now");
}

// keeps rounding errors of the compiled run away from the case boundary
static double
margin()
{
  return hv_symbolic() ? 1. : 1 - 1e-9;
}

static double
pow2(long n)
{
  double r = 1;
  for (long i = 0; i < n; ++i)
    r *= 2;
  for (long i = 0; i > n; --i)
    r /= 2;
  return r;
}

// the number of subdivisions is that of the smallest cells, coarsened n times, rounded up
template <int dim>
static void
from_interface(long n_lo, long n_hi)
{
  const bool   periodic = hv_bool("periodic");
  const auto   refine   = strategy();
  const long   degree   = hv_pick("divisions per element", 1, 2);
  const long   n        = hv_pick("n", n_lo, n_hi);
  const double width = hv_real("interface width", 0.2, 2), ratio = hv_real("ratio", n == 0 ? 0.1 : pow2(n - 1), pow2(n)),
               max0 = hv_real("max level 0 divisions", 0.5, 4);
  hv_assume(width > 0 && max0 > 0 && ratio > 0);
  if (n == 0)
    hv_assume(ratio <= margin());
  else
    hv_assume(ratio <= pow2(n) * margin() && ratio * margin() > pow2(n - 1));
  const double per = ratio * max0;
  const double h   = width * degree / per; // requested size of the smallest cells
  const auto   a   = corner<dim>("a", -1, 0);
  auto         b   = a;
  double       x[dim]; // length of the box in units of the smallest cells
  for (int d = 0; d < dim; ++d)
    {
      x[d] = hv_real("cells", 1, 100);
      hv_assume(x[d] > 0 && x[d] < 1000000);
      b[d] += x[d] * h;
    }
  Ghost<dim> t;
  const long delayed = create_mesh_from_interface(t, a, b, width, per, periodic, refine, 0, max0, degree, false);
  common<dim>(t, a, b, periodic);
  refinements(t.refined, delayed, refine, 0, n);
  hv_check_ieq(t.divisions.size(), dim, "one number per direction");
  for (int d = 0; d < dim; ++d)
    {
      hv_check(t.divisions[d] >= 1, "at least one cell in each direction");
      hv_check_le(x[d], t.divisions[d] * pow2(n), "the finest cells are not larger than requested");
      hv_check((t.divisions[d] - 1.) * pow2(n) <= x[d] * (1 + 1e-9), "no more coarse cells than needed");
    }
  hv_cover("mesh");
}

HV_SPEC(interface_2d)
{
  from_interface<2>(0, 4);
}
HV_SPEC(interface_3d)
{
  from_interface<3>(0, 2);
}

template <int dim>
static void
from_radius(long n_lo, long n_hi)
{
  const bool   periodic = hv_bool("periodic");
  const auto   refine   = strategy();
  const long   degree   = hv_pick("divisions per element", 1, 2);
  const long   n        = hv_pick("n", n_lo, n_hi);
  const double width = hv_real("interface width", 0.2, 2), per = hv_real("divisions per interface", 0.5, 16),
               ratio = hv_real("ratio", n == 0 ? 0.1 : pow2(n - 1), pow2(n));
  hv_assume(width > 0 && per > 0 && ratio > 0);
  if (n == 0)
    hv_assume(ratio <= margin());
  else
    hv_assume(ratio <= pow2(n) * margin() && ratio * margin() > pow2(n - 1));
  const double r = ratio * width * degree / per / 2; // the diameter in units of the smallest cells
  const auto   a = corner<dim>("a", -1, 0);
  auto         b = a;
  double       x[dim]; // length of the box in units of the diameter
  for (int d = 0; d < dim; ++d)
    {
      x[d] = hv_real("diameters", 1.01, 100);
      hv_assume(x[d] >= 1.000001 && x[d] < 1000000); // the box contains the particle
      b[d] += x[d] * 2 * r;
    }
  Ghost<dim> t;
  const long delayed = create_mesh_from_radius(t, a, b, width, per, r, periodic, refine, 0, degree, false);
  common<dim>(t, a, b, periodic);
  refinements(t.refined, delayed, refine, 0, n);
  hv_check_ieq(t.divisions.size(), dim, "one number per direction");
  for (int d = 0; d < dim; ++d)
    {
      hv_check(t.divisions[d] >= 1, "at least one cell in each direction");
      hv_check_le(t.divisions[d] - 0.5, x[d], "the coarse cell is the largest particle, rounded");
      hv_check_le(x[d], t.divisions[d] + 0.5, "the coarse cell is the largest particle, rounded");
    }
  hv_cover("mesh");
}

HV_SPEC(radius_2d)
{
  from_radius<2>(0, 4);
}
HV_SPEC(radius_3d)
{
  from_radius<3>(0, 2);
}

HV_SPEC(divisions)
{
  const bool                periodic = hv_bool("periodic");
  const auto                a = corner<3>("a", -1, 0), b = corner<3>("b", 4, 9);
  std::vector<unsigned int> n(3);
  for (auto &i : n)
    i = hv_int("n", 1, 1000);
  const long r = hv_int("n_ref", 0, 20);
  Ghost<3>   t;
  hv_check_ieq(create_mesh_from_divisions(t, a, b, n, periodic, r, false), 0, "nothing is delayed");
  common<3>(t, a, b, periodic);
  hv_check_ieq(t.refined, r, "the requested refinements");
  for (int d = 0; d < 3; ++d)
    hv_check_ieq(t.divisions[d], n[d], "the requested divisions");
}

// with a prime limit the refined number of cells is that of the decomposition
HV_SPEC(interface_primes)
{
  const auto   refine = strategy();
  const long   cells[2] = {hv_pick("cells", 1, 30), 9 - hv_pick("cells", 0, 1)};
  const long   n = hv_pick("n", 0, 1), mp = hv_pick("max_prime", 0, 3) * 5 + 2;
  const double w = 1, per = pow2(n);
  dealii::Point<2> a, b;
  for (int d = 0; d < 2; ++d)
    b[d] = cells[d] * 1.; // h_e = 1 / per, so that cells * 2^n of the smallest cells fit
  Ghost<2>   t;
  const long delayed = create_mesh_from_interface(t, a, b, w, per, false, refine, mp, 1., 1, false);
  std::vector<unsigned int> m{(unsigned int)cells[0], (unsigned int)cells[1]};
  const long base = hpsint::internal::adjust_divisions_to_primes(mp, m);
  refinements(t.refined, delayed, refine, base, n);
  for (int d = 0; d < 2; ++d)
    hv_check_ieq(t.divisions[d], m[d], "coarse numbers are the adjusted ones");
}
