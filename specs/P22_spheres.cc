// Contracts of the initial values made of spheres: InitialValuesSpherical, InitialValuesArray, InitialValuesCircle,
// InitialValuesHypercube and InitialValuesCHAC.
// hv: flags -fno-access-control
// hv: assume doubles are reals, cos is monotone between its extrema; positions on a circle computed by GeometricUtilities::Coordinates are taken as they come
// hv: bound up to seven grains on a circle, up to 3 x 3 x 2 grains in a cube
#include <hv_dealii.h>
#include <hv.h>
#include <deal.II/base/function.templates.h>
#include <deal.II/base/function_time.templates.h>
#include <deal.II/base/geometric_utilities.h>
#include <array>
#include <cmath>
#include <map>
#include <numeric>
#include <pf-applications/sintering/initial_values_circle.h>
#include <pf-applications/sintering/initial_values_hypercube.h>
using namespace dealii;
using namespace Sintering;
#ifdef HV_SYMBOLIC
namespace dealii
{
  namespace GeometricUtilities
  {
    namespace Coordinates
    {
      template <>
      Point<2> from_spherical<2>(const std::array<double, 2> &s)
      {
        return Point<2>(s[0] * std::cos(s[1]), s[0] * std::sin(s[1]));
      }
      template <>
      Point<3> from_spherical<3>(const std::array<double, 3> &s)
      {
        return Point<3>(s[0] * std::sin(s[2]) * std::cos(s[1]), s[0] * std::sin(s[2]) * std::sin(s[1]), s[0] * std::cos(s[2]));
      }
    } // namespace Coordinates
  }   // namespace GeometricUtilities
} // namespace dealii
#endif
static const InterfaceDirection directions[3] = {InterfaceDirection::inside, InterfaceDirection::middle, InterfaceDirection::outside};

// grains at arbitrary positions
template <int dim>
struct Grains : InitialValuesArray<dim>
{
  using InitialValuesArray<dim>::InitialValuesArray;
};
template <int dim>
static Point<dim> point(const char *name)
{
  Point<dim> p;
  for (unsigned int d = 0; d < dim; ++d)
    p[d] = hv_real(name, -5, 5);
  return p;
}
static double at(const Function<2> &f, const Point<2> &p, unsigned int c)
{
  static_cast<const InitialValues<2> &>(f).set_component(c);
  return f.value(p, 0);
}
static double at(const Function<3> &f, const Point<3> &p, unsigned int c)
{
  static_cast<const InitialValues<3> &>(f).set_component(c);
  return f.value(p, 0);
}
struct Profile
{
  double             r, w;
  InterfaceDirection direction;
  double             shift; // of the middle of the interface against the radius
};
static Profile profile()
{
  Profile f;
  f.r = hv_real("radius", 0.5, 4);
  f.w = hv_real("width", 0.1, 2);
  hv_assume(f.w > 0);
  hv_assume(f.r > 0);
  const long d = hv_pick("direction", 0, 2);
  f.direction  = directions[d];
  f.shift      = (1 - d) * f.w / 2;
  return f;
}
// one grain: one inside, zero outside, monotone in between
template <int dim>
static void single(const Point<dim> &p, const Point<dim> &q)
{
  const Profile f = profile();
  Grains<dim>   g(f.r, f.w, f.direction);
  const auto    x = point<dim>("centre");
  g.centers       = {x};
  g.order_parameter_to_grains[0] = {0};
  hv_check(g.n_components() == 3, "number of components");
  const double a = at(g, p, 2), s = x.distance(p) - f.r - f.shift;
  hv_check_le(0, a, "order parameters are not negative");
  hv_check_le(a, 1, "order parameters do not exceed one");
  hv_check((s > -f.w / 2) | (a == 1), "one inside of the grain");
  hv_check((s < f.w / 2) | (a == 0), "zero outside of the grain");
  hv_check((s <= -f.w / 2) | (s >= f.w / 2) | ((a > 0) & (a < 1)), "the interface has the requested width");
  hv_check((s >= 0) | (a >= 0.5), "upper half of the interface");
  hv_check((s <= 0) | (a <= 0.5), "lower half of the interface");
  hv_check_eq(at(g, p, 0), a, "concentration of a single grain");
  hv_check_eq(at(g, p, 1), 0, "chemical potential");
  const double b = at(g, q, 2), t = x.distance(q) - f.r - f.shift;
  hv_check((s > t) | (a >= b), "the interface is monotone");
  hv_check((s + t != 0) | hv_close(a + b, 1), "the interface is symmetric");
}
HV_SPEC(single_2d)
{
  single<2>(point<2>("p"), point<2>("q"));
}
HV_SPEC(single_3d)
{
  single<3>(point<3>("p"), point<3>("q"));
}
// concentration from arbitrary admissible order parameters
struct Values : InitialValuesCHAC<2>
{
  using InitialValuesCHAC<2>::InitialValuesCHAC;
  std::vector<double> v;
  double op_value(const Point<2> &, const unsigned int i) const override { return v.at(i); }
  std::pair<Point<2>, Point<2>> get_domain_boundaries() const override { return {}; }
  double get_r_max() const override { return 1; }
  unsigned int n_order_parameters() const override { return v.size(); }
  unsigned int n_particles() const override { return v.size(); }
};
HV_SPEC(components)
{
  const long   n = hv_pick("order parameters", 1, 4), offset = hv_pick("offset", 0, 2);
  const bool   is_void = hv_pick("void", 0, 1), sum = hv_pick("accumulative", 0, 1);
  Values       g(1., InterfaceDirection::middle, offset, is_void, sum);
  double       total = 0;
  for (long i = 0; i < n; ++i)
    {
      g.v.push_back(hv_real("eta", 0, 1));
      hv_assume((0 <= g.v[i]) & (g.v[i] <= 1));
      total += g.v[i];
    }
  hv_check(g.n_components() == (unsigned long)(n + offset), "number of components");
  const Point<2> p(0.25, 0.5);
  for (long i = 0; i < n; ++i)
    hv_check_eq(at(g, p, offset + i), g.v[i], "order parameters follow the fields of the Cahn-Hilliard equation");
  if (offset == 2)
    hv_check_eq(at(g, p, 1), 0, "chemical potential");
  if (offset > 0)
    {
      const double c = at(g, p, 0), solid = is_void ? 1 - c : c;
      hv_check_le(0, c, "concentration is not negative");
      hv_check_le(c, 1, "concentration does not exceed one");
      for (long i = 0; i < n; ++i)
        hv_check_le(g.v[i], solid, "every grain is solid");
      hv_check_le(solid, total, "only grains are solid");
      if (sum)
        hv_check((total > 1) | hv_close(solid, total), "accumulated grains");
    }
}
// several grains
template <int dim>
static void tables(const InitialValuesArray<dim> &g, const unsigned int n)
{
  hv_check(g.n_particles() == n, "number of grains");
  std::vector<int> count(n, 0);
  unsigned int     next = 0;
  for (const auto &[op, grains] : g.order_parameter_to_grains)
    {
      hv_check(op == next++, "consecutive order parameters");
      for (const auto i : grains)
        {
          hv_check(i < n, "grains of an order parameter");
          if (i < n)
            ++count[i];
        }
    }
  hv_check(g.n_order_parameters() == next, "number of order parameters");
  for (unsigned int i = 0; i < n; ++i)
    hv_check(count[i] == 1, "exactly one order parameter for each grain");
}
template <int dim>
static unsigned int order_parameter(const InitialValuesArray<dim> &g, const unsigned int i)
{
  for (const auto &[op, grains] : g.order_parameter_to_grains)
    for (const auto j : grains)
      if (i == j)
        return op;
  return 99;
}
template <int dim>
static void circle()
{
  const Profile            f = profile();
  const unsigned int       n = hv_pick("grains", 1, 7);
  const bool               minimize = hv_pick("minimize", 0, 1);
  InitialValuesCircle<dim> g(f.r, f.w, n, minimize, f.direction);
  tables<dim>(g, n);
  if (!minimize)
    hv_check(g.n_order_parameters() == n, "one order parameter for each grain");
  else
    hv_check(g.n_order_parameters() <= 3, "few order parameters");
  for (unsigned int i = 0; i < n && n > 1; ++i)
    hv_check(order_parameter<dim>(g, i) != order_parameter<dim>(g, (i + 1) % n), "neighbors have different order parameters");
  for (unsigned int i = 0; i < n; ++i)
    {
      double r2 = 0;
      for (unsigned int d = 0; d < dim; ++d)
        r2 += g.centers[i][d] * g.centers[i][d];
      const double s = n > 1 ? std::sin(M_PI / n) : 1;
      hv_check_eq(r2 * s * s, n > 1 ? f.r * f.r : 0., "all centres on the circle on which neighbors touch");
    }
}
HV_SPEC(circle_2d)
{
  circle<2>();
}
HV_SPEC(circle_3d)
{
  circle<3>();
}
template <int dim>
static void cube()
{
  const Profile                 f = profile();
  std::array<unsigned int, dim> n;
  unsigned int                  total = 1;
  for (unsigned int d = 0; d < dim; ++d)
    {
      n[d] = hv_pick("grains", 1, d + 1 < dim ? 2 : (dim < 3 ? 4 : 3));
      total *= n[d];
    }
  const unsigned int          n_op = hv_pick("order parameters", 0, 3);
  InitialValuesHypercube<dim> g(f.r, f.w, n, n_op, f.direction);
  tables<dim>(g, total);
  hv_check((n_op == 0) | (g.n_order_parameters() == std::min(n_op, total)), "requested order parameters");
  // every position of the lattice once, and touching grains do not share an order parameter
  for (unsigned int i = 0; i < total && i < g.centers.size(); ++i)
    for (unsigned int d = 0; d < dim; ++d)
      {
        bool any = false;
        for (unsigned int k = 0; k < n[d]; ++k)
          any = any | hv_close(g.centers[i][d], 2 * f.r * k);
        hv_check(any, "centres on the lattice");
      }
  for (unsigned int i = 0; i < g.centers.size(); ++i)
    for (unsigned int j = 0; j < i; ++j)
      {
        const double d2 = g.centers[i].distance_square(g.centers[j]);
        hv_check_le(4 * f.r * f.r, d2, "no two grains at the same position");
        if (n_op != 1 && order_parameter<dim>(g, i) == order_parameter<dim>(g, j))
          hv_check_le(8 * f.r * f.r, d2, "touching grains have different order parameters");
      }
  const auto box = g.get_domain_boundaries();
  for (unsigned int d = 0; d < dim; ++d)
    {
      hv_check_eq(box.first[d], -f.r, "lower corner of the domain");
      hv_check_eq(box.second[d], f.r * (2 * n[d] - 1.), "upper corner of the domain");
    }
  hv_check_eq(g.get_r_max(), f.r, "largest radius");
}
HV_SPEC(cube_1d)
{
  const Profile             f = profile();
  const unsigned int        n = hv_pick("grains", 1, 5), n_op = hv_pick("order parameters", 0, 3);
  InitialValuesHypercube<1> g(f.r, f.w, {{n}}, n_op, f.direction);
  tables<1>(g, n);
  for (unsigned int i = 0; i < n && i < g.centers.size(); ++i)
    hv_check_eq(g.centers[i][0], 2 * f.r * i, "centres on the lattice");
}
HV_SPEC(cube_2d)
{
  cube<2>();
}
HV_SPEC(cube_3d)
{
  cube<3>();
}
// long rows of grains in one direction
template <int dim>
static void row()
{
  const Profile                 f = profile();
  std::array<unsigned int, dim> n;
  n.fill(1);
  const unsigned int e = hv_pick("direction", 0, dim - 1), m = hv_pick("grains", 3, 6);
  n[e]                 = m;
  const unsigned int          n_op = hv_pick("order parameters", 2, 4);
  InitialValuesHypercube<dim> g(f.r, f.w, n, n_op, f.direction);
  tables<dim>(g, m);
  for (unsigned int i = 0; i < m && i < g.centers.size(); ++i)
    for (unsigned int d = 0; d < dim; ++d)
      hv_check_eq(g.centers[i][d], d == e ? 2 * f.r * i : 0., "a row of touching grains");
  for (unsigned int i = 1; i < m && i < g.centers.size(); ++i)
    hv_check(order_parameter<dim>(g, i) != order_parameter<dim>(g, i - 1),
             "touching grains have different order parameters");
}
HV_SPEC(row_2d)
{
  row<2>();
}
HV_SPEC(row_3d)
{
  row<3>();
}
// several grains share an order parameter: none of them gets lost
HV_SPEC(shared)
{
  const Profile f = profile();
  Grains<2>     g(f.r, f.w, f.direction);
  const auto    x = point<2>("centre"), y = point<2>("centre"), p = point<2>("p");
  g.centers       = {x, y};
  g.order_parameter_to_grains[0] = {0, 1};
  // the interfaces of two grains of one order parameter do not overlap
  const double s = x.distance(p) - f.r - f.shift, t = y.distance(p) - f.r - f.shift;
  hv_assume((s >= f.w / 2) | (t >= f.w / 2));
  const double a = at(g, p, 2);
  hv_check_le(0, a, "order parameters are not negative");
  hv_check_le(a, 1, "order parameters do not exceed one");
  hv_check(((s > -f.w / 2) & (t > -f.w / 2)) | (a == 1), "one inside of every grain");
  hv_check((s < f.w / 2) | (t < f.w / 2) | (a == 0), "zero outside of all grains");
  hv_check((s >= 0) | (a >= 0.5), "upper half of the interface of the first grain");
  hv_check((t >= 0) | (a >= 0.5), "upper half of the interface of the second grain");
  hv_check((s >= f.w / 2) | (s <= -f.w / 2) | ((a > 0) & (a < 1)), "interface of the first grain");
  hv_check((t >= f.w / 2) | (t <= -f.w / 2) | ((a > 0) & (a < 1)), "interface of the second grain");
  Grains<2> alone(f.r, f.w, f.direction);
  alone.centers                      = {y};
  alone.order_parameter_to_grains[0] = {0};
  hv_check((s < f.w / 2) | hv_close(a, at(alone, p, 2)), "the profile of a grain does not depend on others");
}
