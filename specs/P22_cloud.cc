// Contracts of InitialValuesCloud: overlapping particles are cut along the plane of their common circle with a diffuse
// boundary of the requested width, close particles do not share an order parameter.
// hv: flags -fno-access-control
// hv: assume doubles are reals, sine and cosine are monotone between their extrema; the graph colouring of deal.II yields an arbitrary valid colouring with colours from 1
// hv: bound two particles in selected directions with everything else arbitrary, up to three particles for the order parameters
#include <hv_dealii.h>
#include <hv.h>
#include <deal.II/base/function.templates.h>
#include <deal.II/base/function_time.templates.h>
#include <cmath>
#include <map>
#include <numeric>
#include <hv_pattern.h>
using namespace dealii;
static bool wanted[4][4];
static int  n_coloured;
namespace dealii
{
  namespace SparsityTools
  {
    template <typename Pattern>
    unsigned int hv_color_sparsity_pattern(const Pattern &sp, std::vector<unsigned int> &color)
    {
      const int n = n_coloured;
      hv_check_ieq(sp.n_rows(), n, "one row for each particle");
      hv_check_ieq(color.size(), n, "one colour for each particle");
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < i; ++j)
          {
            hv_check(!wanted[i][j] | sp.exists(i, j), "close particles");
            hv_check(!wanted[i][j] | sp.exists(j, i), "close particles");
          }
      int used = 0;
      for (int i = 0; i < n; ++i)
        {
          const int c = hv_pick("colour", 1, std::min(n, i + 1));
          color[i]    = c;
          used        = std::max(used, c);
          for (int j = 0; j < i; ++j)
            hv_assume(!((sp.exists(i, j) || sp.exists(j, i)) && color[i] == color[j]));
        }
      for (int c = 1; c <= used; ++c)
        {
          bool any = false;
          for (int i = 0; i < n; ++i)
            any = any || (int)color[i] == c;
          hv_assume(any);
        }
      return used;
    }
  } // namespace SparsityTools
} // namespace dealii
#define color_sparsity_pattern hv_color_sparsity_pattern
#include <applications/sintering/src/csv_reader.cc>
#include <pf-applications/sintering/initial_values_cloud.h>
using namespace Sintering;
#ifdef HV_SYMBOLIC
namespace Sintering
{
  // contract: the point is not in line with the particles (check_orientation_point decides that, see below)
  template <>
  Point<3> InitialValuesCloud<3>::get_orientation_point(const Point<3> &origin, const Point<3> &) const
  {
    return Point<3>(origin[0] + 1, origin[1] + 2, origin[2] - 0.5);
  }
} // namespace Sintering
#endif

// the profile of one sphere (see P22_spheres.cc)
template <int dim>
struct Sphere : InitialValuesSpherical<dim>
{
  using InitialValuesSpherical<dim>::InitialValuesSpherical;
  double value_at(const Point<dim> &p, const Point<dim> &x, const double r) const { return this->is_in_sphere(p, x, r); }
  double op_value(const Point<dim> &, const unsigned int) const override { return 0; }
  std::pair<Point<dim>, Point<dim>> get_domain_boundaries() const override { return {}; }
  double get_r_max() const override { return 1; }
  unsigned int n_order_parameters() const override { return 1; }
  unsigned int n_particles() const override { return 1; }
};
template <int dim>
static double at(const InitialValues<dim> &f, const Point<dim> &p, unsigned int c)
{
  f.set_component(c);
  return f.value(p, 0);
}
template <int dim>
static Point<dim> direction(const long k)
{
  Point<dim> u;
  if constexpr (dim == 2)
    u = k == 0 ? Point<2>(1, 0) : k == 1 ? Point<2>(0.6, 0.8) : k == 2 ? Point<2>(-0.8, 0.6) : Point<2>(0, -1);
  else
    u = k == 0 ? Point<3>(0, 1, 0) : k == 1 ? Point<3>(0.6, 0, 0.8) : k == 2 ? Point<3>(-0.48, 0.6, 0.64) : Point<3>(0, 0, -1);
  return u;
}
// where two spheres are cut
template <int dim>
static void necks()
{
  const double r0 = hv_real("radius", 0.5, 2), r1 = hv_real("radius", 0.5, 2), D = hv_real("distance", 0.5, 5);
  hv_assume(r0 > 0);
  hv_assume(r1 > 0);
  hv_assume(D > 0);
  // the particles are no parts of each other
  hv_assume(D + r0 > r1);
  hv_assume(D + r1 > r0);
  const Point<dim> u = direction<dim>(dim == 2 ? hv_pick("direction", 0, 3) : hv_pick("direction", 1, 2));
  Point<dim>       x0, x1;
  for (unsigned int d = 0; d < dim; ++d)
    {
      x0[d] = dim == 2 ? hv_real("x", -3, 3) : 0.5 + d;
      x1[d] = x0[d] + D * u[d];
    }
  const InitialValuesCloud<dim> g({{x0, r0, 0, {}}, {x1, r1, 1, {}}}, 0.1, false);
  hv_check(g.n_particles() == 2, "number of grains");
  hv_check(g.n_order_parameters() == 2, "number of order parameters");
  hv_check(g.n_components() == 4, "number of components");
  const bool touch = D <= 0.999 * (r0 + r1);
  hv_check(g.contacts.size() == (touch ? 2 : 0), "overlapping particles are in contact");
  for (unsigned int k = 0; k < 2; ++k)
    {
      hv_check(g.particles[k].neighbours.size() == (touch ? 1 : 0), "neighbours");
      if (!touch)
        continue;
      hv_check(g.particles[k].neighbours[0] == 1 - k, "neighbours");
      const auto &c = g.contacts.at(std::make_pair(k, 1 - k));
      const double sign = k == 0 ? 1 : -1, m = (D * D + r0 * r0 - r1 * r1) / (2 * D);
      for (unsigned int d = 0; d < dim; ++d)
        {
          hv_check_eq(c.center[d], x0[d] + m * u[d], "both particles are cut at the circle they share");
          hv_check_eq(c.rotation_matrix[0][d], sign * u[d], "first axis towards the other particle");
          for (unsigned int e = 0; e <= d; ++e)
            {
              double s = 0;
              for (unsigned int i = 0; i < dim; ++i)
                s += c.rotation_matrix[d][i] * c.rotation_matrix[e][i];
              hv_check_eq(s, d == e, "local axes are orthonormal");
            }
        }
    }
}
HV_SPEC(necks_2d)
{
  necks<2>();
}
HV_SPEC(necks_3d)
{
  necks<3>();
}
// points that orient the third axis are not in line with the particles
HV_SPEC(orientation)
{
  const Point<3>              ex = direction<3>(hv_pick("direction", 0, 3)), x = {0.5, -1, 0.75};
  const InitialValuesCloud<3> g({{x, 1., 0, {}}}, 0.1, false);
  Point<3>                    v;
  const bool                  in_line = hv_pick("in line", 0, 1);
  const double                t       = hv_real("t", -3, 3);
  for (unsigned int d = 0; d < 3; ++d)
    v[d] = in_line ? t * ex[d] : hv_real("v", -3, 3);
  const bool valid = g.check_orientation_point(x, ex, Point<3>(x + v));
  if (in_line)
    hv_check(!valid, "points in line with the particles");
  else
    {
      const auto n = cross_product_3d(v, ex);
      hv_check(!valid | (n * n > 0), "the axes are not parallel");
    }
}
// particles in line with the origin
HV_SPEC(in_line)
{
  const bool reverse = hv_pick("reverse", 0, 1);
  // get_orientation_point draws random numbers: it runs in the native check only
  const double          a = hv_pick("position", 1, 3) * 0.5, D = hv_real("distance", 1.1, 1.9), w = 0.1;
  const double          offset = hv_real("offset", -0.04, 0.04);
  hv_assume((D > 1.1) & (D < 1.8) & (offset < 0.04) & (offset > -0.04));
  Point<3>              x0(0, 0, reverse ? -a : a), x1(0, 0, reverse ? -a - D : a + D);
  InitialValuesCloud<3> g({{x0, 1., 0, {}}, {x1, 1., 1, {}}}, w, false);
  const Point<3>        p(0.1, 0.05, (x0[2] + x1[2]) / 2 + offset);
  hv_check_eq(at<3>(g, p, 2) + at<3>(g, p, 3), 1, "one grain takes over from the other");
}
// the values of two particles that are cut at an arbitrary plane
template <int dim>
static void pair()
{
  const double w = hv_real("width", 0.1, 0.5), r0 = hv_real("radius", 0.5, 2), r1 = hv_real("radius", 0.5, 2);
  hv_assume(w > 0);
  hv_assume(r0 > 0);
  hv_assume(r1 > 0);
  Point<dim> x0, x1, p, centre, axis;
  for (unsigned int d = 0; d < dim; ++d)
    {
      x1[d]     = d == 0 ? 50. : 0.;
      p[d]      = hv_real("p", -1, 1);
      centre[d] = hv_real("centre", -1, 1);
      axis[d]   = hv_real("axis", -1, 1);
    }
  InitialValuesCloud<dim> g({{x0, 1., 0, {}}, {x1, 1., 1, {}}}, w, false);
  hv_check(g.n_contacts() == 0, "particles without contact");
  const Sphere<dim> sphere(w);
  for (unsigned int d = 0; d < dim; ++d)
    x1[d] = hv_real("x", -2, 2);
  // now they are
  g.particles[0].radius     = r0;
  g.particles[1].radius     = r1;
  g.particles[1].center     = x1;
  g.particles[0].neighbours = {1};
  g.particles[1].neighbours = {0};
  Tensor<2, dim> rotation;
  for (unsigned int d = 0; d < dim; ++d)
    for (unsigned int e = 0; e < dim; ++e)
      rotation[d][e] = d == 0 ? axis[e] : hv_real("rotation", -1, 1);
  g.contacts[std::make_pair(0u, 1u)] = {0, 1, rotation, centre};
  for (unsigned int e = 0; e < dim; ++e)
    rotation[0][e] = -axis[e];
  g.contacts[std::make_pair(1u, 0u)] = {1, 0, rotation, centre};
  const double a = at<dim>(g, p, 2), b = at<dim>(g, p, 3), s = sphere.value_at(p, x0, r0), t = sphere.value_at(p, x1, r1);
  hv_check_le(0, a, "order parameters are not negative");
  hv_check_le(a, 1, "order parameters do not exceed one");
  hv_check((t != 0) | hv_close(a, s), "spheres away from the contact");
  double x = 0;
  for (unsigned int d = 0; d < dim; ++d)
    x += axis[d] * (p[d] - centre[d]);
  const bool contact = (s != 0) & (t != 0);
  hv_check((!contact) | (x < w / 2) | (a == 0), "behind the boundary of the grains");
  hv_check((!contact) | (x > -w / 2) | hv_close(a, s), "in front of the boundary of the grains");
  hv_check((!contact) | (x <= -w / 2) | (x >= w / 2) | (t <= 0.5) | ((a > 0) & (a < 1)), "the boundary has the requested width");
  hv_check((!contact) | (x <= -w / 2) | (x >= w / 2) | (s <= 0.5) | (t <= 0.5) | hv_close(a + b, 1), "one grain takes over from the other");
  hv_check((!contact) | (x <= -w / 2) | (x >= 0) | (t <= 0.5) | (a >= 0.5), "monotone boundary");
  hv_check((!contact) | (x <= 0) | (x >= w / 2) | (t <= 0.5) | (a <= 0.5), "monotone boundary");
  const double c = at<dim>(g, p, 0);
  hv_check_le(a, c, "every grain is solid");
  hv_check_le(b, c, "every grain is solid");
  hv_check(hv_close(c, a) | hv_close(c, b), "only grains are solid");
}
HV_SPEC(pair_2d)
{
  pair<2>();
}
HV_SPEC(pair_3d)
{
  pair<3>();
}
// close particles have different order parameters, and each one exactly one
HV_SPEC(colours)
{
  const int    n = hv_pick("particles", 1, 3);
  const double w = hv_real("width", 0.1, 0.5);
  hv_assume(w > 0);
  n_coloured = n;
  std::vector<Particle<2>> particles;
  // a row of particles with arbitrary gaps
  double x = hv_real("x", -3, 3);
  for (int i = 0; i < n; ++i)
    {
      const double r = hv_real("radius", 0.5, 2);
      hv_assume(r > 0);
      if (i > 0)
        {
          const double gap = hv_real("gap", 0, 2);
          hv_assume(gap > 0);
          x += particles.back().radius + gap + r;
        }
      particles.push_back({Point<2>(x, 0.5), r, (unsigned int)i, {}});
    }
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < i; ++j)
      wanted[i][j] = wanted[j][i] = particles[i].center[0] - particles[j].center[0] <= particles[i].radius + particles[j].radius + 1.5 * w;
  const InitialValuesCloud<2> g(particles, w, true);
  hv_check(g.n_particles() == (unsigned int)n, "number of grains");
  std::vector<int> op(n, -1);
  unsigned int     next = 0;
  for (const auto &[o, grains] : g.get_order_parameter_to_grains())
    {
      hv_check(o == next++, "consecutive order parameters");
      for (const auto i : grains)
        {
          hv_check(i < (unsigned int)n && op[i] == -1, "only one order parameter for each grain");
          if (i < (unsigned int)n)
            op[i] = o;
        }
    }
  hv_check(g.n_order_parameters() == next, "number of order parameters");
  for (int i = 0; i < n; ++i)
    {
      hv_check(op[i] >= 0, "an order parameter for each grain");
      for (int j = 0; j < i; ++j)
        hv_check(!wanted[i][j] | (op[i] != op[j]), "close grains have different order parameters");
      // the grain appears where the particle is
      if (n <= 2 && op[i] >= 0)
        hv_check((particles[i].radius < w / 2) | hv_close(at<2>(g, particles[i].center, 2 + op[i]), 1), "one inside of the grain");
    }
}
// the domain is the bounding box of the particles
template <int dim>
static void domain()
{
  const int                  n = hv_pick("particles", 1, dim == 2 ? 3 : 2);
  std::vector<Particle<dim>> particles;
  for (int i = 0; i < n; ++i)
    {
      Point<dim> x;
      for (unsigned int d = 0; d < dim; ++d)
        x[d] = hv_real("x", -9, 9) + 1000 * i * (d == 0);
      const double r = hv_real("radius", 0.5, 2);
      hv_assume(r > 0);
      hv_assume(r < 100);
      hv_assume(x[0] - 1000 * i < 100);
      hv_assume(x[0] - 1000 * i > -100);
      for (unsigned int d = 1; d < dim; ++d)
        hv_assume((x[d] < 1e9) & (x[d] > -1e9));
      particles.push_back({x, r, (unsigned int)i, {}});
    }
  const InitialValuesCloud<dim> g(particles, 0.1, false);
  const auto                    box = g.get_domain_boundaries();
  for (unsigned int d = 0; d < dim; ++d)
    {
      bool lower = false, upper = false;
      for (const auto &p : particles)
        {
          hv_check_le(box.first[d], p.center[d] - p.radius, "particles are inside of the domain");
          hv_check_le(p.center[d] + p.radius, box.second[d], "particles are inside of the domain");
          lower = lower | hv_close(box.first[d], p.center[d] - p.radius);
          upper = upper | hv_close(box.second[d], p.center[d] + p.radius);
        }
      hv_check(lower, "lower corner of the domain");
      hv_check(upper, "upper corner of the domain");
    }
  bool any = false;
  for (const auto &p : particles)
    {
      hv_check_le(p.radius, g.get_r_max(), "largest radius");
      any = any | hv_close(p.radius, g.get_r_max());
    }
  hv_check(any, "largest radius");
}
HV_SPEC(domain_2d)
{
  domain<2>();
}
HV_SPEC(domain_3d)
{
  domain<3>();
}
