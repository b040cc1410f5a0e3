// Contracts of InitialValuesMicrostructure: grains given by polygons.
// hv: assume doubles are reals; BoundingBox::point_inside, merge_with and side_length do what they say; points are less than 1e6 away where distances are compared with the largest double
// hv: bound selected polygons; points and interface widths are arbitrary
#include <deal.II/base/bounding_box.h>
#ifdef HV_SYMBOLIC
namespace dealii
{
  template <>
  bool BoundingBox<2, double>::point_inside(const Point<2> &p, const double tolerance) const
  {
    for (unsigned int d = 0; d < 2; ++d)
      {
        const double t = tolerance * (get_boundary_points().second[d] - get_boundary_points().first[d]);
        if (p[d] < get_boundary_points().first[d] - t || p[d] > get_boundary_points().second[d] + t)
          return false;
      }
    return true;
  }
  template <>
  void BoundingBox<2, double>::merge_with(const BoundingBox<2, double> &o)
  {
    for (unsigned int d = 0; d < 2; ++d)
      {
        get_boundary_points().first[d]  = std::min(get_boundary_points().first[d], o.get_boundary_points().first[d]);
        get_boundary_points().second[d] = std::max(get_boundary_points().second[d], o.get_boundary_points().second[d]);
      }
  }
  template <>
  double BoundingBox<2, double>::side_length(const unsigned int d) const
  {
    return get_boundary_points().second[d] - get_boundary_points().first[d];
  }
} // namespace dealii
#endif
#include <hv_dealii.h>
#include <hv.h>
#include <deal.II/base/function.templates.h>
#include <deal.II/base/function_time.templates.h>
#include <cmath>
#include <map>
#include <numeric>
#include <applications/sintering/src/csv_reader.cc>
#include <pf-applications/sintering/initial_values_microstructure.h>
using namespace dealii;
using namespace Sintering;
struct Structure : InitialValuesMicrostructure
{
  using Segment = MicroSegment;
  Structure(const double w, const InterfaceDirection d)
    : InitialValuesMicrostructure(w, d)
  {}
  void add(const std::vector<std::vector<Point<2>>> &segments, const unsigned int op)
  {
    grains.emplace_back(op);
    for (const auto &s : segments)
      grains.back().add_segment(MicroSegment(s.begin(), s.end(), interface_width, interface_direction));
    order_parameter_to_grains[op].push_back(grains.size() - 1);
  }
  static bool inside(const std::vector<Point<2>> &s, const Point<2> &p)
  {
    return MicroSegment(s.begin(), s.end(), 0., InterfaceDirection::middle).point_inside(p);
  }
  static double distance(const std::vector<Point<2>> &s, const Point<2> &p)
  {
    return MicroSegment(s.begin(), s.end(), 0., InterfaceDirection::middle).distance(p);
  }
};
static const InterfaceDirection directions[3] = {InterfaceDirection::inside, InterfaceDirection::middle, InterfaceDirection::outside};
static double at(const InitialValues<2> &f, const Point<2> &p, unsigned int c)
{
  f.set_component(c);
  return f.value(p, 0);
}
static Point<2> point()
{
  const double x = hv_real("x", -2, 4), y = hv_real("y", -2, 4);
  return Point<2>(x, y);
}
static double side(const Point<2> &a, const Point<2> &b, const Point<2> &p)
{
  return (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0]);
}
static std::vector<Point<2>> turned(const std::vector<Point<2>> &s, const bool reverse, const unsigned int start)
{
  std::vector<Point<2>> r;
  for (unsigned int i = 0; i < s.size(); ++i)
    r.push_back(s[(reverse ? s.size() - i + start : i + start) % s.size()]);
  return r;
}
// convex polygons: intersections of half planes
HV_SPEC(convex)
{
  const std::vector<std::vector<Point<2>>> shapes = {{{0, 0}, {2, 0}, {0.5, 1.5}}, {{0, 0}, {2, 0}, {2, 1}, {0, 1}}, {{1, 0}, {2.5, 1}, {2, 2.5}, {0.5, 2.5}, {0, 1}}};
  const auto     s = shapes[hv_pick("shape", 0, 2)];
  const bool     reverse = hv_pick("reverse", 0, 1);
  const long     start   = hv_pick("start", 0, 1);
  const Point<2> p       = point();
  bool           in = true, out = false;
  for (unsigned int i = 0; i < s.size(); ++i)
    {
      const double d = side(s[i], s[(i + 1) % s.size()], p);
      in  = in & (d > 0);
      out = out | (d < 0);
    }
  const bool result = Structure::inside(turned(s, reverse, start), p);
  hv_check(!in | result, "points inside of a polygon");
  hv_check(!out | !result, "points outside of a polygon");
}
HV_SPEC(concave)
{
  const std::vector<Point<2>> s = {{0, 0}, {3, 0}, {3, 1}, {1, 1}, {1, 2}, {0, 2}};
  const bool     reverse = hv_pick("reverse", 0, 1);
  const long     start   = hv_pick("start", 0, 5);
  const Point<2> p       = point();
  const double   x = p[0], y = p[1];
  const bool     in  = ((x > 0) & (x < 3) & (y > 0) & (y < 1)) | ((x > 0) & (x < 1) & (y > 0) & (y < 2));
  const bool     out = (x < 0) | (x > 3) | (y < 0) | (y > 2) | ((x > 1) & (y > 1));
  const bool result = Structure::inside(turned(s, reverse, start), p);
  hv_check(!in | result, "points inside of a polygon");
  hv_check(!out | !result, "points outside of a polygon");
}
// no point of the contour is closer than the distance, and the distance is the one of some point
HV_SPEC(distance)
{
  const std::vector<std::vector<Point<2>>> shapes = {{{0, 0}, {2, 0}, {2, 1}, {0, 1}}, {{0, 0}, {4, 3}, {0, 3}}};
  const auto     s = shapes[hv_pick("shape", 0, 1)];
  const Point<2> p = point();
  const double   d = Structure::distance(s, p), t = hv_real("t", 0, 1);
  hv_assume((t >= 0) & (t <= 1));
  hv_assume((p[0] > -1e6) & (p[0] < 1e6) & (p[1] > -1e6) & (p[1] < 1e6));
  hv_check_le(0, d, "distances are not negative");
  bool any = false;
  for (unsigned int i = 0; i < s.size(); ++i)
    {
      const Point<2> a = s[i], b = s[(i + 1) % s.size()], e(b - a);
      const Point<2> q(a[0] + t * e[0], a[1] + t * e[1]);
      hv_check_le(d * d, p.distance_square(q), "no point of the contour is closer");
      // the candidates: the foot of the perpendicular and the corners
      const double n = side(a, b, p), l2 = e[0] * e[0] + e[1] * e[1];
      any = any | hv_close(d * d * l2, n * n) | hv_close(d * d, p.distance_square(a));
    }
  hv_check(any, "the distance is the one to a point of the contour");
}
// values around one rectangle
HV_SPEC(rectangle)
{
  const double w = hv_real("width", 0.1, 1);
  hv_assume((w > 0) & (w < 1));
  const long k = hv_pick("direction", 0, 2);
  Structure  g(w, directions[k]);
  g.add({{{0, 0}, {3, 0}, {3, 2}, {0, 2}}}, 0);
  hv_check((g.n_particles() == 1) & (g.n_order_parameters() == 1) & (g.n_components() == 3), "one grain");
  const Point<2> p = point();
  const double   x = p[0], y = p[1];
  // not on the contour
  hv_assume((x != 0) & (x != 3) & (y != 0) & (y != 2));
  const double a = at(g, p, 2), h = k == 1 ? w / 2 : w;
  hv_check_le(0, a, "order parameters are not negative");
  hv_check_le(a, 1, "order parameters do not exceed one");
  const bool   inside = (x > 0) & (x < 3) & (y > 0) & (y < 2);
  const double dx = x < 3 - x ? x : 3 - x, dy = y < 2 - y ? y : 2 - y, d = dx < dy ? dx : dy; // depth if inside
  if (k == 0)
    {
      hv_check(!inside | (d < h) | hv_close(a, 1), "one inside of the grain");
      hv_check(!inside | (d >= h) | hv_close(a, d / h), "interface inside of the grain");
      hv_check(inside | hv_close(a, 0), "zero outside of the grain");
    }
  if (k == 1)
    {
      hv_check(!inside | (d < h) | hv_close(a, 1), "one inside of the grain");
      hv_check(!inside | (d >= h) | hv_close(a, 0.5 + 0.5 * d / h), "inner half of the interface");
    }
  if (k == 2)
    hv_check(!inside | hv_close(a, 1), "one inside of the grain");
  if (k > 0)
    {
      const double top = k == 1 ? 0.5 : 1;
      hv_check(inside | ((x > -h) & (x < 3 + h) & (y > -h) & (y < 2 + h)) | hv_close(a, 0), "zero outside of the grain");
      hv_check((x <= 0) | (x >= 3) | (y >= 0) | (y <= -h) | hv_close(a, top * (1 + y / h)), "outer half of the interface");
      hv_check((y <= 0) | (y >= 2) | (x <= 3) | (x >= 3 + h) | hv_close(a, top * (1 - (x - 3) / h)), "outer half of the interface");
    }
  hv_check_eq(at(g, p, 0), a, "concentration of a single grain");
  const auto box = g.get_domain_boundaries();
  hv_check((box.first[0] <= 0) & (box.first[1] <= 0) & (box.second[0] >= 3) & (box.second[1] >= 2), "grains are inside of the domain");
}
// two neighbours: one takes over from the other
HV_SPEC(neighbours)
{
  const double w = hv_real("width", 0.1, 0.4);
  hv_assume((w > 0) & (w < 0.5));
  const bool swap = hv_pick("swap", 0, 1);
  Structure  g(w, InterfaceDirection::middle);
  g.add({{{0, 0}, {1, 0}, {1, 2}, {0, 2}}}, swap ? 1 : 0);
  g.add({{{1, 0}, {2, 0}, {2, 2}, {1, 2}}}, swap ? 0 : 1);
  const double x = hv_real("x", 0.5, 1.5), y = hv_real("y", 0.5, 1.5);
  hv_assume((x > 0.5) & (x < 1.5) & (y > 0.5) & (y < 1.5) & (x != 1));
  const Point<2> p(x, y);
  const double   a = at(g, p, 2), b = at(g, p, 3);
  hv_check_eq(a + b, 1, "one grain takes over from the other");
  hv_check(((x < 1) == swap) | (a >= 0.5), "side of the grains");
  hv_check(((x > 1) == swap) | (a <= 0.5), "side of the grains");
  hv_check_eq(at(g, p, 0), a > b ? a : b, "concentration");
}
// a grain of two parts
HV_SPEC(parts)
{
  const double w = hv_real("width", 0.1, 0.4);
  hv_assume((w > 0) & (w < 0.5));
  Structure g(w, InterfaceDirection::middle);
  g.add({{{0, 0}, {1, 0}, {1, 1}, {0, 1}}, {{3, 0}, {4, 0}, {4, 1}, {3, 1}}}, 0);
  g.add({{{6, 0}, {7, 0}, {7, 1}, {6, 1}}}, 0);
  const long   k = hv_pick("part", 0, 2);
  const double x = hv_real("x", 0.25, 0.75), y = hv_real("y", 0.25, 0.75);
  hv_assume((x > 0.25) & (x < 0.75) & (y > 0.25) & (y < 0.75));
  hv_check_eq(at(g, Point<2>(3 * k + x, y), 2), 1, "one inside of all parts and grains");
  hv_check_eq(at(g, Point<2>(3 * k + 1.5 + x, y), 2), 0, "zero in between");
}
