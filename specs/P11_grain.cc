// Contracts of grains and segments for arbitrary geometry: representations are ghost ones with
// arbitrary distances; distances of centres and of spheres are arbitrary symmetric functions of the
// two segments (contracts of Point::distance and distance_between_spheres, see P11_spheres.cc).
// hv: flags -fno-access-control
// hv: assume doubles are reals
// hv: bound grains with up to three segments
#include <hv_dealii.h>
#include <deal.II/base/point.h>
#include <hv.h>
namespace ghost
{
  // centres are known by their number; row: first grain, column: second grain
  double C[4][4], S[4][4];
  double at(double (*t)[4], const double a, const double b)
  {
    const int i = a, j = b;
    hv_check((i < 10) != (j < 10), "distance between segments of different grains");
    return i < 10 ? t[i][j - 10] : t[j][i - 10];
  }
} // namespace ghost
namespace dealii
{
  template <>
  double Point<2, double>::distance(const Point<2, double> &o) const
  {
    return ghost::at(ghost::C, (*this)[0], o[0]);
  }
  template <>
  double Point<3, double>::distance(const Point<3, double> &o) const
  {
    return ghost::at(ghost::C, (*this)[0], o[0]);
  }
} // namespace dealii
#include <pf-applications/grain_tracker/grain.h>
#include <hv.h>
#include <string>
using namespace dealii;
using namespace GrainTracker;
namespace ghost
{
  template <int dim>
  double spheres(const Point<dim> &a, double ra, const Point<dim> &b, double rb);
}
namespace GrainTracker
{
  template <>
  double distance_between_spheres<2, double>(const Point<2, double> &a, const double ra, const Point<2, double> &b, const double rb)
  {
    return ghost::spheres<2>(a, ra, b, rb);
  }
  template <>
  double distance_between_spheres<3, double>(const Point<3, double> &a, const double ra, const Point<3, double> &b, const double rb)
  {
    return ghost::spheres<3>(a, ra, b, rb);
  }
} // namespace GrainTracker

// every number is far below the largest floating point number, which stands for "none"
static void small(double x)
{
  hv_assume(x < 1e200);
  hv_assume(x > -1e200);
}
static double R(const std::string &n, double lo = -3, double hi = 3)
{
  return hv_real(n.c_str(), lo, hi);
}

// arbitrary description of a body: only its distances are known
struct GhostRep : public Representation
{
  int    side, index; // 0: this grain, 1: the other
  double (*dist)[4];
  bool   sphere;
  GhostRep(int s, int i, double (*d)[4], bool t)
    : side(s), index(i), dist(d), sphere(t)
  {}
  double distance(const Representation &other) const override
  {
    const auto &o = static_cast<const GhostRep &>(other);
    hv_check(o.side != side, "distance to a segment of the other grain");
    return side == 0 ? dist[index][o.index] : dist[o.index][index];
  }
  bool trivial() const override
  {
    return sphere;
  }
  void print(std::ostream &) const override {}
  std::unique_ptr<Representation> clone() const override
  {
    return std::make_unique<GhostRep>(*this);
  }
  void save(std::vector<double> &) const override {}
};

template <int dim>
static Point<dim> point(const std::string &n)
{
  Point<dim> p;
  for (unsigned int d = 0; d < dim; ++d)
    p[d] = R(n + char('0' + d));
  return p;
}

template <int dim>
struct Ghost
{
  int        n;
  Point<dim> c[4];
  double     r[4], m[4], v[4];
  Grain<dim> g;
  double     dist2(int i, const Ghost &o, int j) const
  {
    double s = 0;
    for (unsigned int d = 0; d < dim; ++d)
      s += (c[i][d] - o.c[j][d]) * (c[i][d] - o.c[j][d]);
    return s;
  }
};

namespace ghost
{
  double rad[2][4];
  template <int dim>
  double spheres(const Point<dim> &a, double ra, const Point<dim> &b, double rb)
  {
    const int i = a[0], j = b[0];
    hv_check_eq(ra, rad[i / 10][i % 10], "radius belongs to the centre");
    hv_check_eq(rb, rad[j / 10][j % 10], "radius belongs to the centre");
    return at(S, a[0], b[0]);
  }
  // arbitrary geometry for n and m segments
  void geometry(int n, int m)
  {
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < m; ++j)
        {
          C[i][j] = R(std::string("C") + char('0' + i) + char('0' + j), 0, 3);
          S[i][j] = R(std::string("S") + char('0' + i) + char('0' + j));
          small(C[i][j]);
          small(S[i][j]);
        }
  }
} // namespace ghost

static int first_number = 0; // number of the first segment
// grain with n segments; mode 0: spheres through the short interface, 1: ghost representations,
// 2: segments without representation
template <int dim>
static void
make(Ghost<dim> &G, const std::string &t, int side, int n, int mode, double (*dist)[4], bool (*triv)(int, int), unsigned int id, unsigned int op, unsigned int oldop)
{
  G.n = n;
  G.g = Grain<dim>(id, op, oldop);
  for (int i = 0; i < n; ++i)
    {
      const std::string s = t + char('0' + i);
      G.c[i][0]           = i + first_number + 10 * side;
      G.r[i]              = R(s + "r", 0.1, 1.);
      G.m[i]              = R(s + "m", 0.1, 1.);
      G.v[i]              = R(s + "v", 0.1, 1.);
      hv_assume(G.r[i] > 0);
      ghost::rad[side][i + first_number] = G.r[i];
      small(G.r[i]);
      small(G.v[i]);
      if (mode == 0)
        G.g.add_segment(G.c[i], G.r[i], G.m[i], G.v[i]);
      else if (mode == 1)
        G.g.add_segment(Segment<dim>(G.c[i], G.r[i], G.m[i], G.v[i], std::make_unique<GhostRep>(side, i, dist, triv(side, i))));
      else
        {
          const Segment<dim> seg(G.c[i], G.r[i], G.m[i], G.v[i], nullptr);
          G.g.add_segment(seg);
        }
    }
}
static bool no(int, int)
{
  return false;
}
static bool yes(int, int)
{
  return true;
}

// measures reflect all segments
template <int dim>
static void measures(int n, int mode)
{
  static double D[4][4];
  Ghost<dim>    G;
  make<dim>(G, "s", 0, n, mode, D, no, 7, 2, 3);
  const auto &g = G.g;
  hv_check_ieq(g.n_segments(), n, "number of segments");
  hv_check_ieq(g.get_segments().size(), n, "number of segments");
  hv_check_ieq(g.get_grain_id(), 7, "grain id");
  hv_check_ieq(g.get_order_parameter_id(), 2, "order parameter");
  hv_check_ieq(g.get_old_order_parameter_id(), 3, "old order parameter");
  double sum = 0;
  bool   r_hit = n == 0, v_hit = n == 0;
  for (int i = 0; i < n; ++i)
    {
      const auto &s = g.get_segments()[i];
      sum += G.m[i];
      hv_check(g.get_max_radius() >= G.r[i], "largest radius");
      hv_check(g.get_max_value() >= G.v[i], "largest value");
      r_hit = r_hit | hv_close(g.get_max_radius(), G.r[i]);
      v_hit = v_hit | hv_close(g.get_max_value(), G.v[i]);
      hv_check_eq(s.get_radius(), G.r[i], "segment radius");
      hv_check_eq(s.get_measure(), G.m[i], "segment measure");
      hv_check_eq(s.get_max_value(), G.v[i], "segment value");
      for (unsigned int d = 0; d < dim; ++d)
        hv_check_eq(s.get_center()[d], G.c[i][d], "segment centre");
      hv_check(s.trivial() == (mode != 1), "kind of description");
    }
  hv_check(r_hit, "largest radius is one of the radii");
  hv_check(v_hit, "largest value is one of the values");
  hv_check_eq(g.get_measure(), sum, "total measure");
  hv_check(g.get_dynamics() == Grain<dim>::None, "no dynamics yet");
  hv_check(g.transfer_buffer() >= std::numeric_limits<double>::max() / 4, "without neighbours the buffer is not limited");

  // identities can be changed one by one
  Grain<dim> h(g);
  h.set_grain_id(11);
  h.set_order_parameter_id(5);
  h.set_dynamics(Grain<dim>::Growing);
  hv_check_ieq(h.get_grain_id(), 11, "new grain id");
  hv_check_ieq(h.get_order_parameter_id(), 5, "new order parameter");
  hv_check_ieq(h.get_old_order_parameter_id(), 3, "old order parameter is kept");
  hv_check(h.get_dynamics() == Grain<dim>::Growing, "new dynamics");
  hv_check_ieq(g.get_order_parameter_id(), 2, "copies are independent");
  hv_check_eq(h.get_measure(), g.get_measure(), "copies keep the measure");
  hv_check_ieq(h.n_segments(), n, "copies keep the segments");
  hv_check(h.get_max_radius() == g.get_max_radius(), "copies keep the radius");
  Grain<dim> k(4, 6);
  hv_check_ieq(k.get_grain_id(), 4, "grain id");
  hv_check_ieq(k.get_order_parameter_id(), 6, "order parameter");
  hv_check_ieq(k.get_old_order_parameter_id(), 6, "old order parameter is the current one");
}
HV_SPEC(measures_2d)
{
  measures<2>(hv_pick("n", 0, 3), hv_pick("mode", 0, 2));
}
HV_SPEC(measures_3d)
{
  measures<3>(hv_pick("n", 0, 2), hv_pick("mode", 0, 1));
}

// m is the minimum of the n numbers
static void is_min(double m, const double *x, int n, const char *le, const char *hit)
{
  bool h = n == 0;
  for (int i = 0; i < n; ++i)
    {
      hv_check(m <= x[i], le);
      h = h | hv_close(m, x[i]);
    }
  hv_check(h, hit);
}

// distances are minima over all pairs, for any descriptions
template <int dim>
static void distances(int n, int m)
{
  static double D[4][4];
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < m; ++j)
      D[i][j] = R(std::string("D") + char('0' + i) + char('0' + j));
  ghost::geometry(n, m);
  Ghost<dim> A, B;
  make<dim>(A, "a", 0, n, 1, D, no, 1, 0, 0);
  make<dim>(B, "b", 1, m, 1, D, no, 2, 0, 0);
  double x[16], y[16], z[16];
  int    k = 0;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < m; ++j, ++k)
      {
        x[k] = D[i][j];
        y[k] = ghost::C[i][j];
        z[k] = ghost::S[i][j];
        small(x[k]);
        small(y[k]);
        small(z[k]);
      }
  const int kind = hv_pick("kind", 0, 2);
  if (kind == 0)
    is_min(A.g.distance(B.g), x, k, "distance is at most that of each pair", "distance is attained by a pair");
  else if (kind == 1)
    is_min(A.g.distance_centers(B.g), y, k, "centre distance is at most that of each pair", "centre distance is attained by a pair");
  else
    is_min(A.g.distance_lower_bound(B.g), z, k, "lower bound is at most that of each pair", "lower bound is attained by a pair");
}
HV_SPEC(distances_2d)
{
  const int n = hv_pick("n", 1, 2), m = hv_pick("m", 1, 2);
  distances<2>(n, m);
}
HV_SPEC(distances_3d)
{
  const int n = hv_pick("n", 1, 2);
  distances<3>(n, 1);
}
HV_SPEC(distances_13)
{
  distances<2>(1, 3);
}

// symmetric, for any descriptions with symmetric distances
HV_SPEC(symmetry)
{
  static double D[4][4];
  const int     n = hv_pick("n", 1, 2), m = hv_pick("m", 1, 2);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < m; ++j)
      D[i][j] = R(std::string("D") + char('0' + i) + char('0' + j));
  ghost::geometry(n, m);
  Ghost<2> A, B;
  make<2>(A, "a", 0, n, 1, D, no, 1, 0, 0);
  make<2>(B, "b", 1, m, 1, D, no, 2, 0, 0);
  const int kind = hv_pick("kind", 0, 2);
  if (kind == 0)
    hv_check_eq(A.g.distance(B.g), B.g.distance(A.g), "distance is symmetric");
  else if (kind == 1)
    hv_check_eq(A.g.distance_centers(B.g), B.g.distance_centers(A.g), "centre distance is symmetric");
  else
    hv_check_eq(A.g.distance_lower_bound(B.g), B.g.distance_lower_bound(A.g), "lower bound is symmetric");
}
// two grains overlap when they are closer than the sum of both buffers
HV_SPEC(overlaps)
{
  static double D[4][4];
  const int     n = hv_pick("n", 1, 2), kind = hv_pick("kind", 0, 3);
  for (int i = 0; i < n; ++i)
    D[i][0] = R(std::string("D") + char('0' + i) + '0');
  ghost::geometry(n, 1);
  Ghost<2> A, B;
  // kind 0: all spheres, 1: all general, 2 and 3: only one grain has a general description
  make<2>(A, "a", 0, n, kind == 0 ? 0 : 1, D, kind == 3 ? yes : no, 1, 0, 0);
  make<2>(B, "b", 1, 1, kind == 0 ? 0 : 1, D, kind == 2 ? yes : no, 2, 0, 0);
  const double ratio = R("ratio", 0, 0.5), fixed = R("fixed", 0, 0.5);
  const double lower = A.g.distance_lower_bound(B.g), exact = A.g.distance(B.g);
  const double limit = ratio * A.g.get_max_radius() + ratio * B.g.get_max_radius() + fixed;
  hv_assume(exact >= lower); // the enclosing spheres are closer than the bodies
  const bool o = A.g.overlaps(B.g, ratio, fixed);
  if (exact < limit)
    hv_check(o, "grains closer than the buffers overlap");
  if (exact > limit)
    hv_check(!o, "grains farther apart than the buffers do not overlap");
}
// the buffer that may be moved with a grain reaches half way to the nearest neighbour
HV_SPEC(neighbours)
{
  static double D[4][4];
  Ghost<2>      A, B, C;
  const int     n = hv_pick("n", 1, 2);
  first_number = 0;
  ghost::geometry(n, 3);
  make<2>(A, "a", 0, n, 0, D, no, 1, 4, 5);
  make<2>(B, "b", 1, 1, 0, D, no, 2, 4, 6);
  first_number = 1;
  make<2>(C, "c", 1, 2, 0, D, no, 3, 9, 5);
  first_number = 0;
  const double b = A.g.distance_lower_bound(B.g), c = A.g.distance_lower_bound(C.g);
  small(b);
  small(c);
  A.g.add_neighbor(B.g);
  hv_check_eq(A.g.transfer_buffer(), b > 0 ? b / 2 : 0., "half the distance to the neighbour");
  A.g.add_neighbor(C.g);
  const double m = b < c ? b : c;
  hv_check_eq(A.g.transfer_buffer(), m > 0 ? m / 2 : 0., "half the distance to the nearest neighbour");
  hv_check(B.g.transfer_buffer() >= std::numeric_limits<double>::max() / 4, "the neighbour itself is not changed");
}

template <typename F>
static bool throws(F &&f)
{
  try
    {
      f();
    }
  catch (...)
    {
      return true;
    }
  return false;
}
HV_SPEC(neighbour_errors)
{
  static double D[4][4];
  Ghost<2>      A, B;
  const long    op = hv_int("op", 0, 5), old = hv_int("old", 0, 5);
  make<2>(A, "a", 0, 1, 0, D, no, 1, 2, 3);
  make<2>(B, "b", 1, 1, 0, D, no, 2, op, old);
  hv_check(throws([&]() { A.g.add_neighbor(A.g); }), "a grain is no neighbour of itself");
  hv_check(throws([&]() { A.g.add_neighbor(B.g); }) == (op != 2 && old != 3), "neighbours share an order parameter, now or before");
  const Segment<2> s(A.c[0], A.r[0], A.m[0], A.v[0], nullptr);
  hv_check(throws([&]() { s.distance(B.g.get_segments()[0]); }), "no distance without a description");
}

