// Grains found in a field: described by ellipsoids they are enclosed by them, whatever frame and moments the decomposition
// of the inertia gives; described by distances they know the ways to their neighbours.
// hv: flags -fno-access-control
// hv: assume deal.II meshes and vectors behave as the stand-ins of hv_mesh.h and hv_fem.h; messages are delivered once and unchanged, processes executed one after the other
// hv: assume eigenvectors gives orthonormal vectors, the intersection with a line and the factors of enlargement obey their contracts (P10_intersection, P11_cover)
// hv: assume a grain has extent in all directions
// hv: bound meshes of six cells on up to two processes, a few shapes, frames and moments
#define HV_DISTRIBUTED
#include <hv.h>
#include <hv_mesh.h>
#include <src/grain_tracker/distributed_stitching.cc>
#include <deal.II/base/symmetric_tensor.h>
namespace dealii
{
  // orthonormal eigenvectors, largest eigenvalue first
  inline std::array<std::pair<double, Tensor<1, 2, double>>, 2> eigenvectors(const SymmetricTensor<2, 2, double> &T)
  {
    std::array<std::pair<double, Tensor<1, 2, double>>, 2> r;
#ifdef HV_SYMBOLIC
    (void)T;
    // moments and axes for which all numbers are rational; what is enclosed does not depend on them
    static const double frames[2][2] = {{1, 0}, {0.6, 0.8}}, moments[2][2] = {{16, 4}, {36, 1}};
    static int          f, m; // same answers on all processes
    if (hvp::rank == 0)
      f = hv_pick("frame", 0, 1), m = hv_pick("moments", 0, 1);
    const double       *a = frames[f];
    for (int k = 0; k < 2; ++k)
      {
        r[k].first     = moments[m][k];
        r[k].second[0] = k == 0 ? a[0] : -a[1];
        r[k].second[1] = k == 0 ? a[1] : a[0];
      }
#else
    const double a = T[0][0], b = T[0][1], d = T[1][1], h = (a - d) / 2, s = std::sqrt(h * h + b * b);
    double       x = b, y = s - h;
    if (b == 0)
      x = a >= d, y = a < d;
    const double n = std::sqrt(x * x + y * y);
    r[0].first     = (a + d) / 2 + s;
    r[1].first     = (a + d) / 2 - s;
    r[0].second[0] = r[1].second[1] = x / n;
    r[0].second[1] = y / n;
    r[1].second[0] = -y / n;
#endif
    return r;
  }
} // namespace dealii
#include <pf-applications/grain_tracker/elliptical_helpers.h>
using namespace dealii;
using namespace GrainTracker;
static const hvm::Cell &cell(const int i)
{
  return hvm::mesh.cells[hvm::mesh.active[i]];
}
// outermost point of the ball around a cell, seen from m
static Point<2> outer(const int i, const Point<2> &m)
{
  const double dx = cell(i).center[0] - m[0], dy = cell(i).center[1] - m[1], n = std::sqrt(dx * dx + dy * dy), s = 1 + cell(i).size / 2 / n;
  return Point<2>(m[0] + s * dx, m[1] + s * dy);
}
static double form(const Ellipsoid<2> &e, const Point<2> &p)
{
  double r = 0;
  for (int k = 0; k < 2; ++k)
    {
      const double d = (p[0] - e.get_center()[0]) * e.get_axes()[k][0] + (p[1] - e.get_center()[1]) * e.get_axes()[k][1];
      r += d * d / (e.get_radii()[k] * e.get_radii()[k]);
    }
  return r;
}
#ifdef HV_SYMBOLIC
namespace GrainTracker
{
  // contract: the centre is within, the second point outside, so there is exactly one crossing
  template <> std::pair<double, bool> find_ellipsoid_intersection<2, double>(const Ellipsoid<2, double> &E, const Tensor<1, 2, double> &c, const Tensor<1, 2, double> &p)
  {
    hv_check((E.get_center()[0] == c[0]) & (E.get_center()[1] == c[1]), "lines start at the centre");
    double q = 0;
    for (int k = 0; k < 2; ++k)
      {
        const double d = (p[0] - c[0]) * E.get_axes()[k][0] + (p[1] - c[1]) * E.get_axes()[k][1];
        q += d * d / (E.get_radii()[k] * E.get_radii()[k]);
      }
    static std::vector<double> known; // same answers on all processes
    static unsigned int        next = 0;
    if (hvp::rank > 0)
      {
        const double t = known.at(next++ % known.size());
        return {t, t == 0};
      }
    if (q <= 1)
      {
        known.push_back(0);
        return {0, true};
      }
    const double t = hv_real("t", 0, 1);
    known.push_back(t);
    hv_assume(t > 0);
    hv_assume(t < 1);
    hv_assume(t * t * q == 1);
    return {t, false};
  }
} // namespace GrainTracker
#endif
#ifdef HV_SYMBOLIC
namespace GrainTracker
{
  // contract: a factor for every particle that makes its ellipsoid enclose the cells with its number
  template <>
  std::vector<double> scale_elliptical_representations<2, hvm::CellVector>(const std::vector<std::unique_ptr<RepresentationElliptical<2>>> &rep,
                                                                           const HvDoFHandler<2> &, const hvm::CellVector &ids, const double none)
  {
    static std::vector<double> first; // all processes get the same factors
    if (hvp::rank > 0)
      return first;
    std::vector<double> s;
    for (unsigned int k = 0; k < rep.size(); ++k)
      {
        const double f = hv_real("factor", 1, 4);
        hv_assume(f >= 1);
        for (unsigned int i = 0; i < ids.v.size(); ++i)
          if (ids.v[i] == k)
            {
              const Ellipsoid<2> &e = rep[k]->ellipsoid;
              const Ellipsoid<2>  larger(e, f);
              const Point<2>      p = outer(i, e.get_center());
              hv_assume(form(larger, p) <= 1);
              if (f <= 1 + 1e-9)
                hv_assume(form(e, p) <= 1 + 3e-9);
            }
        s.push_back(f);
      }
    (void)none;
    first = s;
    return s;
  }
} // namespace GrainTracker
#endif
#include <pf-applications/grain_tracker/tracker.h>
#include <string>
using Track = Tracker<2, double>;
// grains found in a field are enclosed by their descriptions
static const char *const shapes[] = {"110110", "111100", "010111", "110011"};
static void detected(const std::vector<int> owners, const int n_shapes, const GrainRepresentation kind)
{
  hvm::distribute(owners);
  const int n = hvm::mesh.active.size();
  const char *const in = shapes[hv_pick("shape", 0, n_shapes - 1)];
  Track::BlockVectorType solution(1);
  solution.block(0).reinit(n);
  for (int i = 0; i < n; ++i)
    solution.block(0)[i] = in[i] == '1' ? 0.5 : 0.;
  const HvDoFHandler<2>    dh;
  const HvTriangulation<2> tria;
  hvp::run(owners.size(), [&](const int) {
    Track      t(dh, tria, false, true, false, 100, kind, 0.25, 0.3, 0.05, 0., 0, false, false, false);
    const auto grains = t.detect_grains(solution, 1, true);
    hv_check_ieq(grains.size(), 1, "one grain");
    for (const auto &[id, g] : grains)
      {
        const auto &s = g.get_segments().at(0);
        const auto *r = dynamic_cast<const RepresentationElliptical<2> *>(s.representation.get());
        hv_check(r != nullptr, "described by an ellipsoid");
        if (!r)
          continue;
        const auto &e = r->ellipsoid;
        double area = 0, x = 0, y = 0;
        for (int i = 0; i < n; ++i)
          if (in[i] == '1')
            {
              area += cell(i).measure;
              x += cell(i).measure * cell(i).center[0];
              y += cell(i).measure * cell(i).center[1];
            }
        hv_check_eq(e.get_center()[0] * area, x, "centre of the grain");
        hv_check_eq(e.get_center()[1] * area, y, "centre of the grain");
        hv_check_eq(s.get_radius(), std::max(e.get_radii()[0], e.get_radii()[1]), "radius of the grain");
        for (int i = 0; i < n; ++i)
          if (in[i] == '1')
            hv_check(form(e, outer(i, e.get_center())) <= 1 + 1e-6, "the description encloses the grain");
      }
  });
}
HV_SPEC(detected_serial)
{
  hvm::grid(3, 2);
  detected({6}, 2, GrainRepresentation::elliptical);
}
HV_SPEC(detected_two)
{
  hvm::grid(3, 2);
  detected({4, 2}, 4, GrainRepresentation::elliptical);
}
// the moments of inertia that describe a grain of one cell or one row of cells vanish: the ellipsoid has no extent in
// one direction, its form consists of infinities and the distance to every other grain is zero (known finding)
static void inertia(const std::string in)
{
  const int                n = in.size();
  const HvDoFHandler<2>    dh;
  hvp::run(1, [&](const int) {
    hvm::CellVector v;
    v.reinit(std::shared_ptr<const Utilities::MPI::Partitioner>());
    double area = 0;
    Point<2> m;
    for (int i = 0; i < n; ++i)
      {
        v.begin()[i] = in[i] == '1' ? 0. : -1.;
        if (in[i] == '1')
          {
            area += cell(i).measure;
            for (int d = 0; d < 2; ++d)
              m[d] += cell(i).measure * cell(i).center[d];
          }
      }
    m /= area;
    v.update_ghost_values();
    const auto I = compute_particles_inertia(dh, v, std::vector<Point<2>>{m}, -1.);
    hv_check_ieq(I.size(), 3, "moments of one grain");
    hv_check((I[0] > 0) & (I[1] > 0) & (I[0] * I[1] > I[2] * I[2]), "a grain has extent in all directions");
  });
}
HV_SPEC(thick_grains)
{
  hvm::grid(3, 2);
  hvm::distribute({6});
  inertia(shapes[hv_pick("shape", 0, sizeof(shapes) / sizeof(*shapes) - 1)]);
}
HV_SPEC(thin_grains)
{
  hvm::grid(3, 2);
  hvm::distribute({6});
  static const char *const thin[] = {"100000", "011000", "111000", "010010"};
  inertia(thin[hv_pick("shape", 0, 3)]);
}
// separation of grains described by the distance between them
static void wavefront(const std::vector<int> owners)
{
  hvm::distribute(owners);
  const int n = hvm::mesh.active.size();
  std::vector<bool> in[2];
  const int other = hv_pick("other", 0, n - 1);
  for (int i = 0; i < n; ++i)
    {
      in[0].push_back(hv_bool(("in" + std::string(1, char('0' + i))).c_str()));
      in[1].push_back(i == other);
    }
  Track::BlockVectorType solution(2);
  for (int b = 0; b < 2; ++b)
    {
      solution.block(b).reinit(n);
      for (int i = 0; i < n; ++i)
        solution.block(b)[i] = in[b][i] ? 0.5 : 0.;
    }
  const HvDoFHandler<2>    dh;
  const HvTriangulation<2> tria;
  volatile double two = 2;
  const double    h   = 2 / std::sqrt(two); // edge of a cell with the diameter of the ghost mesh
  hvp::run(owners.size(), [&](const int) {
    Track      t(dh, tria, false, true, false, 100, GrainRepresentation::wavefront, 0.25, 0.3, 0.05, 0., 0, false, false, false);
    const auto grains = t.detect_grains(solution, 2, true);
    struct Part
    {
      int                                  op, first, last;
      const GrainTracker::Segment<2>      *s;
    };
    std::vector<Part> parts;
    for (int b = 0; b < 2; ++b)
      for (int i = 0; i < n; ++i)
        if (in[b][i] && (i == 0 || !in[b][i - 1]))
          {
            int j = i;
            while (j + 1 < n && in[b][j + 1])
              ++j;
            const GrainTracker::Segment<2> *found = nullptr;
            for (const auto &[id, g] : grains)
              if ((int)g.get_order_parameter_id() == b && hv_close(g.get_segments().at(0).get_center()[0], (cell(i).center[0] + cell(j).center[0]) / 2))
                found = &g.get_segments().at(0);
            hv_check(found != nullptr, "every grain is found");
            if (found)
              parts.push_back({b, i, j, found});
          }
    for (const Part &p : parts)
      for (const Part &q : parts)
        {
          if (p.s == q.s)
            continue;
          const double d = p.s->distance(*q.s);
          if (p.op == q.op)
            {
              const int left = std::min(p.last, q.last), right = std::max(p.first, q.first);
              bool      free = true;
              for (int i = left + 1; i < right; ++i)
                free = free && !in[p.op][i];
              if (free)
                hv_check_eq(d, h * (right - left - 1), "distance of neighbours of one order parameter is the way between them");
              else
                hv_check(d >= h * (right - left - 1), "never closer than the way between them");
            }
          else if (p.first <= q.last + 1 && q.first <= p.last + 1)
            hv_check_eq(d, 0, "touching grains of different order parameters have no distance");
          else
            hv_check(d > 0, "separate grains are apart");
        }
  });
}
HV_SPEC(ways_serial)
{
  hvm::grid(4, 1);
  wavefront({4});
}
