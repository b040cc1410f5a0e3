// Descriptions by ellipsoids enclose their grains: factors of enlargement for every ellipsoid and labelling of the cells.
// hv: flags -fno-access-control
// hv: assume deal.II meshes and vectors behave as the stand-ins of hv_mesh.h and hv_fem.h; messages are delivered once and unchanged, processes executed one after the other
// hv: assume the intersection of a line with an ellipsoid obeys its contract, proved in P10_intersection
// hv: assume a grain has extent in all directions and no cell has its centre exactly in the centre of its grain
// hv: bound meshes of up to six cells on up to two processes, two particles
#define HV_DISTRIBUTED
#include <hv.h>
#include <hv_mesh.h>
#include <src/grain_tracker/distributed_stitching.cc>
#include <pf-applications/grain_tracker/elliptical_helpers.h>
#include <string>
using namespace dealii;
using namespace GrainTracker;
using Ids   = hvm::CellVector;
#ifdef HV_SYMBOLIC
namespace GrainTracker
{
  // contract: the centre is within, the second point outside, so there is exactly one crossing
  template <> std::pair<double, bool> find_ellipsoid_intersection<2, double>(const Ellipsoid<2, double> &E, const Tensor<1, 2, double> &c, const Tensor<1, 2, double> &p)
  {
    hv_check((E.get_center()[0] == c[0]) & (E.get_center()[1] == c[1]), "lines start at the centre");
    double q = 0;
    for (int k = 0; k < 2; ++k)
      {
        const double d = (p[0] - c[0]) * E.get_axes()[k][0] + (p[1] - c[1]) * E.get_axes()[k][1];
        q += d * d / (E.get_radii()[k] * E.get_radii()[k]);
      }
    hv_check(q > 1, "lines end outside");
    const double t = hv_real("t", 0, 1);
    hv_assume(t > 0);
    hv_assume(t < 1);
    hv_assume(t * t * q == 1);
    return {t, false};
  }
} // namespace GrainTracker
#endif
static std::string num(int i)
{
  return std::string(1, char('0' + i));
}
static const hvm::Cell &cell(const int i)
{
  return hvm::mesh.cells[hvm::mesh.active[i]];
}
// outermost point of the ball around a cell, seen from m
static Point<2> outer(const int i, const Point<2> &m)
{
  const double dx = cell(i).center[0] - m[0], dy = cell(i).center[1] - m[1], n = std::sqrt(dx * dx + dy * dy), s = 1 + cell(i).size / 2 / n;
  return Point<2>(m[0] + s * dx, m[1] + s * dy);
}
static double form(const Ellipsoid<2> &e, const Point<2> &p)
{
  double r = 0;
  for (int k = 0; k < 2; ++k)
    {
      const double d = (p[0] - e.get_center()[0]) * e.get_axes()[k][0] + (p[1] - e.get_center()[1]) * e.get_axes()[k][1];
      r += d * d / (e.get_radii()[k] * e.get_radii()[k]);
    }
  return r;
}
static void scales(const std::vector<int> owners, const bool turned)
{
  hvm::distribute(owners);
  const int        n = hvm::mesh.active.size();
  std::vector<int> label;
  for (int i = 0; i < n; ++i)
    label.push_back(hv_pick(("label" + num(i)).c_str(), -1, 1));
  const Point<2>             m[2] = {{1.5, 0.25}, {2.25, 1.75}};
  std::vector<Ellipsoid<2>>  e;
  for (int k = 0; k < 2; ++k)
    {
      const double r0 = hv_real(("r" + num(k)).c_str(), 0.5, 4), r1 = 2 * r0;
      hv_assume(r0 > 0);
      e.emplace_back(m[k], std::array<double, 2>{{r0, r1}},
                     turned ? std::array<Point<2>, 2>{{Point<2>(0.6, 0.8), Point<2>(-0.8, 0.6)}} : std::array<Point<2>, 2>{{Point<2>(1, 0), Point<2>(0, 1)}});
    }
  const HvDoFHandler<2> dh;
  hvp::run(owners.size(), [&](const int) {
    Ids v;
    v.reinit(std::shared_ptr<const Utilities::MPI::Partitioner>());
    for (double *x = v.begin(); x != v.end(); ++x)
      *x = label[x - v.v.data()];
    v.update_ghost_values();
    std::vector<std::unique_ptr<RepresentationElliptical<2>>> rep;
    for (int k = 0; k < 2; ++k)
      rep.push_back(std::make_unique<RepresentationElliptical<2>>(e[k]));
    const auto s = scale_elliptical_representations(rep, dh, v, -1.);
    hv_check_ieq(s.size(), 2, "one factor per particle");
    for (int k = 0; k < 2; ++k)
      {
        hv_check(s[k] >= 1, "descriptions are never made smaller");
        bool needed = false;
        for (int i = 0; i < n; ++i)
          if (label[i] == k)
            {
              const double q = form(e[k], outer(i, m[k]));
              hv_check(q <= s[k] * s[k] + 2.1e-9, "the enlarged description encloses the cell");
              if (hv_close(q, s[k] * s[k]))
                needed = true;
            }
        if (s[k] != 1)
          hv_check(needed, "no larger than needed");
      }
  });
}
HV_SPEC(enlarged)
{
  hvm::grid(3, 1);
  scales({3}, false);
}
HV_SPEC(enlarged_turned)
{
  hvm::grid(2, 1);
  scales({2}, true);
}
HV_SPEC(enlarged_two)
{
  hvm::grid(2, 1);
  scales({1, 1}, false);
}
