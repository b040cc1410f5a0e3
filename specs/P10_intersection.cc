// Contract of find_ellipsoid_intersection for an arbitrary quadratic form, checked against the
// contract of the quadratic solver (proved in P10_quadratic.cc).
// hv: flags -fno-access-control
// hv: assume doubles are reals
#include <hv_dealii.h>
#include <pf-applications/grain_tracker/ellipsoid.h>
#include <hv.h>
using namespace dealii;
using namespace GrainTracker;

namespace ghost
{
  double a, f0, f1;
  int    k;
  double t1, t2;
} // namespace ghost

#ifdef HV_SYMBOLIC
namespace GrainTracker::internal
{
  template <> std::pair<double, double> solve_quadratic<double>(double a, double b, double c)
  {
    hv_check_eq(a, ghost::a, "quadratic coefficient along the line");
    hv_check_eq(c, ghost::f0, "value at the first point");
    hv_check_eq(a + b + c, ghost::f1, "value at the second point");
    const double t1 = hv_real("t1", -2, 2), t2 = hv_real("t2", -2, 2);
    const double B  = ghost::f1 - ghost::f0 - ghost::a;
    // only the root that is used later is tied to the polynomial
    ghost::t1 = t1;
    ghost::t2 = t2;
    (void)B;
    if (ghost::k == 0)
      hv_assume(t1 < 0 && t2 > 0 && t2 < 1);
    else if (ghost::k == 1)
      hv_assume(t1 > 0 && t1 < 1 && t2 > 1);
    else
      hv_assume(t1 < 0 && t2 > 1);
    return {t1, t2};
  }
} // namespace GrainTracker::internal
#endif

template <int dim>
static void intersection()
{
  static const char *NP[] = {"p0", "p1", "p2"}, *NQ[] = {"q0", "q1", "q2"}, *NB[] = {"b0", "b1", "b2"};
  Ellipsoid<dim>     E;
  Point<dim>         p, q;
  for (unsigned int i = 0; i < dim; ++i)
    {
      E.b[i] = hv_real(NB[i], -1., 1.);
      p[i]   = hv_real(NP[i], -2., 2.);
      q[i]   = hv_real(NQ[i], -2., 2.);
      for (unsigned int j = i; j < dim; ++j)
        {
          static const char *NA[3][3] = {{"A00", "A01", "A02"}, {"", "A11", "A12"}, {"", "", "A22"}};
          E.A[i][j] = E.A[j][i] = i == j ? hv_real(NA[i][j], 2., 4.) : hv_real(NA[i][j], -0.9, 0.9);
        }
    }
  E.alpha = hv_real("alpha", -3., 0.);
  auto f  = [&](const Point<dim> &x) {
    double s = E.alpha;
    for (unsigned int i = 0; i < dim; ++i)
      {
        s += E.b[i] * x[i];
        for (unsigned int j = 0; j < dim; ++j)
          s += 0.5 * x[i] * E.A[i][j] * x[j];
      }
    return s;
  };
  double a = 0;
  for (unsigned int i = 0; i < dim; ++i)
    for (unsigned int j = 0; j < dim; ++j)
      a += 0.5 * (q[i] - p[i]) * E.A[i][j] * (q[j] - p[j]);
  hv_assume(a > 0); // positive definite, different points
  ghost::a  = a;
  ghost::f0 = f(p);
  ghost::f1 = f(q);
  ghost::k  = hv_pick("case", 0, 2);
  hv_assume(ghost::k == 1 ? ghost::f0 > 0 : ghost::f0 < 0);
  hv_assume(ghost::k == 0 ? ghost::f1 > 0 : ghost::f1 < 0);
  const auto [t, overlap] = find_ellipsoid_intersection<dim, double>(E, p, q);
  if (ghost::k == 2)
    {
      hv_check(overlap, "both points are inside");
      hv_check_eq(t, 0, "no parameter");
      return;
    }
  hv_check(!overlap, "the line crosses the surface");
  hv_check(t >= 0 && t <= 1, "between the two points");
  if (hv_symbolic())
    hv_check_eq(t, ghost::k == 0 ? ghost::t2 : ghost::t1, "the root between the points");
  else
    {
      Point<dim> x;
      for (unsigned int d = 0; d < dim; ++d)
        x[d] = p[d] + t * (q[d] - p[d]);
      hv_check_eq(f(x), 0, "on the surface");
    }
}
HV_SPEC(intersection_2d)
{
  intersection<2>();
}
HV_SPEC(intersection_3d)
{
  intersection<3>();
}
