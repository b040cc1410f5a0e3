// The distance of two separated balls is exact, and overlapping balls are recognised.
// hv: assume doubles are reals
// hv: bound balls with centres on one coordinate axis (arbitrary radii and distance)
#include <hv_dealii.h>
#include <pf-applications/grain_tracker/representation.h>
#include <hv.h>
using namespace dealii;
using namespace GrainTracker;

#ifdef HV_SYMBOLIC
// contract of find_ellipsoid_intersection (proved in P10_intersection.cc): the parameter at which
// the line through both reference points leaves the first ball or enters the second one
namespace ghost
{
  double       sgn;
  int          calls;
  unsigned int k;
} // namespace ghost
namespace GrainTracker
{
  template <>
  std::pair<double, bool>
  find_ellipsoid_intersection<2, double>(const Ellipsoid<2, double> &E, const Tensor<1, 2, double> &c1, const Tensor<1, 2, double> &c2)
  {
    const bool   first = ghost::calls++ % 2 == 0;
    const double m = E.get_center()[ghost::k], r = E.get_radii()[0];
    const double x = first ? m + r * ghost::sgn : m - r * ghost::sgn;
    const double p = c1[ghost::k], q = c2[ghost::k];
    hv_check_eq(c1[1 - ghost::k], c2[1 - ghost::k], "the reference points stay on the line of the centres");
    // exactly one of the reference points is inside
    hv_lemma(ghost::sgn * (q - p) > 0, "the reference points keep their order");
    hv_lemma(ghost::sgn * (x - p) > 0, "surface point behind the first reference point");
    hv_lemma(ghost::sgn * (q - x) > 0, "surface point before the second reference point");
    return {(x - p) / (q - p), false};
  }
} // namespace GrainTracker
#endif

template <int dim>
static void balls()
{
  Point<dim>                   c1, c2;
  std::array<Point<dim>, dim>  axes;
  std::array<double, dim>      r1, r2;
  const unsigned int           k = hv_pick("axis", 0, dim - 1);
  const double                 a = hv_real("r1", 0.3, 2.), b = hv_real("r2", 0.3, 2.);
  hv_assume(a > 0);
  hv_assume(b > 0);
  for (unsigned int d = 0; d < dim; ++d)
    {
      axes[d][d] = 1;
      r1[d]      = a;
      r2[d]      = b;
    }
  const double x = hv_real("x", -5, 5), y = hv_real("y", -5, 5);
  c1[k] = x;
  c2[k] = y;
  double d;
  if (x < y)
    d = y - x;
  else
    d = x - y;
  const bool   up = x < y;
  hv_assume(d > a + b);
#ifdef HV_SYMBOLIC
  ghost::sgn   = hv_pick("direction", 0, 1) ? 1. : -1.;
  hv_assume((ghost::sgn > 0) == up);
  ghost::calls = 0;
  ghost::k     = k;
#endif
  hv_assume(d > 1e-5);
  const RepresentationElliptical<dim> A(c1, r1, axes), B(c2, r2, axes);
  hv_check_eq(A.distance(B), d - a - b, "distance of separated balls");
}
HV_SPEC(balls_2d)
{
  balls<2>();
}
