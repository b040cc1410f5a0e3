// Contract of the quadratic solver (relied upon in P10_distance.cc): both roots, in ascending order,
// and where they lie given the signs of the polynomial at 0 and 1.
// hv: assume doubles are reals
#include <hv_dealii.h>
#include <pf-applications/grain_tracker/ellipsoid.h>
#include <hv.h>
using namespace GrainTracker;

HV_SPEC(roots)
{
  const double a = hv_real("a", 0.1, 3.), c = hv_real("c", -3., 3.), s = hv_real("s", -3., 3.);
  const double b = s - a - c; // s is the value at one
  hv_assume(a > 0);
  const int k = hv_pick("case", 0, 2);
  if (k == 0)
    hv_assume(c < 0 && s > 0);
  else if (k == 1)
    hv_assume(c > 0 && s < 0);
  else
    hv_assume(c < 0 && s < 0);
  // the discriminant is positive in all three cases
  if (k == 1)
    hv_lemma(b * b >= (a + c) * (a + c), "middle coefficient");
  hv_lemma(b * b - 4 * a * c > 0, "discriminant");
  const auto r = GrainTracker::internal::solve_quadratic<double>(a, b, c);
  hv_check_eq(a * r.first * r.first + b * r.first + c, 0, "first root");
  hv_check_eq(a * r.second * r.second + b * r.second + c, 0, "second root");
  hv_check(r.first < r.second, "ascending order");
  if (k == 0)
    {
      hv_check(r.first < 0, "leaving: first root is negative");
      hv_check(r.second > 0 && r.second < 1, "leaving: second root is between");
    }
  else if (k == 1)
    {
      hv_check(r.first > 0 && r.first < 1, "entering: first root is between");
      hv_check(r.second > 1, "entering: second root is behind");
    }
  else
    {
      hv_check(r.first < 0, "inside: first root is negative");
      hv_check(r.second > 1, "inside: second root is behind");
    }
}

HV_SPEC(collinear)
{
  // two vectors pass exactly if the angle between them (up to direction) is small
  dealii::Tensor<1, 2, double> v, w;
  v[0] = hv_real("v0", -2., 2.);
  v[1] = hv_real("v1", -2., 2.);
  w[0] = hv_real("w0", -2., 2.);
  w[1] = hv_real("w1", -2., 2.);
  const double eps = hv_real("eps", 0., 1.);
  const double l = 1 - eps * eps / 2;
  const double d = v[0] * w[0] + v[1] * w[1];
  hv_check(GrainTracker::internal::crit<2, double>(v, w, eps) == (d * d > l * l * ((v[0] * v[0] + v[1] * v[1]) * (w[0] * w[0] + w[1] * w[1]))), "collinearity test");
}
