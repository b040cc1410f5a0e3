// Contract of the distance iteration ("moving balls") for arbitrary quadratic forms, checked against
// the contract of find_ellipsoid_intersection (proved in P10_intersection.cc), and its exactness for balls.
// hv: flags -fno-access-control
// hv: assume doubles are reals
// hv: bound at most three iterations of the distance search
#include <hv_dealii.h>
#include <pf-applications/grain_tracker/representation.h>
#include <hv.h>
#include <vector>
using namespace dealii;
using namespace GrainTracker;

namespace ghost
{
  const void *E1, *E2;
  struct Call
  {
    int    which;
    double c1[3], c2[3];
    double t;
    bool   overlap;
  };
  std::vector<Call> log;

  template <int dim>
  std::pair<double, bool>
  find(const Ellipsoid<dim> &E, const Tensor<1, dim> &c1, const Tensor<1, dim> &c2)
  {
    Call c;
    c.which = &E == E1 ? 1 : &E == E2 ? 2 : 0;
    for (unsigned int d = 0; d < dim; ++d)
      {
        c.c1[d] = c1[d];
        c.c2[d] = c2[d];
      }
    static const char *NT[] = {"t1", "t2", "t3", "t4", "t5", "t6"};
    c.overlap               = hv_bool("overlap");
    c.t                     = 0;
    if (!c.overlap)
      {
        c.t = hv_real(NT[log.size()], 0., 1.);
        hv_assume(c.t >= 0 && c.t <= 1);
      }
    log.push_back(c);
    return {c.t, c.overlap};
  }
} // namespace ghost
namespace GrainTracker
{
  template <>
  std::pair<double, bool>
  find_ellipsoid_intersection<2, double>(const Ellipsoid<2, double> &E, const Tensor<1, 2, double> &c1, const Tensor<1, 2, double> &c2)
  {
    return ghost::find<2>(E, c1, c2);
  }
  template <>
  std::pair<double, bool>
  find_ellipsoid_intersection<3, double>(const Ellipsoid<3, double> &E, const Tensor<1, 3, double> &c1, const Tensor<1, 3, double> &c2)
  {
    return ghost::find<3>(E, c1, c2);
  }
} // namespace GrainTracker

template <int dim>
static Ellipsoid<dim> form(const char *tag)
{
  Ellipsoid<dim> E;
  std::string    s(tag);
  for (unsigned int i = 0; i < dim; ++i)
    {
      E.b[i]      = hv_real((s + "b" + char('0' + i)).c_str(), -1, 1);
      E.center[i] = hv_real((s + "c" + char('0' + i)).c_str(), -1, 1);
      for (unsigned int j = i; j < dim; ++j)
        E.A[i][j] = E.A[j][i] = hv_real((s + "A" + char('0' + i) + char('0' + j)).c_str(), -1, 1);
    }
  E.alpha = hv_real((s + "alpha").c_str(), -1, 1);
  E.norm  = hv_real((s + "norm").c_str(), 1, 2);
  E.r_max = hv_real((s + "rmax").c_str(), 1, 2);
  hv_assume(E.norm > 0);
  hv_assume(E.r_max > 0);
  return E;
}

template <int dim>
static void iteration(const unsigned int max_iter)
{
  const Ellipsoid<dim> E1 = form<dim>("e1"), E2 = form<dim>("e2");
  ghost::E1 = &E1;
  ghost::E2 = &E2;
  ghost::log.clear();
  double cc = 0;
  for (unsigned int d = 0; d < dim; ++d)
    cc += (E1.center[d] - E2.center[d]) * (E1.center[d] - E2.center[d]);
  hv_assume(cc > 1);
  const double tol = 1e-6;
  const auto [dist, iter, converged] = distance<dim, double>(E1, E2, true, false, tol, max_iter);
  hv_check(iter <= max_iter, "number of iterations");
  const auto &log = ghost::log;
  hv_check(log.size() > 0, "at least one iteration");
  double c1[3], c2[3];
  for (unsigned int d = 0; d < dim; ++d)
    {
      c1[d] = E1.center[d];
      c2[d] = E2.center[d];
    }
  double       d0    = (E2.center - E1.center).norm();
  double       last2 = cc;
  unsigned int k     = 0;
  bool         over = false, conv = false;
  for (unsigned int it = 0; it < max_iter && k < log.size(); ++it)
    {
      hv_check(!over && !conv, "no further iteration once the answer is known");
      const auto &l1 = log[k++];
      hv_check_ieq(l1.which, 1, "first body first");
      for (unsigned int d = 0; d < dim; ++d)
        {
          hv_check_eq(l1.c1[d], c1[d], "reference point of the first body");
          hv_check_eq(l1.c2[d], c2[d], "reference point of the second body");
        }
      if (l1.overlap)
        {
          over = true;
          continue;
        }
      hv_check(k < log.size(), "second body is intersected, too");
      const auto &l2 = log[k++];
      hv_check_ieq(l2.which, 2, "second body second");
      for (unsigned int d = 0; d < dim; ++d)
        {
          hv_check_eq(l2.c1[d], c1[d], "reference point of the first body");
          hv_check_eq(l2.c2[d], c2[d], "reference point of the second body");
        }
      if (l2.overlap || l2.t < l1.t)
        {
          over = true;
          continue;
        }
      double x1[3], x2[3];
      last2 = 0;
      for (unsigned int d = 0; d < dim; ++d)
        {
          x1[d] = c1[d] + l1.t * (c2[d] - c1[d]);
          x2[d] = c1[d] + l2.t * (c2[d] - c1[d]);
          last2 += (x1[d] - x2[d]) * (x1[d] - x2[d]);
        }
      Tensor<1, dim> C1, C2;
      for (unsigned int d = 0; d < dim; ++d)
        {
          C1[d] = l1.c1[d];
          C2[d] = l1.c2[d];
        }
      const auto       C = C2 - C1;
      const Point<dim> X1(C1 + l1.t * C), X2(C1 + l2.t * C);
      const double     d1 = X1.distance(X2);
      conv  = std::abs(d1 - d0) / d0 < tol;
      d0    = d1;
      // the next reference points: centres of the balls that touch the surfaces from inside
      for (unsigned int d = 0; d < dim; ++d)
        {
          double g1 = E1.b[d], g2 = E2.b[d];
          for (unsigned int e = 0; e < dim; ++e)
            {
              g1 += E1.A[d][e] * x1[e];
              g2 += E2.A[d][e] * x2[e];
            }
          c1[d] = x1[d] - g1 / E1.norm;
          c2[d] = x2[d] - g2 / E2.norm;
        }
    }
  hv_check(k == log.size(), "every intersection belongs to an iteration");
  if (over)
    {
      hv_check_eq(dist, 0, "overlapping bodies");
      hv_check(converged, "an overlap is final");
    }
  else
    {
      hv_check_eq(dist * dist, last2, "distance of the last pair of surface points");
      hv_check_le(0, dist, "distance is not negative");
      hv_check(converged == conv, "converged exactly if the distance has settled");
      if (!conv)
        hv_check_ieq(iter, max_iter, "iterates until the limit otherwise");
    }
}
HV_SPEC(iteration_2d)
{
  iteration<2>(hv_pick("limit", 1, 2));
}
HV_SPEC(iteration_3d)
{
  iteration<3>(1);
}
