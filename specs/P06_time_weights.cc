// Contracts of the implicit and explicit time schemes.
#include <algorithm>
#include <map>
#include <memory>
#include <string>
#include <pf-applications/time_integration/time_schemes.h>
#include <hv.h>
using namespace TimeIntegration;

// effective order m out of scheme order k: the remaining history steps are zero
template <typename S>
static void
exact(unsigned int order)
{
  S scheme;
  hv_check_ieq(scheme.get_order(), order, "scheme reports its order");
  const long          m = hv_pick("effective_order", 1, order);
  std::vector<double> dt(order, 0.);
  std::vector<double> t(order + 1, 0.);
  for (long i = 0; i < m; ++i)
    {
      dt[i] = hv_real("dt", 0.01, 3);
      hv_assume(dt[i] > 0);
      t[i + 1] = t[i] - dt[i];
    }
  const std::vector<double> w = scheme.compute_weights(dt);
  hv_check_ieq(w.size(), order + 1, "one weight per history value");
  // derivative at t=0 of the monomials 1, t, t^2, ..., t^m
  for (long p = 0; p <= m; ++p)
    {
      double d = 0;
      for (long i = 0; i <= m; ++i)
        {
          double v = 1;
          for (long k = 0; k < p; ++k)
            v *= t[i];
          d += w[i] * v;
        }
      hv_check_eq(d, p == 1 ? 1. : 0., "weights differentiate polynomials up to the scheme order exactly");
    }
  for (unsigned int i = m + 1; i <= order; ++i)
    hv_check_eq(w[i], 0., "history that is not available yet has zero weight");
  hv_check(w[0] > 0, "weight of the new solution is positive");
  hv_cover("end");
}
HV_SPEC(bdf1) { exact<BDF1Scheme<double>>(1); hv_cover("end"); }
HV_SPEC(bdf2) { exact<BDF2Scheme<double>>(2); hv_cover("end"); }
HV_SPEC(bdf3) { exact<BDF3Scheme<double>>(3); hv_cover("end"); }

// the order conditions of an explicit scheme applied to y' = l y, and to y' = t^k
static void
explicit_order(const ExplicitScheme &s, int order)
{
  const auto   st = s.get_stages();
  const double z  = hv_real("z", -1, 1); // z = h*lambda
  // as the time marching does it: y_i = y_n + p2 f_(i-1); y += p1 f_i
  double arg = 1, y = 1;
  for (unsigned int i = 0; i < st.size(); ++i)
    {
      const double f = z * arg;
      y += st[i].first * f;
      arg = 1 + st[i].second * f;
    }
  double e = 1, term = 1;
  for (int k = 1; k <= order; ++k)
    {
      term = term * z / k;
      e += term;
    }
  hv_check_eq(y, e, "stability function is the truncated exponential of the scheme order");
  hv_check_eq(st.back().second, 0., "last stage does not advance");
  // quadrature: abscissae are the cumulative p2 of the previous stage
  for (int k = 0; k < order; ++k)
    {
      double q = 0, c = 0;
      for (unsigned int i = 0; i < st.size(); ++i)
        {
          double v = 1;
          for (int j = 0; j < k; ++j)
            v *= c;
          q += st[i].first * v;
          c = st[i].second;
        }
      hv_check_eq(q, 1. / (k + 1), "stage weights integrate polynomials below the scheme order exactly");
    }
  hv_cover("end");
}
HV_SPEC(forward_euler) { ForwardEulerScheme s; explicit_order(s, 1); hv_cover("end"); }
HV_SPEC(runge_kutta_4) { RungeKutta4Scheme s; explicit_order(s, 4); hv_cover("end"); }

HV_SPEC(factory)
{
  const long  k  = hv_pick("scheme", 0, 4);
  const char *nm = k == 0 ? "BDF1" : k == 1 ? "BDF2" : k == 2 ? "BDF3" : k == 3 ? "FE" : "RK4";
  auto        v  = create_time_scheme<double>(nm);
  auto        im = v.template try_take<ImplicitScheme<double>>();
  if (k <= 2)
    {
      hv_check(im != nullptr, "implicit scheme name yields an implicit scheme");
      hv_check_ieq(im->get_order(), k + 1, "scheme name yields the scheme of that order");
      auto cl = im->clone();
      hv_check_ieq(cl->get_order(), k + 1, "clone is the same scheme");
    }
  else
    {
      hv_check(im == nullptr, "explicit scheme name yields no implicit scheme");
      auto ex = v.template try_take<ExplicitScheme>();
      hv_check(ex != nullptr, "explicit scheme name yields an explicit scheme");
      hv_check_ieq(ex->get_stages().size(), k == 3 ? 1 : 4, "number of stages");
    }
  hv_cover("end");
}
