// Contracts of the one-dimensional functions.
// hv: assume doubles are reals
// hv: bound tables with up to 4 knots with pairwise different abscissae, given in every order
#include <algorithm>
#include <map>
#include <memory>
#include <utility>
#include <vector>
#include <pf-applications/numerics/functions.h>
#include <hv.h>

struct Table
{
  int                                         n;
  double                                      x[4], y[4]; // ascending
  std::unique_ptr<Function1DPiecewise<double>> f;
  Table(int n, bool linear, bool from_map)
    : n(n)
  {
    for (int i = 0; i < n; ++i)
      {
        x[i] = hv_real("x", -3 + 2 * i, -1.1 + 2 * i);
        y[i] = hv_real("y", -2, 2);
        if (i > 0)
          hv_assume(x[i - 1] < x[i]);
      }
    if (from_map)
      {
        std::map<double, double> m;
        for (int i = n - 1; i >= 0; --i)
          m[x[i]] = y[i];
        f = std::make_unique<Function1DPiecewise<double>>(m, linear);
        return;
      }
    f = std::make_unique<Function1DPiecewise<double>>(linear);
    // every order of insertion
    int order[4], left[4] = {0, 1, 2, 3};
    for (int k = 0; k < n; ++k)
      {
        const int c = n - k == 1 ? 0 : hv_pick("next", 0, n - k - 1);
        order[k]    = left[c];
        for (int j = c; j + 1 < n - k; ++j)
          left[j] = left[j + 1];
      }
    for (int k = 0; k < n; ++k)
      f->add_pair(x[order[k]], y[order[k]]);
  }
  double
  segment(int i, double t) const
  {
    return y[i] + (y[i + 1] - y[i]) * (t - x[i]) / (x[i + 1] - x[i]);
  }
};

static void
table(bool from_map, int n)
{
  const bool  linear = hv_pick("linear", 0, 1);
  const Table t(n, linear, from_map);
  for (int i = 0; i < n; ++i)
    hv_check_eq(t.f->value(t.x[i]), t.y[i], "the function passes through every knot");
  const double s = hv_real("query", -6, 8);
  const double v = t.f->value(s);
  if (s < t.x[0])
    {
      hv_check_eq(v, linear && n > 1 ? t.segment(0, s) : t.y[0], "continuation before the first knot");
      hv_cover("before");
    }
  else if (s > t.x[n - 1])
    {
      hv_check_eq(v, linear && n > 1 ? t.segment(n - 2, s) : t.y[n - 1], "continuation after the last knot");
      hv_cover("after");
    }
  else
    for (int i = 0; i + 1 < n; ++i)
      if (t.x[i] <= s && s <= t.x[i + 1])
        hv_check_eq(v, t.segment(i, s), "linear between neighbouring knots");
  hv_cover("end");
}
HV_SPEC(inserted) { table(false, hv_pick("n", 1, 3)); }
HV_SPEC(inserted_4) { table(false, 4); }
HV_SPEC(from_map) { table(true, hv_pick("n", 1, 4)); }

HV_SPEC(empty)
{
  const Function1DPiecewise<double> f(bool(hv_pick("linear", 0, 1)));
  hv_check_eq(f.value(hv_real("query", -5, 5)), 0, "an empty table is zero");
  hv_cover("end");
}
HV_SPEC(constant)
{
  const double                   c = hv_real("c", -5, 5);
  const Function1DConstant<double> f(c);
  hv_check_eq(f.value(hv_real("query", -5, 5)), c, "constant everywhere");
  hv_cover("end");
}
