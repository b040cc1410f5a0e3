// Contracts of TimeIntegratorData: a shift register of step sizes whose weights are
// at every moment the scheme's weights for exactly the stored steps.
#include <algorithm>
#include <map>
#include <memory>
#include <string>
#include <deal.II/base/exceptions.h>
#include <hv_archive.h>
#include <pf-applications/time_integration/time_integrator_data.h>
#include <hv.h>
using namespace TimeIntegration;
using Data = TimeIntegratorData<double>;

static std::unique_ptr<ImplicitScheme<double>>
scheme(long k)
{
  if (k == 1)
    return std::make_unique<BDF1Scheme<double>>();
  if (k == 2)
    return std::make_unique<BDF2Scheme<double>>();
  if (k == 3)
    return std::make_unique<BDF3Scheme<double>>();
  return nullptr;
}

// the ghost view: what the data must look like
struct View
{
  long   order;
  double dt[3] = {0, 0, 0};
  long   n() const { return order > 0 ? order : 1; }
};

static void
agree(const Data &d, const View &v, const char *l)
{
  hv_check_ieq(d.get_order(), v.order, l);
  hv_check_ieq(d.get_all_dt().size(), v.n(), l);
  for (long i = 0; i < v.n(); ++i)
    hv_check_eq(d.get_all_dt()[i], v.dt[i], l);
  hv_check_eq(d.get_current_dt(), v.dt[0], l);
  hv_check(d.is_implicit() == (v.order > 0), l);
  hv_check_eq(d.get_algebraic_weight(), v.order > 0 ? 1. : 0., "algebraic equations enter only implicit schemes");
  if (v.order > 0)
    {
      auto                      s = scheme(v.order);
      std::vector<double>       h(v.dt, v.dt + v.order);
      const std::vector<double> w = s->compute_weights(h);
      hv_check_ieq(d.get_weights().size(), v.order + 1, "one weight per history value");
      for (long i = 0; i <= v.order; ++i)
        hv_check_eq(d.get_weights()[i], w[i], "weights always belong to the stored step sizes");
      hv_check_eq(d.get_primary_weight(), w[0], "primary weight is the weight of the new solution");
    }
}

static double
step()
{
  const double h = hv_real("dt", 0.01, 3);
  hv_assume(h > 0);
  return h;
}

// arbitrary reachable state: any register contents
static Data
arbitrary(long order, View &v)
{
  v.order        = order;
  const double h = step();
  Data         d(scheme(order), h);
  v.dt[0]        = h;
  for (long i = 1; i < order; ++i)
    {
      const double g = step();
      d.update_dt(g);
      for (long k = 2; k > 0; --k)
        v.dt[k] = v.dt[k - 1];
      v.dt[0] = g;
    }
  for (long i = v.n(); i < 3; ++i)
    v.dt[i] = 0;
  return d;
}

HV_SPEC(start)
{
  const long   o = hv_pick("order", 0, 3);
  const double h = step();
  Data         d(scheme(o), h);
  View         v;
  v.order = o;
  v.dt[0] = h;
  agree(d, v, "initial step is stored and older history is empty");
  hv_check_eq(d.get_current_time(), 0., "time starts at zero");
  hv_cover("end");
}

HV_SPEC(operations)
{
  const long o = hv_pick("order", 0, 3);
  View       v;
  Data       d  = arbitrary(o, v);
  const long op = hv_pick("op", 0, 2);
  const double h = step();
  if (op == 0)
    {
      d.update_dt(h);
      for (long k = v.n() - 1; k > 0; --k)
        v.dt[k] = v.dt[k - 1];
      v.dt[0] = h;
      agree(d, v, "accepting a step shifts the history by one");
    }
  else if (op == 1)
    {
      d.replace_dt(h);
      v.dt[0] = h;
      agree(d, v, "retrying a step replaces only the current step size");
    }
  else
    {
      View v2;
      Data e = arbitrary(o, v2);
      d.copy_all_dt(e);
      agree(d, v2, "copying the steps takes over the whole history");
      agree(e, v2, "source of the copy is unchanged");
    }
  hv_cover("end");
}

HV_SPEC(copies_are_independent)
{
  const long o = hv_pick("order", 0, 3);
  View       v;
  Data       d = arbitrary(o, v);
  d.set_current_time(hv_real("t", 0, 10));
  const double t = d.get_current_time();
  const long   k = hv_pick("how", 0, 1);
  Data         e;
  if (k == 0)
    e = d;
  Data        f(d);
  Data       &c = k == 0 ? e : f;
  agree(c, v, "copy equals the original");
  hv_check_eq(c.get_current_time(), t, "copy keeps the current time");
  const double h = step();
  c.update_dt(h);
  c.update_current_time(h);
  agree(d, v, "changing a copy leaves the original alone");
  hv_check_eq(d.get_current_time(), t, "changing a copy leaves the original time alone");
  hv_check_eq(c.get_current_time(), t + h, "time advances by the step");
  hv_cover("end");
}

HV_SPEC(change_of_scheme)
{
  const long o = hv_pick("order", 0, 3), n = hv_pick("new_order", 0, 3);
  View       v, w;
  Data       d = arbitrary(o, v);
  Data       e(d, scheme(n));
  w.order = n;
  w.dt[0] = v.dt[0];
  for (long i = 1; i < (o < n ? o : n); ++i)
    w.dt[i] = v.dt[i];
  agree(e, w, "changing the scheme keeps as much step history as both schemes hold");
  hv_cover("end");
}

HV_SPEC(restart)
{
  const long o = hv_pick("order", 0, 3);
  View       v;
  Data       d = arbitrary(o, v);
  HvTape     tape;
  HvSave     sv(tape);
  d.save(sv, 0);
  // as the driver does: load into a default object, then continue with a scheme
  Data   e;
  HvLoad ld(tape);
  e.load(ld, 0);
  hv_check(tape.ok && tape.pk == tape.kind.size(), "loading consumes exactly what saving wrote");
  hv_check_ieq(e.get_order(), o, "restart keeps the order");
  hv_check_ieq(e.get_all_dt().size(), v.n(), "restart keeps the number of steps");
  for (long i = 0; i < v.n(); ++i)
    hv_check_eq(e.get_all_dt()[i], v.dt[i], "restart keeps every step size");
  hv_check_eq(e.get_current_dt(), v.dt[0], "restart keeps the current step size");
  const long n = hv_pick("new_order", 0, 3);
  Data       f(e, scheme(n));
  View       w;
  w.order = n;
  w.dt[0] = v.dt[0];
  for (long i = 1; i < (o < n ? o : n); ++i)
    w.dt[i] = v.dt[i];
  agree(f, w, "restart continues with the saved history");
  hv_cover("end");
}
