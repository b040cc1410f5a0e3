// Tables of the operator data: grain activity per cell and the stored linearisation point.
// hv: flags -fno-access-control
// hv: assume doubles are reals
// hv: assume deal.II vectors, matrix-free loops and cell evaluation behave as the stand-ins of hv_fem.h
// hv: bound one or two cells, one integration point, up to 3 order parameters

#define HV_NQ 2
#include <hv_tables.h>

HV_SPEC(tables_2d)
{
  tables<2>(hv_pick("n", 1, 2), {.cells = 2});
}
HV_SPEC(tables_three_grains_2d)
{
  tables<2>(3, {});
}
HV_SPEC(tables_3d)
{
  tables<3>(2, {});
}
HV_SPEC(tables_op_gradients_2d)
{
  tables<2>(2, {.op_grads = true});
}
HV_SPEC(tables_all_blocks_2d)
{
  tables<2>(2, {.all = true, .op_grads = hv_bool("op_gradients")});
}
HV_SPEC(tables_without_cut_off)
{
  tables<2>(hv_pick("n", 0, 3), {.cells = 2, .cut_off = false, .all = hv_bool("all"), .op_grads = hv_bool("op_gradients")});
}

// removing the mask, e.g. because the number of order parameters has changed, is done by setting another one
HV_SPEC(mask_is_replaced)
{
  MatrixFree<2, double, VA>    mf(1);
  SinteringOperatorData<2, VA> data(1., 1., provider(), time_data(1));
  BV                           m;
  for (const unsigned int n : {2, 1})
    {
      data.set_n_components(n + 2);
      draw(m, mf, n + 2, "mask", -0.4, 1);
      data.set_component_mask(mf, m, false, false, 0.3);
      hv_check_ieq(data.get_component_table().size(1), n, "activity table follows the number of order parameters");
      for (unsigned int g = 0, k = 0; g < n; ++g)
        if (data.get_component_table()[0][g])
          {
            hv_check(k < data.get_relevant_grains(0).size(), "active order parameters of the new mask only");
            hv_check_ieq(data.get_relevant_grains(0)[k++], g, "active order parameters of the new mask");
          }
    }
  hv_cover("end");
}

HV_SPEC(phase_field_mask)
{
  SinteringOperatorData<2, VA> data(1., 1., provider(), time_data(1));
  const unsigned int           n = hv_pick("n", 0, 3), extra = hv_pick("extra", 0, 2);
  data.set_n_components(n + 2);
  const ComponentMask k = data.build_pf_component_mask(n + 2 + extra);
  hv_check_ieq(k.size(), n + 2 + extra, "mask has the requested length");
  for (unsigned int i = 0; i < k.size(); ++i)
    hv_check_ieq(k[i], i == 0 || (i >= 2 && i < n + 2), "phase fields are the concentration and the order parameters");
  hv_cover("end");
}

HV_SPEC(too_few_components)
{
  SinteringOperatorData<2, VA> data(1., 1., provider(), time_data(1));
  const unsigned int           n     = hv_pick("n", 0, 3);
  bool                         threw = false;
  try
    {
      data.set_n_components(n);
    }
  catch (...)
    {
      threw = true;
    }
  hv_check_ieq(threw, n < 2, "fewer components than those of the Cahn-Hilliard part are refused");
  hv_cover("end");
}

HV_SPEC(mobility_follows_time)
{
  struct Ramp : public MobilityProvider
  {
    double a, b;
    MobilityCoefficients calculate(const double t) const override
    {
      MobilityCoefficients m;
      m.Mvol = a + b * t;
      m.Mvap = m.Msurf = m.Mgb = m.L = a - b * t;
      return m;
    }
  };
  auto p = std::make_shared<Ramp>();
  p->a   = hv_real("a", 0, 1);
  p->b   = hv_real("b", 0, 1);
  SinteringOperatorData<2, VA> data(1., 1., p, time_data(1));
  for (int i = 0; i < 2; ++i)
    {
      const double t = hv_real("t", 0, 1);
      data.set_time(t);
      hv_check_eq(data.get_time(), t, "time is stored");
      hv_check_eq(data.get_mobility().Mvol, p->a + p->b * t, "mobility of the current time");
      hv_check_eq(data.get_mobility().Lgb(), p->a - p->b * t, "grain boundary mobility of the current time");
    }
  hv_cover("end");
}
