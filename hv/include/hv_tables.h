// Contracts of the tables of the sintering operator data (grain activity, stored linearisation point).
#pragma once
#include <hv_sintering.h>
using namespace hvs;

struct TOpt
{
  unsigned int cells    = 1;
  bool         cut_off  = true;
  bool         all      = false; // save all blocks, with extra blocks beyond the order parameters
  bool         op_grads = false;
};

template <int dim>
static void
tables(const unsigned int n, TOpt o)
{
  const unsigned int                           extra = o.all ? dim : 0, nb = n + 2 + extra, lanes = HV_LANES;
  MatrixFree<dim, double, VA>                  mf(o.cells);
  SinteringOperatorData<dim, VA>               data(1., 1., provider(), time_data(1));
  BV                                           m, u;
  const double                                 tol = hv_real("tolerance", 0.1, 0.3);
  data.set_n_components(n + 2);
  hv_check_ieq(data.n_components(), n + 2, "number of components");
  hv_check_ieq(data.n_grains(), n, "number of order parameters");
  hv_check_ieq(data.n_non_grains(), 2, "number of other components");
  hv_check(!data.cut_off_enabled(), "cut-off is off by default");

  draw(m, mf, nb, "mask", -0.4, 1);
  draw(u, mf, nb, "u", 0, 1);
  m.zero_out_ghost_values();
  u.zero_out_ghost_values();
  const unsigned int nc = mf.n_cell_batches();
  if (o.cut_off)
    {
      hv_assume(tol > 0);
      data.set_component_mask(mf, m, o.op_grads, o.all, tol);
      hv_check(data.cut_off_enabled(), "cut-off is on");
      const auto &t = data.get_component_table();
      hv_check_ieq(t.size(0), nc, "one row of the activity table per cell batch");
      hv_check_ieq(t.size(1), n, "one column of the activity table per order parameter");
      for (unsigned int b = 0; b < nc; ++b)
        for (unsigned int g = 0; g < n; ++g)
          for (unsigned int l = 0; l < lanes && b * lanes + l < o.cells; ++l)
            for (unsigned int i = 0; i < mf.dofs; ++i)
              if (!t[b][g])
                hv_check_le(std::fabs(m.block(2 + g)((b * lanes + l) * mf.dofs + i)), tol,
                            "an order parameter that exceeds the threshold anywhere in the cell batch is active");
      for (unsigned int b = 0; b < nc; ++b)
        for (unsigned int g = 0; g < n; ++g)
          if (t[b][g])
            {
              double most = 0;
              for (unsigned int l = 0; l < lanes && b * lanes + l < o.cells; ++l)
                for (unsigned int i = 0; i < mf.dofs; ++i)
                  most = std::fmax(most, std::fabs(m.block(2 + g)((b * lanes + l) * mf.dofs + i)));
              hv_check_le(tol, most, "an order parameter below the threshold everywhere in the cell batch is inactive");
            }
    }
  for (int pass = 0; pass < 2; ++pass)
    {
      if (pass == 1)
        {
          // storing a second state replaces the first
          draw(u, mf, nb, "u2", 0, 1);
          u.zero_out_ghost_values();
        }
      data.fill_quadrature_point_values(mf, u, o.op_grads, o.all);
      const unsigned int nv = o.all ? nb : n + 2, ng = o.op_grads || data.use_tensorial_mobility ? nv : 2;
      for (unsigned int b = 0; b < nc; ++b)
        {
          // numbering of the order parameters that are active in this batch
          std::vector<unsigned int> act;
          for (unsigned int c = 0; c < nv; ++c)
            if (!o.cut_off || c < 2 || c >= 2 + n || data.get_component_table()[b][c - 2])
              act.push_back(c);
          const auto inverse = data.get_grain_to_relevant_grain(b);
          hv_check_ieq(inverse.size(), n, "an entry of the inverse map per order parameter");
          unsigned int k = 0;
          for (unsigned int g = 0; g < n; ++g)
            {
              const bool a = !o.cut_off || data.get_component_table()[b][g];
              hv_check_ieq(inverse[g], a ? k : 255u, "position of an order parameter among the active ones of the cell");
              if (a)
                {
                  if (o.cut_off)
                    hv_check_ieq(data.get_relevant_grains(b)[k], g, "active order parameters of the cell in ascending order");
                  ++k;
                }
            }
          if (o.cut_off)
            hv_check_ieq(data.get_relevant_grains(b).size(), k, "number of active order parameters of the cell");

          const VA                  *v = data.get_nonlinear_values(b);
          const Tensor<1, dim, VA> *g = data.get_nonlinear_gradients(b);
          for (unsigned int q = 0; q < hv::NQ; ++q)
            {
              for (const unsigned int c : act)
                {
                  for (unsigned int l = 0; l < lanes && b * lanes + l < o.cells; ++l)
                    hv_check_eq((*v)[l], u.block(c)((b * lanes + l) * mf.dofs + q * (1 + dim)),
                                "stored values are those of the active components, in order, at each integration point");
                  ++v;
                  if (c >= ng)
                    continue;
                  for (unsigned int l = 0; l < lanes && b * lanes + l < o.cells; ++l)
                    for (int d = 0; d < dim; ++d)
                      hv_check_eq((*g)[d][l], u.block(c)((b * lanes + l) * mf.dofs + q * (1 + dim) + 1 + d),
                                  "stored gradients are those of the active components, in order, at each integration point");
                  ++g;
                }
              for (unsigned int c = 0; c < nv; ++c)
                for (unsigned int l = 0; l < lanes && b * lanes + l < o.cells; ++l)
                  {
                    const bool   a = !o.cut_off || c < 2 || c >= 2 + n || data.get_component_table()[b][c - 2];
                    const double e = a ? u.block(c)((b * lanes + l) * mf.dofs + q * (1 + dim)) : 0.;
                    hv_check_eq(data.get_nonlinear_values()(b, q, c)[l], e, "full table holds the state, with inactive order parameters zero");
                    for (int d = 0; d < dim && c < ng; ++d)
                      hv_check_eq(data.get_nonlinear_gradients()(b, q, c)[d][l],
                                  a ? u.block(c)((b * lanes + l) * mf.dofs + q * (1 + dim) + 1 + d) : 0.,
                                  "full table holds the gradients, with inactive order parameters zero");
                  }
            }
        }
      hv_check_ieq(data.get_history_vector().n_blocks(), nb, "stored state has all blocks");
      for (unsigned int b = 0; b < nb; ++b)
        for (unsigned int i = 0; i < u.block(b).size(); ++i)
          hv_check_eq(data.get_history_vector().block(b)(i), u.block(b)(i), "stored state is the state");
      hv_check(!u.has_ghost_elements() && !m.has_ghost_elements(), "ghost state of the input is left as it was");
    }
  hv_cover("end");
}
