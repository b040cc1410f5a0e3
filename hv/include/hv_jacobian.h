// Contracts of the sintering operator: Jacobian against residual, residual against the weak form.
#pragma once
#include <hv_sintering.h>
using namespace hvs;

template <>
void
OperatorBase<2, double, VA, SinteringOperatorGeneric<2, double, VA>>::initialize_system_matrix(bool, bool) const
{}
template <>
void
OperatorBase<3, double, VA, SinteringOperatorGeneric<3, double, VA>>::initialize_system_matrix(bool, bool) const
{}

struct Opt
{
  bool         advection = false;
  bool         cut_off   = false;
  unsigned int cells     = 1;
  unsigned int order     = 2;
};

template <int dim>
struct Setup
{
  Opt                                 o;
  int                                 n;
  MatrixFree<dim, double, VA>         mf;
  AffineConstraints<double>           ac;
  double                              A, B;
  FreeEnergy<VA>                      fe;
  SinteringOperatorData<dim, VA>      data;
  AdvectionMechanism<dim, double, VA> adv;
  std::vector<std::shared_ptr<BV>>    old;
  BV                                  u;

  Setup(int n, Opt o)
    : o(o)
    , n(n)
    , mf(o.cells)
    , A(hv_real("A", 1, 20))
    , B(hv_real("B", 0.5, 3))
    , fe(A, B)
    , data(hv_real("kappa_c", 0.1, 2), hv_real("kappa_p", 0.1, 2), provider(), time_data(o.order))
    , adv(o.advection, hv_real("mt", 0, 2), hv_real("mr", 0, 2))
  {
    data.time_data.stationary_weight = hv_real("weight_alg", 0, 1);
    data.set_n_components(n + 2);
    old.push_back(std::make_shared<BV>());
    for (unsigned int i = 0; i < o.order; ++i)
      {
        old.push_back(std::make_shared<BV>());
        draw(*old.back(), mf, n + 2, "old", 0, 1);
      }
    draw(u, mf, n + 2, "u", 0.05, 0.95);
    for (unsigned int c = 0; c < o.cells; ++c)
      for (unsigned int q = 0; q < hv::NQ; ++q)
        {
          hv_assume(u.block(0)(c * mf.dofs + q * (1 + dim)) > 0);
          hv_assume(u.block(0)(c * mf.dofs + q * (1 + dim)) < 1);
        }
#ifdef WITH_TENSORIAL_MOBILITY
    // away from the regularisation thresholds, where the tensorial flux is differentiable (see P04)
    for (unsigned int c = 0; c < o.cells; ++c)
      for (unsigned int q = 0; q < hv::NQ; ++q)
        {
          const unsigned int i  = c * mf.dofs + q * (1 + dim);
          const double       cc = u.block(0)(i);
          double             g2 = 0;
          for (int d = 0; d < dim; ++d)
            g2 += u.block(0)(i + 1 + d) * u.block(0)(i + 1 + d);
          hv_assume(g2 >= 1e-8);
          hv_assume(4 * data.get_mobility().Msurf * cc * cc * (1 - cc) * (1 - cc) >= 1e-6);
          for (int a = 0; a < n; ++a)
            for (int b = 0; b < a; ++b)
              {
                double s = 0;
                for (int d = 0; d < dim; ++d)
                  {
                    const double t = u.block(2 + a)(i + 1 + d) - u.block(2 + b)(i + 1 + d);
                    s += t * t;
                  }
                hv_assume(s > 1e-12);
              }
        }
#endif
    if (o.cut_off)
      data.set_component_mask(mf, u, false, false, 0.5);
    if (o.advection)
      {
        adv.nullify_data(n);
        for (auto &x : adv.grains_data)
          x = hv_real("grain_data", 0.1, 2);
        for (auto &x : adv.grains_center)
          x = hv_real("grain_center", -1, 1);
        for (int i = 0; i < n; ++i)
          hv_assume(adv.grain_data(i)[0] > 0);
        hv::points.resize(o.cells);
        for (unsigned int c = 0; c < o.cells; ++c)
          {
            for (auto &p : hv::points[c])
              for (auto &x : p)
                x = hv_real("point", -1, 1);
            // as AdvectionOperator does: one entry per grain, or per relevant grain with the cut-off
          }
        for (unsigned int b = 0; b < mf.n_cell_batches(); ++b)
          {
            for (int i = 0; i < n; ++i)
              if (!o.cut_off || data.component_table[b][i])
                for (unsigned int l = 0; l < HV_LANES; ++l)
                  adv.get_index_values().push_back(b * HV_LANES + l < o.cells && segment(i, b * HV_LANES + l) ? i : numbers::invalid_unsigned_int);
            adv.get_index_ptr().push_back(adv.get_index_values().size());
          }
      }
    data.fill_quadrature_point_values(mf, u);
  }

  bool segment(int grain, unsigned int cell) const { return HV_LANES == 1 ? o.cut_off || grain != 1 : (grain + cell) % 3 != 1; }
  // rigid body velocity of the segment of a grain at an integration point
  double velocity(int grain, unsigned int cell, unsigned int q, int d) const
  {
    const double *f = adv.grain_data(grain), *x = adv.grain_center(grain);
    double        r[3] = {0, 0, 0};
    for (int k = 0; k < dim; ++k)
      r[k] = hv::points[cell][q][k] - x[k];
    const double *t = f + 1 + dim;
    double        w;
    if (dim == 2)
      w = d == 0 ? -r[1] * t[0] : r[0] * t[0];
    else
      w = t[(d + 1) % 3] * r[(d + 2) % 3] - t[(d + 2) % 3] * r[(d + 1) % 3];
    return (adv.mt * f[1 + d] + adv.mr * w) / f[0];
  }

  bool active(unsigned int cell, int block) { return !o.cut_off || block < 2 || data.component_table[cell / HV_LANES][block - 2]; }
};

template <int dim>
static void
tangent(int n, Opt o)
{
  Setup<dim>                           s(n, o);
  TimeIntegration::SolutionHistory<BV> history(s.old);
  BV                                   v, r, j;
  draw(v, s.mf, n + 2, "v", -1, 1);
  zero(r, s.mf, n + 2);
  zero(j, s.mf, n + 2);
  SinteringOperatorGeneric<dim, double, VA> op(s.mf, s.ac, s.fe, s.data, history, s.adv, false, false);
  op.template evaluate_nonlinear_residual<2>(r, s.u);
  op.vmult(j, v);
  for (int b = 0; b < n + 2; ++b)
    for (unsigned int i = 0; i < r.block(b).size(); ++i)
      {
        double d = 0;
        for (int a = 0; a < n + 2; ++a)
          for (unsigned int k = 0; k < s.u.block(a).size(); ++k)
#ifdef WITH_TENSORIAL_MOBILITY
            // the grain boundary normals of the flux are held fixed by design
            if (b > 0 || a < 2 || k % (1 + dim) == 0)
#endif
            d += hv_diff(r.block(b)(i), s.u.block(a)(k)) * v.block(a)(k);
        hv_check_eq(j.block(b)(i), d,
                    b == 0 ? "concentration row: Jacobian is the derivative of the residual" :
                    b == 1 ? "chemical potential row: Jacobian is the derivative of the residual" :
                             "order parameter rows: Jacobian is the derivative of the residual");
      }
  hv_cover("end");
}

template <int dim>
static void
residual(int n, Opt o)
{
  Setup<dim>                           s(n, o);
  TimeIntegration::SolutionHistory<BV> history(s.old);
  BV                                   r, r0, r1;
  // the right hand side vector is cleared by the operator
  draw(r, s.mf, n + 2, "garbage", -1, 1);
  draw(r0, s.mf, n + 2, "garbage", -1, 1);
  draw(r1, s.mf, n + 2, "garbage", -1, 1);
  SinteringOperatorGeneric<dim, double, VA> op(s.mf, s.ac, s.fe, s.data, history, s.adv, false, false);
  op.template evaluate_nonlinear_residual<2>(r, s.u);
  op.template evaluate_nonlinear_residual<0>(r0, s.u);
  op.template evaluate_nonlinear_residual<1>(r1, s.u);
  const auto  &w = s.data.time_data.get_weights();
  const auto  &M = s.data.get_mobility();
  const double L = M.Lgb();
  for (unsigned int c = 0; c < o.cells; ++c)
    for (unsigned int q = 0; q < hv::NQ; ++q)
      {
        const unsigned int     i0 = c * s.mf.dofs + q * (1 + dim);
        std::vector<int>       act;
        VA                     val[MAX_SINTERING_GRAINS + 2];
        Tensor<1, dim, VA>     gra[MAX_SINTERING_GRAINS + 2];
        for (int b = 0; b < n + 2; ++b)
          if (s.active(c, b))
            {
              val[act.size()] = s.u.block(b)(i0);
              for (int d = 0; d < dim; ++d)
                gra[act.size()][d] = s.u.block(b)(i0 + 1 + d);
              act.push_back(b);
            }
        const auto   flux = M.apply_M(val[0], val + 2, act.size() - 2, gra[0], gra + 2, gra[1]);
        const double cc = val[0][0];
        double       s2 = 0, s3 = 0;
        for (unsigned int k = 2; k < act.size(); ++k)
          {
            s2 += val[k][0] * val[k][0];
            s3 += val[k][0] * val[k][0] * val[k][0];
          }
        for (int b = 0; b < n + 2; ++b)
          {
            double rate = 0;
            for (unsigned int i = 0; i < w.size(); ++i)
              rate += w[i] * (i == 0 ? s.u : *s.old[i]).block(b)(i0);
            double now = w[0] * s.u.block(b)(i0), value = 0;
            if (b == 1)
              {
                rate = now = 0;
                value      = s.data.time_data.get_algebraic_weight() * val[1][0] -
                        (2 * s.A * cc * (1 - cc) * (1 - 2 * cc) + s.B * (2 * cc - 6 * s2 + 4 * s3));
              }
            else if (b >= 2)
              {
                const double e = s.u.block(b)(i0);
                value          = L * 12 * s.B * (e * (1 - cc) - e * e * (2 - cc) + e * s2);
              }
            if (!s.active(c, b))
              rate = now = value = 0;
            hv_check_eq(r.block(b)(i0), rate + value, "residual has the discrete time derivative of the scheme and the potential");
            hv_check_eq(r1.block(b)(i0), now + value, "residual without history has the current rate only");
            hv_check_eq(r0.block(b)(i0), value, "stationary residual has no rate");
            for (int d = 0; d < dim; ++d)
              {
                const double g = b == 0 ? flux[d][0] :
                                 b == 1 ? -s.data.kappa_c * s.u.block(0)(i0 + 1 + d) :
                                 s.active(c, b) ? L * s.data.kappa_p * s.u.block(b)(i0 + 1 + d) : 0.;
                if (o.advection)
                  {
                    // every grain whose segment is known in the cell carries its order parameter and the concentration along
                    double a = 0;
                    for (int i = 0; i < n; ++i)
                      if (s.active(c, i + 2) && s.segment(i, c) && (b == 0 || b == i + 2))
                        a += s.velocity(i, c, q, d) * s.u.block(b)(i0);
                    hv_check_eq(r.block(b)(i0 + 1 + d), g - a, "residual transports each order parameter with the velocity of its own grain");
                    continue;
                  }
                hv_check_eq(r.block(b)(i0 + 1 + d), g, "residual has the flux and the gradient energy terms");
                hv_check_eq(r0.block(b)(i0 + 1 + d), g, "stationary residual has the same gradient terms");
              }
          }
      }
  hv_cover("end");
}
