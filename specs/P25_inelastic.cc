// Contracts of the inelastic strain rates and of the linear elastic operator.
// hv: flags -fno-access-control
// hv: assume doubles are reals
// hv: assume deal.II vectors, matrix-free loops and cell evaluation behave as the stand-ins of hv_fem.h
// hv: assume grain boundary normals and their indicator are frozen in the order parameter derivative by design; derivatives are compared inside 0 < c < 1 and 0 < g < 1
// hv: bound up to 4 grains

#define HV_ANY_ACTIVITY
#include <hv_sintering.h>
#include <pf-applications/sintering/inelastic.h>
#include <pf-applications/structural/operator_elastic_linear.h>
using namespace hvs;

template <>
void
OperatorBase<2, double, VA, Structural::LinearElasticOperator<2, double, VA>>::initialize_system_matrix(bool, bool) const
{}
template <>
void
OperatorBase<3, double, VA, Structural::LinearElasticOperator<3, double, VA>>::initialize_system_matrix(bool, bool) const
{}

template <int dim>
static void
inelastic(int n)
{
  SinteringOperatorData<dim, VA> data(1., 1., provider(), time_data(1));
  const double                   rho = hv_real("rho", 0.1, 3), start = hv_real("start", 0, 1), time = hv_real("time", 0, 2);
  data.set_time(time);
  const InelasticStrains<dim, double, VA> s(data, rho, start);
  double                                  c = hv_real("c", 0, 1), e[4], ge[4][dim], dg = hv_real("div_gb", -1, 1), dv = hv_real("div_vol", -1, 1);
  VA                                      ev[4];
  Tensor<1, dim, VA>                      gv[4];
  hv_assume(c > 0);
  hv_assume(c < 1);
  double sum = 0, nrm[dim] = {};
  for (int i = 0; i < n; ++i)
    {
      e[i]  = hv_real("eta", 0, 0.7);
      ev[i] = e[i];
      for (int d = 0; d < dim; ++d)
        {
          ge[i][d] = hv_real("grad", -1, 1);
          gv[i][d] = ge[i][d];
        }
      for (int j = 0; j < i; ++j)
        {
          sum += e[i] * e[j];
          double g2 = 0;
          for (int d = 0; d < dim; ++d)
            g2 += (ge[j][d] - ge[i][d]) * (ge[j][d] - ge[i][d]);
          hv_assume(g2 > 1e-16);
          for (int d = 0; d < dim; ++d)
            nrm[d] += (ge[j][d] - ge[i][d]) / std::sqrt(g2);
        }
    }
  hv_assume(n < 2 || sum > 0);
  hv_assume(4 * sum < 1);
  const double gb   = 2 * sum < 0.1 ? 0 : 2 * sum;
  const auto   f    = s.flux_eps_dot(VA(c), ev, n, gv, VA(dg), VA(dv));
  const auto   fc   = s.flux_eps_dot_dc(VA(c), ev, n, gv, VA(dg), VA(dv));
  const auto   fgb  = s.flux_eps_dot_ddiv_gb(VA(c), ev, n, gv);
  const auto   fvol = s.flux_eps_dot_ddiv_vol(VA(c), ev, n);
  for (int a = 0; a < dim; ++a)
    for (int b = 0; b < dim; ++b)
      {
        const double nn = gb * nrm[a] * gb * nrm[b];
        double       want = c * c * (rho * dg * 4 * sum * nn - (a == b ? dv / 3 * (1 - 4 * sum) : 0));
        if (time < start)
          want = 0;
        hv_check_eq(f[a][b][0], want, "inelastic strain rate: grain boundary and volume part, none before the start");
        hv_check_eq(fc[a][b][0], hv_diff(f[a][b][0], c), "derivative with respect to the concentration");
        hv_check_eq(fgb[a][b][0], hv_diff(f[a][b][0], dg), "derivative with respect to the grain boundary divergence");
        hv_check_eq(fvol[a][b][0], hv_diff(f[a][b][0], dv), "derivative with respect to the volume divergence");
        hv_check_eq(f[a][b][0], f[b][a][0], "strain rate is symmetric");
      }
  for (int i = 0; i < n; ++i)
    {
      const auto fe = s.flux_eps_dot_detai(VA(c), ev, n, gv, VA(dg), VA(dv), i);
      for (int a = 0; a < dim; ++a)
        for (int b = 0; b < dim; ++b)
          {
            double d = 0;
            for (int j = 0; j < n; ++j)
              if (j != i)
                d += 4 * e[j];
            double want = c * c * d * (rho * dg * gb * gb * nrm[a] * nrm[b] + (a == b ? dv / 3 : 0));
            if (time < start)
              want = 0;
            hv_check_eq(fe[a][b][0], want, "derivative with respect to an order parameter");
          }
    }
  hv_cover("end");
}
HV_SPEC(inelastic_2d) { inelastic<2>(hv_pick("n", 0, 3)); }
HV_SPEC(inelastic_3d) { inelastic<3>(hv_pick("n", 0, 2)); }

// linear elasticity: the operator is the derivative of its residual, and the residual is the stress power
template <int dim>
static void
elastic(bool load)
{
  MatrixFree<dim, double, VA> mf(2);
  AffineConstraints<double>   ac;
  const double                E = hv_real("E", 0.5, 3), nu = hv_real("nu", 0, 0.4);
  hv_assume(E > 0);
  hv_assume(nu > 0);
  hv_assume(2 * nu < 1);
  const double f = hv_real("force", -1, 1);
  using Op = Structural::LinearElasticOperator<dim, double, VA>;
  typename Op::ExternalLoadingCallback force;
  if (load)
    force = [f](auto &phi, unsigned int q) {
      Tensor<1, dim, VA> r;
      r[dim - 1] = f + q;
      return r;
    };
  Op op(mf, ac, false, E, nu, Structural::MaterialPlaneType::none, {}, force);
  BV u, v, r, j;
  draw(u, mf, dim, "u", -1, 1);
  draw(v, mf, dim, "v", -1, 1);
  draw(r, mf, dim, "garbage", -1, 1);
  zero(j, mf, dim);
  op.evaluate_nonlinear_residual(r, u);
  op.vmult(j, v);
  const double mu = E / (2 * (1 + nu)), lambda = dim == 3 ? E * nu / ((1 + nu) * (1 - 2 * nu)) : E * nu / (1 - nu * nu);
  for (int b = 0; b < dim; ++b)
    for (unsigned int i = 0; i < r.block(b).size(); ++i)
      {
        double d = 0;
        for (int a = 0; a < dim; ++a)
          for (unsigned int k = 0; k < u.block(a).size(); ++k)
            d += hv_diff(r.block(b)(i), u.block(a)(k)) * v.block(a)(k);
        hv_check_eq(j.block(b)(i), d, "operator is the derivative of its residual");
        const unsigned int q = i / (1 + dim) % hv::NQ, c = i % (1 + dim), o = i - c;
        double             want = 0;
        if (c == 0)
          want = load && b == dim - 1 ? f + q : 0;
        else
          {
            want = mu * (u.block(b)(i) + u.block(c - 1)(o + 1 + b));
            if (int(c) - 1 == b)
              for (int k = 0; k < dim; ++k)
                want += lambda * u.block(k)(o + 1 + k);
          }
        hv_check_eq(r.block(b)(i), want, "residual is the stress of the symmetric gradient and the applied load");
      }
  hv_cover("end");
}
HV_SPEC(elastic_2d) { elastic<2>(hv_pick("load", 0, 1)); }
HV_SPEC(elastic_3d) { elastic<3>(hv_pick("load", 0, 1)); }
