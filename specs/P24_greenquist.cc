// Grand potential model: consistent potentials, residual against the model, Jacobian against the residual.
// hv: flags -fno-access-control
// hv: assume doubles are reals
// hv: assume deal.II vectors, matrix-free loops and cell evaluation behave as the stand-ins of hv_fem.h
// hv: assume the void phase field is inside 0 < phi < 1 and away from the switching value (the interpolations are clipped outside)
// hv: bound one cell, one integration point, 1 to 3 grains (template parameter)

#define HV_NQ 1
#include <hv_dealii.h>
#include <hv_fem.h>
#include <hv_sintering.h>
#include <pf-applications/sintering/operator_grand_potential_greenquist.h>
using namespace hvs;

template <>
void
OperatorBase<2, double, VA, GreenquistGrandPotentialOperator<2, double, VA>>::initialize_system_matrix(bool, bool) const
{}

// all quantities of the model at one state: n grains, void phase phi, potential mu
template <int n>
static void
potentials(const unsigned int how)
{
  GreenquistFreeEnergy<VA> fe(1, 1);
  std::array<VA, n + 2>    s;
  s[0] = VA(hv_real("phi", -0.2, 1.2));
  s[1] = VA(hv_real("mu", -1, 1));
  for (int i = 0; i < n; ++i)
    s[2 + i] = VA(hv_real("eta", -0.2, 1.2));
  const double phi = s[0][0], mu = s[1][0];
  hv_assume(phi != 0);
  hv_assume(phi != 1);
  hv_assume(phi != 0.3);
  auto ev = how == 0 ? fe.template eval<EnergyAll>(s) :
            how == 1 ? fe.template eval<EnergyAll, n>((const VA *)s.data()) :
            how == 2 ? fe.template eval<EnergyAll, n>(s) :
            how == 3 ? fe.template eval<EnergyAll>(s, n) :
                       fe.template eval<EnergyAll>((const VA *)s.data(), n);
  // switching functions and their derivatives
  hv_check_eq(ev.hb()[0] + ev.hm()[0], 1, "phases share the volume");
  hv_check_eq(ev.hb()[0], phi < 0 ? 0. : phi > 1 ? 1. : phi * phi * phi * (6 * phi * phi - 15 * phi + 10), "void fraction");
  hv_check_eq(ev.dhb()[0], hv_diff(ev.hb()[0], phi), "derivative of the void fraction");
  hv_check_eq(ev.dhm()[0], hv_diff(ev.hm()[0], phi), "derivative of the matrix fraction");
  hv_check_eq(ev.d2hb()[0], hv_diff(ev.dhb()[0], phi), "second derivative of the void fraction");
  hv_check_eq(ev.d2hm()[0], hv_diff(ev.dhm()[0], phi), "second derivative of the matrix fraction");
  hv_check_eq(ev.dchi_dphi()[0], hv_diff(ev.chi()[0], phi), "derivative of the susceptibility");
  hv_check_eq(ev.depsilon_dphi()[0], hv_diff(ev.epsilon()[0], phi), "derivative of the barrier height");
  hv_check_eq(ev.d2epsilon_dphi2()[0], hv_diff(ev.depsilon_dphi()[0], phi), "second derivative of the barrier height");
  hv_check_eq(ev.dkappa_dphi()[0], hv_diff(ev.kappa()[0], phi), "derivative of the gradient coefficient");
  hv_check_eq(ev.d2kappa_dphi2()[0], hv_diff(ev.dkappa_dphi()[0], phi), "second derivative of the gradient coefficient");
  // grand potential densities
  hv_check_eq(ev.domega_b_dmu()[0], hv_diff(ev.omega_b()[0], mu), "void density is the derivative of its potential");
  hv_check_eq(ev.d2omega_b_dmu2()[0], hv_diff(ev.domega_b_dmu()[0], mu), "susceptibility of the void");
  hv_check_eq(ev.domega_m_dmu()[0], hv_diff(ev.omega_m()[0], mu), "matrix density is the derivative of its potential");
  hv_check_eq(ev.d2omega_m_dmu2(s[1])[0], hv_diff(ev.domega_m_dmu()[0], mu), "susceptibility of the matrix");
  hv_check_eq(ev.chi()[0], -(ev.hb()[0] * ev.d2omega_b_dmu2()[0] + ev.hm()[0] * ev.d2omega_m_dmu2(s[1])[0]),
              "susceptibility of the mixture");
  for (int a = 0; a <= n; ++a)
    {
      const VA    &pa = s[a == 0 ? 0 : a + 1];
      const double x  = pa[0];
      hv_check_eq(ev.dcm_eq_dphasei(pa)[0], hv_diff(ev.cm_eq()[0], x), "derivative of the equilibrium concentration");
      hv_check_eq(ev.domega_m_dphasei(pa)[0], hv_diff(ev.omega_m()[0], x), "derivative of the matrix potential by a phase");
      hv_check_eq(ev.d2omega_m_dmudphasei(pa)[0], hv_diff(ev.domega_m_dmu()[0], x), "derivative of the matrix density by a phase");
      hv_check_eq(ev.dzeta_dphasei(pa)[0], hv_diff(ev.zeta()[0], x), "derivative of the multi-well by a phase");
      for (int b = 0; b <= n; ++b)
        {
          const VA    &pb = s[b == 0 ? 0 : b + 1];
          const double y  = pb[0];
          hv_check_eq(a == b ? ev.d2cm_eq_dphasei2(pa)[0] : ev.d2cm_eq_dphaseiphasej(pa, pb)[0], hv_diff(ev.dcm_eq_dphasei(pa)[0], y),
                      "second derivative of the equilibrium concentration");
          hv_check_eq(a == b ? ev.d2omega_m_dphasei2(pa)[0] : ev.d2omega_m_dphaseidphasej(pa, pb)[0], hv_diff(ev.domega_m_dphasei(pa)[0], y),
                      "second derivative of the matrix potential by the phases");
          hv_check_eq(a == b ? ev.d3omega_m_dmudphasei2(pa)[0] : ev.d3omega_m_dmudphaseidphasej(pa, pb)[0],
                      hv_diff(ev.d2omega_m_dmudphasei(pa)[0], y), "second derivative of the matrix density by the phases");
          hv_check_eq(a == b ? ev.d2zeta_dphasei2(pa)[0] : ev.d2zeta_dphaseidphasej(pa, pb)[0], hv_diff(ev.dzeta_dphasei(pa)[0], y),
                      "second derivative of the multi-well by the phases");
        }
    }
  hv_cover("end");
}

template <int dim>
struct Model
{
  unsigned int                     n;
  MatrixFree<dim, double, VA>      mf;
  AffineConstraints<double>        ac;
  GreenquistFreeEnergy<VA>         fe;
  SinteringOperatorData<dim, VA>   data;
  std::vector<std::shared_ptr<BV>> old;
  BV                               u;
  Model(unsigned int n, unsigned int order = 1)
    : n(n)
    , mf(1)
    , fe(1, 1)
    , data(hv_real("kappa_c", 0.1, 2), hv_real("kappa_p", 0.1, 2), provider(), time_data(order))
  {
    data.set_n_components(n + 2);
    for (unsigned int i = 0; i <= order; ++i)
      {
        old.push_back(std::make_shared<BV>());
        if (i)
          draw(*old.back(), mf, n + 2, "old", 0, 1);
      }
    draw(u, mf, n + 2, "u", 0.05, 0.95);
    for (unsigned int q = 0; q < hv::NQ; ++q)
      {
        const double phi = u.block(0)(q * (1 + dim));
        hv_assume(phi > 0);
        hv_assume(phi < 1);
        hv_assume(phi != 0.3);
      }
    data.fill_quadrature_point_values(mf, u, GreenquistFreeEnergy<VA>::save_gradients);
  }
};

template <int dim>
static void
tangent(unsigned int n)
{
  Model<dim>                                          s(n);
  TimeIntegration::SolutionHistory<BV>                history(s.old);
  GreenquistGrandPotentialOperator<dim, double, VA>   op(s.mf, s.ac, s.fe, s.data, history, false);
  hv_check_ieq(op.n_components(), n + 2, "void phase, potential and one component per grain");
  hv_check_ieq(op.n_grains(), n, "number of grains");
  BV v, r, j;
  draw(v, s.mf, n + 2, "v", -1, 1);
  draw(r, s.mf, n + 2, "garbage", -1, 1);
  draw(j, s.mf, n + 2, "garbage", -1, 1);
  op.template evaluate_nonlinear_residual<2>(r, s.u);
  op.vmult(j, v);
  for (unsigned int b = 0; b < n + 2; ++b)
    for (unsigned int i = 0; i < r.block(b).size(); ++i)
      {
        double d = 0;
        for (unsigned int a = 0; a < n + 2; ++a)
          for (unsigned int k = 0; k < s.u.block(a).size(); ++k)
            d += hv_diff(r.block(b)(i), s.u.block(a)(k)) * v.block(a)(k);
        hv_check_eq(j.block(b)(i), d,
                    b == 0 ? "void phase row: Jacobian is the derivative of the residual" :
                    b == 1 ? "potential row: Jacobian is the derivative of the residual" :
                             "grain rows: Jacobian is the derivative of the residual");
      }
  hv_cover("end");
}

template <int dim>
static void
residual(unsigned int n)
{
  Model<dim>                                        s(n);
  TimeIntegration::SolutionHistory<BV>              history(s.old);
  GreenquistGrandPotentialOperator<dim, double, VA> op(s.mf, s.ac, s.fe, s.data, history, false);
  BV                                                r, r0;
  draw(r, s.mf, n + 2, "garbage", -1, 1);
  draw(r0, s.mf, n + 2, "garbage", -1, 1);
  op.template evaluate_nonlinear_residual<2>(r, s.u);
  op.template evaluate_nonlinear_residual<0>(r0, s.u);
  const auto &w = s.data.time_data.get_weights();
  const auto &M = s.data.get_mobility();
  for (unsigned int q = 0; q < hv::NQ; ++q)
    {
      const unsigned int i0 = q * (1 + dim);
      VA                 x[MAX_SINTERING_GRAINS + 2];
      Tensor<1, dim, VA> g[MAX_SINTERING_GRAINS + 2];
      double             rate[MAX_SINTERING_GRAINS + 2];
      for (unsigned int b = 0; b < n + 2; ++b)
        {
          x[b] = s.u.block(b)(i0);
          for (int d = 0; d < dim; ++d)
            g[b][d] = s.u.block(b)(i0 + 1 + d);
          rate[b] = 0;
          for (unsigned int k = 0; k < w.size(); ++k)
            rate[b] += w[k] * (k == 0 ? s.u : *s.old[k]).block(b)(i0);
        }
      const auto   ev    = s.fe.template eval<EnergyAll>((const VA *)x, n);
      const double omega = ev.hb()[0] * ev.omega_b()[0] + ev.hm()[0] * ev.omega_m()[0] + ev.epsilon()[0] * ev.zeta()[0];
      const double rho   = -(ev.hb()[0] * ev.domega_b_dmu()[0] + ev.hm()[0] * ev.domega_m_dmu()[0]);
      const double mob   = M.M_vol(VA(1.))[0] + M.M_surf(x[0], g[0])[0] + M.M_gb(x + 2, n, g + 2)[0];
      for (unsigned int b = 0; b < n + 2; ++b)
        {
          double v, v0 = 0, m;
          if (b == 1)
            {
              v = ev.chi()[0] * rate[1] + hv_diff(rho, x[0][0]) * rate[0];
              m = mob * ev.chi()[0];
            }
          else
            {
              const double L = b == 0 ? ev.get_Lphi() : ev.get_L();
              v0             = L * hv_diff(omega, x[b][0]);
              v              = rate[b] + v0;
              m              = L * ev.kappa()[0];
            }
          hv_check_eq(r.block(b)(i0), v, b == 1 ? "balance of vacancies" : "phases follow the gradient of the grand potential");
          hv_check_eq(r0.block(b)(i0), v0, "stationary residual has no rate");
          for (int d = 0; d < dim; ++d)
            hv_check_eq(r.block(b)(i0 + 1 + d), m * g[b][d][0], b == 1 ? "flux of vacancies" : "gradient energy");
        }
    }
  hv_cover("end");
}

HV_SPEC(potentials_1)
{
  potentials<1>(hv_pick("how", 0, 4));
}
HV_SPEC(potentials_2)
{
  potentials<2>(hv_pick("how", 0, 4));
}
HV_SPEC(potentials_3)
{
  potentials<3>(hv_pick("how", 0, 4));
}
HV_SPEC(jacobian_1)
{
  tangent<2>(1);
}
HV_SPEC(jacobian_2)
{
  tangent<2>(2);
}
HV_SPEC(jacobian_3)
{
  tangent<2>(3);
}
HV_SPEC(residual)
{
  residual<2>(hv_pick("n", 1, 2));
}
