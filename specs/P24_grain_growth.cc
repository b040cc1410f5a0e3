// Grain growth: free energy derivatives, residual against the weak form, Jacobian against the residual.
// hv: flags -fno-access-control
// hv: assume doubles are reals
// hv: assume deal.II vectors, matrix-free loops and cell evaluation behave as the stand-ins of hv_fem.h
// hv: bound one cell, two integration points, 2 to 4 order parameters (template parameter)

#include <hv_dealii.h>
#include <hv_fem.h>
#include <hv_sintering.h>
#include <pf-applications/sintering/operator_grain_growth.h>
using namespace hvs;

template <>
void
OperatorBase<2, double, VA, GrainGrowthOperator<2, double, VA>>::initialize_system_matrix(bool, bool) const
{}
template <>
void
OperatorBase<3, double, VA, GrainGrowthOperator<3, double, VA>>::initialize_system_matrix(bool, bool) const
{}

template <int n>
static void
energy(const unsigned int how)
{
  const double               A = hv_real("A", 0.5, 2), B = hv_real("B", 0.5, 2);
  GrainGrowthFreeEnergy<VA>  fe(A, B);
  std::array<VA, n>          e;
  for (int i = 0; i < n; ++i)
    e[i] = VA(hv_real("eta", -0.2, 1.2));
  const auto check = [&](const auto &ev, const auto &zero) {
    const double f  = zero.f()[0];
    double       f0 = 0.25;
    for (int i = 0; i < n; ++i)
      {
        f0 += -A / 2 * e[i][0] * e[i][0] + B / 4 * e[i][0] * e[i][0] * e[i][0] * e[i][0];
        for (int j = 0; j < i; ++j)
          f0 += e[i][0] * e[i][0] * e[j][0] * e[j][0];
      }
    hv_check_eq(f, f0, "grain growth energy density");
    for (int i = 0; i < n; ++i)
      {
        const double d = ev.df_detai(e[i])[0];
        hv_check_eq(d, hv_diff(f, e[i][0]), "df/deta is the derivative of f");
        hv_check_eq(ev.d2f_detai2(e[i])[0], hv_diff(d, e[i][0]), "second derivative is the derivative of the first");
        for (int j = 0; j < n; ++j)
          if (i != j)
            hv_check_eq(ev.d2f_detaidetaj(e[i], e[j])[0], hv_diff(d, e[j][0]), "mixed derivative is the derivative of the first");
      }
    hv_check_eq(ev.d2f_dc2()[0], 0, "the energy does not depend on a concentration");
    // product of the off-diagonal part of the second derivative with a vector, added to the result
    std::array<VA, n> v, r, r0;
    for (int i = 0; i < n; ++i)
      {
        v[i] = VA(hv_real("v", -1, 1));
        r[i] = r0[i] = VA(hv_real("r", -1, 1));
      }
    const double L = hv_real("L", 0.1, 2);
    fe.apply_d2f_detaidetaj(VA(L), e.data(), n, v.data(), r.data());
    for (int i = 0; i < n; ++i)
      {
        double s = 0;
        for (int j = 0; j < n; ++j)
          if (j != i)
            s += ev.d2f_detaidetaj(e[i], e[j])[0] * v[j][0];
        hv_check_eq(r[i][0], r0[i][0] + L * s, "product with the off-diagonal part of the second derivative");
      }
  };
  if (how == 0)
    check(fe.template eval<EnergyAll>(e), fe.template eval<EnergyZero>(e));
  else if (how == 1)
    check(fe.template eval<EnergyAll>((const VA *)e.data(), n), fe.template eval<EnergyZero>((const VA *)e.data(), n));
  else if (how == 2)
    check(fe.template eval<EnergyAll, n>((const VA *)e.data()), fe.template eval<EnergyZero, n>((const VA *)e.data()));
  else if (how == 3)
    check(fe.template eval<EnergyAll, n>(e), fe.template eval<EnergyZero, n>(e));
  else
    check(fe.template eval<EnergyAll>(e, n), fe.template eval<EnergyZero>(e, n));
  hv_cover("end");
}

template <int dim>
struct Model
{
  unsigned int                         n;
  MatrixFree<dim, double, VA>          mf;
  AffineConstraints<double>            ac;
  double                               A, B;
  GrainGrowthFreeEnergy<VA>            fe;
  SinteringOperatorData<dim, VA>       data;
  std::vector<std::shared_ptr<BV>>     old;
  BV                                   u;
  Model(unsigned int n, unsigned int order = 2)
    : n(n)
    , mf(1)
    , A(hv_real("A", 0.5, 2))
    , B(hv_real("B", 0.5, 2))
    , fe(A, B)
    , data(hv_real("kappa_c", 0.1, 2), hv_real("kappa_p", 0.1, 2), provider(), time_data(order), 0)
  {
    data.set_n_components(n);
    for (unsigned int i = 0; i <= order; ++i)
      {
        old.push_back(std::make_shared<BV>());
        if (i)
          draw(*old.back(), mf, n, "old", 0, 1);
      }
    draw(u, mf, n, "u", 0.05, 0.95);
    data.fill_quadrature_point_values(mf, u, GrainGrowthFreeEnergy<VA>::save_gradients);
  }
};

template <int dim>
static void
tangent(unsigned int n)
{
  Model<dim>                             s(n);
  TimeIntegration::SolutionHistory<BV>   history(s.old);
  GrainGrowthOperator<dim, double, VA>   op(s.mf, s.ac, s.fe, s.data, history, false);
  hv_check_ieq(op.n_components(), n, "one component per order parameter");
  hv_check_ieq(op.n_grains(), n, "number of order parameters");
  BV v, r, j;
  draw(v, s.mf, n, "v", -1, 1);
  draw(r, s.mf, n, "garbage", -1, 1);
  draw(j, s.mf, n, "garbage", -1, 1);
  op.template evaluate_nonlinear_residual<1>(r, s.u);
  op.vmult(j, v);
  for (unsigned int b = 0; b < n; ++b)
    for (unsigned int i = 0; i < r.block(b).size(); ++i)
      {
        double d = 0;
        for (unsigned int a = 0; a < n; ++a)
          for (unsigned int k = 0; k < s.u.block(a).size(); ++k)
            d += hv_diff(r.block(b)(i), s.u.block(a)(k)) * v.block(a)(k);
        hv_check_eq(j.block(b)(i), d, "grain growth Jacobian is the derivative of the residual");
      }
  hv_cover("end");
}

template <int dim>
static void
residual(unsigned int n)
{
  Model<dim>                             s(n);
  TimeIntegration::SolutionHistory<BV>   history(s.old);
  GrainGrowthOperator<dim, double, VA>   op(s.mf, s.ac, s.fe, s.data, history, false);
  BV                                     r, r0;
  draw(r, s.mf, n, "garbage", -1, 1);
  draw(r0, s.mf, n, "garbage", -1, 1);
  op.template evaluate_nonlinear_residual<1>(r, s.u);
  op.template evaluate_nonlinear_residual<0>(r0, s.u);
  const auto  &w = s.data.time_data.get_weights();
  const double L = s.data.get_mobility().Lgb();
  for (unsigned int q = 0; q < hv::NQ; ++q)
    for (unsigned int b = 0; b < n; ++b)
      {
        const unsigned int i = q * (1 + dim);
        const double       e = s.u.block(b)(i);
        double             rate = 0, other = 0;
        for (unsigned int k = 0; k < w.size(); ++k)
          rate += w[k] * (k == 0 ? s.u : *s.old[k]).block(b)(i);
        for (unsigned int a = 0; a < n; ++a)
          if (a != b)
            other += s.u.block(a)(i) * s.u.block(a)(i);
        const double f = L * (-s.A * e + s.B * e * e * e + 2 * e * other);
        hv_check_eq(r.block(b)(i), rate + f, "residual has the discrete time derivative and the driving force");
        hv_check_eq(r0.block(b)(i), f, "stationary residual has no rate");
        for (int d = 0; d < dim; ++d)
          {
            hv_check_eq(r.block(b)(i + 1 + d), L * s.data.kappa_p * s.u.block(b)(i + 1 + d), "residual has the gradient energy term");
            hv_check_eq(r0.block(b)(i + 1 + d), L * s.data.kappa_p * s.u.block(b)(i + 1 + d), "stationary residual has the gradient energy term");
          }
      }
  hv_cover("end");
}

HV_SPEC(energy_2)
{
  energy<2>(hv_pick("how", 0, 4));
}
HV_SPEC(energy_3)
{
  energy<3>(hv_pick("how", 0, 4));
}
HV_SPEC(energy_5)
{
  energy<5>(hv_pick("how", 0, 4));
}
HV_SPEC(jacobian_2d)
{
  tangent<2>(hv_pick("n", 2, 4));
}
HV_SPEC(jacobian_3d)
{
  tangent<3>(hv_pick("n", 2, 3));
}
HV_SPEC(residual_2d)
{
  residual<2>(hv_pick("n", 2, 4));
}
HV_SPEC(residual_3d)
{
  residual<3>(hv_pick("n", 2, 3));
}
