// Contracts of the scalar mobility: the flux, every derivative the tangent uses, the
// postprocessing parts, and the providers of the coefficients.
// hv: assume doubles are reals
// hv: assume tangents are compared inside the physical range 0 < c < 1 (the flux clips its interpolation outside it)
#include <memory>
#include <pf-applications/base/tensor.h>
#include <pf-applications/sintering/mobility.h>
#include <hv.h>
using namespace dealii;
using namespace Sintering;
using VA = VectorizedArray<double, 1>;

struct Fixed : public MobilityProvider
{
  MobilityCoefficients m;
  MobilityCoefficients
  calculate(const double) const override
  {
    return m;
  }
};

static MobilityCoefficients
coefficients()
{
  MobilityCoefficients m;
  m.Mvol  = hv_real("Mvol", 0.01, 2);
  m.Mvap  = hv_real("Mvap", 0.01, 2);
  m.Msurf = hv_real("Msurf", 0.5, 5);
  m.Mgb   = hv_real("Mgb", 0.1, 3);
  m.L     = hv_real("L", 0.1, 3);
  return m;
}

static std::shared_ptr<MobilityProvider>
provider(const MobilityCoefficients &m)
{
  auto p = std::make_shared<Fixed>();
  p->m   = m;
  return p;
}

constexpr int NMAX = 12;
template <int dim>
struct In
{
  int                n;
  double             c, mu, e[NMAX], gc[dim], gmu[dim], ge[NMAX][dim];
  VA                 value[NMAX + 2];
  Tensor<1, dim, VA> grad[NMAX + 2];

  void
  draw(int n_, double lo, double hi)
  {
    n  = n_;
    c  = hv_real("c", lo, hi);
    mu = hv_real("mu", -1, 1);
    for (int k = 0; k < n; ++k)
      e[k] = hv_real("eta", 0, 1);
    for (int d = 0; d < dim; ++d)
      {
        gc[d]  = hv_real("grad_c", -1, 1);
        gmu[d] = hv_real("grad_mu", -1, 1);
        for (int k = 0; k < n; ++k)
          ge[k][d] = hv_real("grad_eta", -1, 1);
      }
    value[0] = c;
    value[1] = mu;
    for (int k = 0; k < n; ++k)
      value[2 + k] = e[k];
    for (int d = 0; d < dim; ++d)
      {
        grad[0][d] = gc[d];
        grad[1][d] = gmu[d];
        for (int k = 0; k < n; ++k)
          grad[2 + k][d] = ge[k][d];
      }
  }
};

template <int dim>
static void
flux(int n)
{
  const auto              m = coefficients();
  MobilityScalar<dim, VA> M(provider(m));
  In<dim>                 x;
  x.draw(n, -0.5, 1.5);
  const auto j = M.apply_M(x.value[0], x.value + 2, n, x.grad[0], x.grad + 2, x.grad[1]);

  const double c   = x.c;
  double       phi = c * c * c * (10 - 15 * c + 6 * c * c);
  if (phi < 0)
    phi = 0;
  if (phi > 1)
    phi = 1;
  double pairs = 0;
  for (int a = 0; a < n; ++a)
    for (int b = 0; b < n; ++b)
      if (a != b)
        pairs += x.e[a] * x.e[b];
  const double total = m.Mvol * phi + m.Mvap * (1 - phi) + 4 * m.Msurf * c * c * (1 - c) * (1 - c) + m.Mgb * pairs;
  for (int d = 0; d < dim; ++d)
    hv_check_eq(j[d][0], total * x.gmu[d], "flux is the sum of the four transport mechanisms times the driving force");

  const double parts = M.M_vol(x.value[0])[0] + M.M_vap(x.value[0])[0] + M.M_surf(x.value[0], x.grad[0])[0] +
                       M.M_gb(x.value + 2, n, x.grad + 2)[0];
  hv_check_eq(parts, total, "reported mobility parts add up to the mobility of the flux");
  hv_check_eq(M.M_vol(x.value[0])[0], m.Mvol * phi, "bulk part");
  hv_check_eq(M.M_vap(x.value[0])[0], m.Mvap * (1 - phi), "vapour part");
  hv_check_eq(M.M_surf(x.value[0], x.grad[0])[0], 4 * m.Msurf * c * c * (1 - c) * (1 - c), "surface part");
  hv_check_eq(M.M_gb(x.value + 2, n, x.grad + 2)[0], m.Mgb * pairs, "grain boundary part");
  hv_check_eq(M.Lgb(), m.L, "grain boundary mobility constant");
  hv_cover("end");
}

HV_SPEC(flux_2d)
{
  flux<2>(hv_pick("n", 0, 10));
}
HV_SPEC(flux_3d)
{
  flux<3>(hv_pick("n", 0, 4));
}

template <int dim>
static void
tangent(int n)
{
  const auto              m = coefficients();
  MobilityScalar<dim, VA> M(provider(m));
  In<dim>                 x, v;
  x.draw(n, 0.05, 0.95);
  hv_assume(x.c > 0);
  hv_assume(x.c < 1);
  v.draw(n, -1, 1);
  const auto j  = M.apply_M(x.value[0], x.value + 2, n, x.grad[0], x.grad + 2, x.grad[1]);
  const auto dj = M.apply_M_derivative(x.value, x.grad, n, v.value, v.grad);
  for (int d = 0; d < dim; ++d)
    {
      double s = hv_diff(j[d][0], x.c) * v.c + hv_diff(j[d][0], x.mu) * v.mu;
      for (int k = 0; k < n; ++k)
        s += hv_diff(j[d][0], x.e[k]) * v.e[k];
      for (int a = 0; a < dim; ++a)
        {
          s += hv_diff(j[d][0], x.gc[a]) * v.gc[a] + hv_diff(j[d][0], x.gmu[a]) * v.gmu[a];
          for (int k = 0; k < n; ++k)
            s += hv_diff(j[d][0], x.ge[k][a]) * v.ge[k][a];
        }
      hv_check_eq(dj[d][0], s, "tangent of the flux is its derivative");
    }
  hv_cover("end");
}
HV_SPEC(tangent_2d)
{
  tangent<2>(hv_pick("n", 0, 6));
}
HV_SPEC(tangent_3d)
{
  tangent<3>(hv_pick("n", 0, 3));
}

// the pieces used by the matrix-based tangent
HV_SPEC(pieces)
{
  constexpr int           dim = 2;
  const int               n   = hv_pick("n", 0, 6);
  const auto              m   = coefficients();
  MobilityScalar<dim, VA> M(provider(m));
  In<dim>                 x;
  x.draw(n, 0.05, 0.95);
  hv_assume(x.c > 0);
  hv_assume(x.c < 1);
  const double total = M.M_vol(x.value[0])[0] + M.M_vap(x.value[0])[0] + M.M_surf(x.value[0], x.grad[0])[0] +
                       M.M_gb(x.value + 2, n, x.grad + 2)[0];
  hv_check_eq(M.dM_dc(x.value[0], x.value + 2, x.grad[0], x.grad + 2)[0], hv_diff(total, x.c), "concentration derivative of the mobility");
  for (int k = 0; k < n; ++k)
    hv_check_eq(M.dM_detai(x.value[0], x.value + 2, n, x.grad[0], x.grad + 2, k)[0],
                hv_diff(total, x.e[k]),
                "order parameter derivative of the mobility");
  const auto T = M.dM_dgrad_c(x.value[0], x.grad[0], x.grad[1]);
  for (int a = 0; a < dim; ++a)
    for (int b = 0; b < dim; ++b)
      hv_check_eq(T[a][b][0], 0, "scalar mobility does not depend on the concentration gradient");
  hv_check_eq(M.dM_vol_dc(x.value[0])[0], hv_diff(M.M_vol(x.value[0])[0], x.c), "bulk part derivative");
  const auto S = M.dM_surf_dc(x.value[0], x.grad[0]);
  for (int a = 0; a < dim; ++a)
    for (int b = 0; b < dim; ++b)
      hv_check_eq(S[a][b][0], a == b ? hv_diff(M.M_surf(x.value[0], x.grad[0])[0], x.c) : 0., "surface part derivative");
  hv_cover("end");
}

// the mobility never becomes negative, also for overshooting concentrations
HV_SPEC(nonnegative)
{
  const int  n = hv_pick("n", 0, 4);
  const auto m = coefficients();
  hv_assume(m.Mvol >= 0 && m.Mvap >= 0 && m.Msurf >= 0 && m.Mgb >= 0);
  MobilityScalar<2, VA> M(provider(m));
  In<2>                 x;
  x.draw(n, -0.5, 1.5);
  for (int k = 0; k < n; ++k)
    hv_assume(x.e[k] >= 0);
  hv_check_le(0, M.M_vol(x.value[0])[0], "bulk part is not negative");
  hv_check_le(0, M.M_vap(x.value[0])[0], "vapour part is not negative");
  hv_check_le(0, M.M_surf(x.value[0], x.grad[0])[0], "surface part is not negative");
  hv_check_le(0, M.M_gb(x.value + 2, n, x.grad + 2)[0], "grain boundary part is not negative");
  hv_cover("end");
}

HV_SPEC(abstract_provider)
{
  const auto       m = coefficients();
  ProviderAbstract p(m.Mvol, m.Mvap, m.Msurf, m.Mgb, m.L);
  const auto       r = p.calculate(hv_real("t", 0, 10));
  hv_check_eq(r.Mvol, m.Mvol, "constants are returned");
  hv_check_eq(r.Mvap, m.Mvap, "constants are returned");
  hv_check_eq(r.Msurf, m.Msurf, "constants are returned");
  hv_check_eq(r.Mgb, m.Mgb, "constants are returned");
  hv_check_eq(r.L, m.L, "constants are returned");
  hv_cover("end");
}

struct Linear : public Function1D<double>
{
  double a, b;
  double
  value(const double x) const override
  {
    return a + b * x;
  }
};

static void
arrhenius(bool gas)
{
  auto f = std::make_shared<Linear>();
  f->a   = hv_real("T0", 300, 900);
  f->b   = hv_real("T1", 0.1, 3);
  double D[4], Q[4];
  for (int k = 0; k < 4; ++k)
    {
      D[k] = hv_real("D", 0.1, 3);
      Q[k] = gas ? hv_real("Q", 1000, 9000) : hv_real("Q", 0.05, 0.5);
    }
  const double omega = hv_real("omega", 0.5, 2), Dg = hv_real("Dgb", 0.1, 3), Qg = gas ? hv_real("Qgb", 1000, 9000) : hv_real("Qgb", 0.05, 0.5);
  const double w = hv_real("width", 0.5, 3), ts = hv_real("ts", 0.5, 2), ls = hv_real("ls", 0.5, 2), es = hv_real("es", 0.5, 2);
  const double t = hv_real("t", 0, 50);
  hv_assume(w > 0 && ts > 0 && ls > 0 && es > 0 && omega > 0);
  const double T = f->a + f->b * t;
  hv_assume(T > 0);
  const double                       kb = 8.617343e-5, R = 8.314;
  std::shared_ptr<MobilityProvider>  p;
  if (gas)
    p = std::make_shared<ProviderRealistic>(
      omega, D[0], D[1], D[2], D[3], Q[0], Q[1], Q[2], Q[3], Dg, Qg, w, ts, ls, es, f, ProviderRealistic::ArrheniusUnit::Gas);
  else
    p = std::make_shared<ProviderRealistic>(omega, D[0], D[1], D[2], D[3], Q[0], Q[1], Q[2], Q[3], Dg, Qg, w, ts, ls, es, f);
  const auto   m = p->calculate(t);
  const double u = (gas ? R : kb) * T;
  const double got[4] = {m.Mvol, m.Mvap, m.Msurf, m.Mgb};
  for (int k = 0; k < 4; ++k)
    {
      const double want = (D[k] * ts / (ls * ls)) * std::exp(-Q[k] / u) * (omega / (ls * ls * ls)) / u * es;
      hv_check_eq(got[k], want, "Arrhenius law in simulation units at the temperature of that time");
    }
  hv_check_eq(m.L, 4. / 3. * (Dg * ts * es / (ls * ls * ls * ls)) * std::exp(-Qg / u) / w, "grain boundary mobility law");
  MobilityScalar<2, VA> M(p);
  M.update(t);
  hv_check_eq(M.Lgb(), m.L, "updating takes over the coefficients of that time");
  hv_check_eq(M.M_vol(VA(1.))[0], m.Mvol, "updating takes over the bulk coefficient");
  hv_check_eq(M.M_vap(VA(0.))[0], m.Mvap, "updating takes over the vapour coefficient");
  hv_check_eq(M.M_surf(VA(0.5), Tensor<1, 2, VA>())[0], m.Msurf / 4, "updating takes over the surface coefficient");
  VA e[2] = {VA(1.), VA(0.5)};
  Tensor<1, 2, VA> g[2];
  hv_check_eq(M.M_gb(e, 2, g)[0], m.Mgb, "updating takes over the grain boundary coefficient");
  hv_cover("end");
}
HV_SPEC(arrhenius_boltzmann)
{
  arrhenius(false);
}
HV_SPEC(arrhenius_gas)
{
  arrhenius(true);
}
