// Contracts of the tensorial mobility: flux, the derivatives of the tangent and their
// matrix-valued pieces.
// hv: assume doubles are reals
// hv: assume the direction of the grain boundary normals is frozen in the tangent by design; every other dependence is differentiated
// hv: assume tangents are compared where the regularisation thresholds of the surface term are not active (|grad c| >= 1e-4, surface mobility >= 1e-6) and 0 < c < 1
#include <memory>
#include <pf-applications/base/tensor.h>
#include <pf-applications/sintering/mobility.h>
#include <hv.h>
using namespace dealii;
using namespace Sintering;
using VA = VectorizedArray<double, 1>;

struct Fixed : public MobilityProvider
{
  MobilityCoefficients m;
  MobilityCoefficients
  calculate(const double) const override
  {
    return m;
  }
};

static MobilityCoefficients
coefficients()
{
  MobilityCoefficients m;
  m.Mvol  = hv_real("Mvol", 0.01, 2);
  m.Mvap  = hv_real("Mvap", 0.01, 2);
  m.Msurf = hv_real("Msurf", 0.5, 5);
  m.Mgb   = hv_real("Mgb", 0.1, 3);
  m.L     = hv_real("L", 0.1, 3);
  return m;
}

static std::shared_ptr<MobilityProvider>
provider(const MobilityCoefficients &m)
{
  auto p = std::make_shared<Fixed>();
  p->m   = m;
  return p;
}

constexpr int NMAX = 12;
template <int dim>
struct In
{
  int                n;
  double             c, mu, e[NMAX], gc[dim], gmu[dim], ge[NMAX][dim];
  VA                 value[NMAX + 2];
  Tensor<1, dim, VA> grad[NMAX + 2];

  void
  draw(int n_, double lo, double hi)
  {
    n  = n_;
    c  = hv_real("c", lo, hi);
    mu = hv_real("mu", -1, 1);
    for (int k = 0; k < n; ++k)
      e[k] = hv_real("eta", 0, 1);
    for (int d = 0; d < dim; ++d)
      {
        gc[d]  = hv_real("grad_c", -1, 1);
        gmu[d] = hv_real("grad_mu", -1, 1);
        for (int k = 0; k < n; ++k)
          ge[k][d] = hv_real("grad_eta", -1, 1);
      }
    value[0] = c;
    value[1] = mu;
    for (int k = 0; k < n; ++k)
      value[2 + k] = e[k];
    for (int d = 0; d < dim; ++d)
      {
        grad[0][d] = gc[d];
        grad[1][d] = gmu[d];
        for (int k = 0; k < n; ++k)
          grad[2 + k][d] = ge[k][d];
      }
  }
};


constexpr double SCALE = 1.001; // keeps the surface tensor positive definite

template <int dim>
static double
dot(const double *a, const double *b)
{
  double s = 0;
  for (int d = 0; d < dim; ++d)
    s += a[d] * b[d];
  return s;
}

// reference flux; gn freezes the gradients that give the grain boundary normals
template <int dim>
static void
reference(const MobilityCoefficients &m, const In<dim> &x, double *j)
{
  const double c   = x.c;
  double       phi = c * c * c * (10 - 15 * c + 6 * c * c);
  if (phi < 0)
    phi = 0;
  if (phi > 1)
    phi = 1;
  const double fs = 4 * m.Msurf * c * c * (1 - c) * (1 - c);
  const double n2 = dot<dim>(x.gc, x.gc);
  const double iso = m.Mvol * phi + m.Mvap * (1 - phi) + SCALE * fs;
  const double pr  = n2 > 0 ? fs * dot<dim>(x.gc, x.gmu) / n2 : 0;
  for (int d = 0; d < dim; ++d)
    j[d] = iso * x.gmu[d] - pr * x.gc[d];
  for (int a = 0; a < x.n; ++a)
    for (int b = 0; b < a; ++b)
      {
        double g[dim];
        for (int d = 0; d < dim; ++d)
          g[d] = x.ge[a][d] - x.ge[b][d];
        const double g2 = dot<dim>(g, g), gp = dot<dim>(g, x.gmu) / g2;
        for (int d = 0; d < dim; ++d)
          j[d] += 2 * m.Mgb * x.e[a] * x.e[b] * (x.gmu[d] - g[d] * gp);
      }
}

template <int dim>
static void
regular_boundaries(const In<dim> &x)
{
  for (int a = 0; a < x.n; ++a)
    for (int b = 0; b < a; ++b)
      {
        double g2 = 0;
        for (int d = 0; d < dim; ++d)
          g2 += (x.ge[a][d] - x.ge[b][d]) * (x.ge[a][d] - x.ge[b][d]);
        hv_assume(g2 > 1e-12);
      }
}

template <int dim>
static void
flux(int n)
{
  const auto                 m = coefficients();
  MobilityTensorial<dim, VA> M(provider(m));
  In<dim>                    x;
  x.draw(n, -0.5, 1.5);
  hv_assume(dot<dim>(x.gc, x.gc) > 1e-12);
  regular_boundaries(x);
  const auto j = M.apply_M(x.value[0], x.value + 2, n, x.grad[0], x.grad + 2, x.grad[1]);
  double     r[dim];
  reference(m, x, r);
  for (int d = 0; d < dim; ++d)
    hv_check_eq(j[d][0], r[d], "flux: isotropic bulk and vapour, tangential surface and grain boundary transport");
  hv_check_eq(M.Lgb(), m.L, "grain boundary mobility constant");
  hv_cover("end");
}
HV_SPEC(flux_2d)
{
  flux<2>(hv_pick("n", 0, 3));
}
HV_SPEC(flux_3d)
{
  flux<3>(hv_pick("n", 0, 2));
}

// inside grains (vanishing gradients) nothing is divided by zero and only the isotropic part is left
HV_SPEC(flux_without_interfaces)
{
  constexpr int              dim = 2;
  const int                  n   = hv_pick("n", 0, 3);
  const auto                 m   = coefficients();
  MobilityTensorial<dim, VA> M(provider(m));
  In<dim>                    x;
  x.draw(n, 0.05, 0.95);
  hv_assume(x.c > 0);
  hv_assume(x.c < 1);
  x.grad[0] = Tensor<1, dim, VA>();
  for (int k = 0; k < n; ++k)
    x.grad[2 + k] = Tensor<1, dim, VA>();
  const auto   j   = M.apply_M(x.value[0], x.value + 2, n, x.grad[0], x.grad + 2, x.grad[1]);
  const double c   = x.c, phi = c * c * c * (10 - 15 * c + 6 * c * c);
  double       pr  = 0;
  for (int a = 0; a < n; ++a)
    for (int b = 0; b < a; ++b)
      pr += x.e[a] * x.e[b];
  const double total = m.Mvol * phi + m.Mvap * (1 - phi) + SCALE * 4 * m.Msurf * c * c * (1 - c) * (1 - c) + 2 * m.Mgb * pr;
  for (int d = 0; d < dim; ++d)
    hv_check_eq(j[d][0], total * x.gmu[d], "without interface normals the flux is isotropic");
  hv_cover("end");
}

template <int dim>
static void
tangent(int n)
{
  const auto                 m = coefficients();
  MobilityTensorial<dim, VA> M(provider(m));
  In<dim>                    x, v;
  x.draw(n, 0.05, 0.95);
  hv_assume(x.c > 0);
  hv_assume(x.c < 1);
  hv_assume(4 * m.Msurf * x.c * x.c * (1 - x.c) * (1 - x.c) >= 1e-6);
  hv_assume(dot<dim>(x.gc, x.gc) >= 1e-8);
  regular_boundaries(x);
  v.draw(n, -1, 1);
  const auto j  = M.apply_M(x.value[0], x.value + 2, n, x.grad[0], x.grad + 2, x.grad[1]);
  const auto dj = M.apply_M_derivative(x.value, x.grad, n, v.value, v.grad);
  for (int d = 0; d < dim; ++d)
    {
      double s = hv_diff(j[d][0], x.c) * v.c + hv_diff(j[d][0], x.mu) * v.mu;
      for (int k = 0; k < n; ++k)
        s += hv_diff(j[d][0], x.e[k]) * v.e[k];
      for (int a = 0; a < dim; ++a)
        s += hv_diff(j[d][0], x.gc[a]) * v.gc[a] + hv_diff(j[d][0], x.gmu[a]) * v.gmu[a];
      hv_check_eq(dj[d][0], s, "tangent of the flux is its derivative");
    }
  hv_cover("end");
}
HV_SPEC(tangent_2d)
{
  tangent<2>(hv_pick("n", 0, 3));
}
HV_SPEC(tangent_3d)
{
  tangent<3>(hv_pick("n", 0, 2));
}

// the matrices used by the matrix-based tangent
HV_SPEC(pieces)
{
  constexpr int              dim = 2;
  const int                  n   = hv_pick("n", 0, 3);
  const auto                 m   = coefficients();
  MobilityTensorial<dim, VA> M(provider(m));
  In<dim>                    x;
  x.draw(n, 0.05, 0.95);
  hv_assume(x.c > 0);
  hv_assume(x.c < 1);
  hv_assume(4 * m.Msurf * x.c * x.c * (1 - x.c) * (1 - x.c) >= 1e-6);
  hv_assume(dot<dim>(x.gc, x.gc) >= 1e-8);
  regular_boundaries(x);
  const auto j  = M.apply_M(x.value[0], x.value + 2, n, x.grad[0], x.grad + 2, x.grad[1]);
  const auto dc = M.dM_dc(x.value[0], x.value + 2, x.grad[0], x.grad + 2) * x.grad[1];
  const auto dg = M.dM_dgrad_c(x.value[0], x.grad[0], x.grad[1]);
  const auto ds = M.dM_surf_dc(x.value[0], x.grad[0]);
  const double dfs = 8 * m.Msurf * x.c * (1 - x.c) * (1 - 2 * x.c);
  for (int a = 0; a < dim; ++a)
    {
      for (int b = 0; b < dim; ++b)
        hv_check_eq(ds[a][b][0],
                    dfs * ((a == b ? SCALE : 0.) - x.gc[a] * x.gc[b] / dot<dim>(x.gc, x.gc)),
                    "concentration derivative of the surface part");
      hv_check_eq(dc[a][0], hv_diff(j[a][0], x.c), "concentration derivative of the flux");
      for (int b = 0; b < dim; ++b)
        hv_check_eq(dg[a][b][0], hv_diff(j[a][0], x.gc[b]), "concentration gradient derivative of the flux");
    }
  for (int k = 0; k < n; ++k)
    {
      const auto de = M.dM_detai(x.value[0], x.value + 2, n, x.grad[0], x.grad + 2, k) * x.grad[1];
      for (int a = 0; a < dim; ++a)
        hv_check_eq(de[a][0], hv_diff(j[a][0], x.e[k]), "order parameter derivative of the flux");
    }
  hv_cover("end");
}

HV_SPEC(parts)
{
  constexpr int              dim = 2;
  const int                  n   = hv_pick("n", 0, 3);
  const auto                 m   = coefficients();
  MobilityTensorial<dim, VA> M(provider(m));
  In<dim>                    x;
  x.draw(n, -0.5, 1.5);
  hv_assume(dot<dim>(x.gc, x.gc) > 1e-12);
  regular_boundaries(x);
  const double c = x.c;
  double       phi = c * c * c * (10 - 15 * c + 6 * c * c);
  if (phi < 0)
    phi = 0;
  if (phi > 1)
    phi = 1;
  const auto   V = M.M_vol(x.value[0]), P = M.M_vap(x.value[0]), S = M.M_surf(x.value[0], x.grad[0]);
  const auto   G = M.M_gb(x.value + 2, n, x.grad + 2);
  const double fs = 4 * m.Msurf * c * c * (1 - c) * (1 - c), n2 = dot<dim>(x.gc, x.gc);
  for (int a = 0; a < dim; ++a)
    for (int b = 0; b < dim; ++b)
      {
        const double I = a == b;
        hv_check_eq(V[a][b][0], I * m.Mvol * phi, "bulk part");
        hv_check_eq(P[a][b][0], I * m.Mvap * (1 - phi), "vapour part");
        hv_check_eq(S[a][b][0], fs * (I - x.gc[a] * x.gc[b] / n2), "surface part projects onto the surface");
        double g = 0;
        for (int i = 0; i < n; ++i)
          for (int k = 0; k < i; ++k)
            {
              double q[2] = {x.ge[i][0] - x.ge[k][0], x.ge[i][1] - x.ge[k][1]};
              g += 2 * m.Mgb * x.e[i] * x.e[k] * (I - q[a] * q[b] / dot<dim>(q, q));
            }
        hv_check_eq(G[a][b][0], g, "grain boundary part projects onto the boundary plane");
      }
  const auto dV = M.dM_vol_dc(x.value[0]);
  if (c > 0 && c < 1)
    for (int a = 0; a < dim; ++a)
      for (int b = 0; b < dim; ++b)
        hv_check_eq(dV[a][b][0], hv_diff(V[a][b][0], x.c), "bulk part derivative");
  hv_cover("end");
}
