// Contracts of Sintering::FreeEnergy: every declared derivative is the exact
// derivative of f over all real states and all A, B, for every number of order
// parameters the templated code is instantiated with.
// hv: assume doubles are reals
#include <pf-applications/sintering/free_energy.h>
#include <hv.h>
#include <array>
#include <vector>
using namespace dealii;
using namespace Sintering;
using VA = VectorizedArray<double, 1>;

struct In
{
  double A, B, c, mu, e[16];
};
static In
inputs(int n)
{
  In i;
  i.A  = hv_real("A", 0.5, 20);
  i.B  = hv_real("B", 0.1, 5);
  i.c  = hv_real("c", -0.5, 1.5);
  i.mu = hv_real("mu", -1, 1);
  for (int k = 0; k < n; ++k)
    i.e[k] = hv_real("eta", -0.5, 1.5);
  return i;
}

template <typename Ev>
static void
derivatives(const Ev &ev, const In &in, int n)
{
  const double f = ev.f()[0];
  // closed form of the energy this class documents
  double s2 = 0, s3 = 0;
  for (int k = 0; k < n; ++k)
    {
      s2 += in.e[k] * in.e[k];
      s3 += in.e[k] * in.e[k] * in.e[k];
    }
  hv_check_eq(f,
              in.A * in.c * in.c * (1 - in.c) * (1 - in.c) +
                in.B * (in.c * in.c + 6 * (1 - in.c) * s2 - 4 * (2 - in.c) * s3 + 3 * s2 * s2),
              "f is the documented free energy");
  const double dc = ev.df_dc()[0];
  hv_check_eq(dc, hv_diff(f, in.c), "df_dc is the c-derivative of f");
  hv_check_eq(ev.d2f_dc2()[0], hv_diff(dc, in.c), "d2f_dc2 is the c-derivative of df_dc");
  for (int i = 0; i < n; ++i)
    {
      const VA     ei(in.e[i]);
      const double di = ev.df_detai(ei)[0];
      hv_check_eq(di, hv_diff(f, in.e[i]), "df_detai is the eta_i-derivative of f");
      hv_check_eq(ev.d2f_dcdetai(ei)[0], hv_diff(dc, in.e[i]), "d2f_dcdetai is the eta_i-derivative of df_dc");
      hv_check_eq(ev.d2f_dcdetai(ei)[0], hv_diff(di, in.c), "d2f_dcdetai is the c-derivative of df_detai");
      hv_check_eq(ev.d2f_detai2(ei)[0], hv_diff(di, in.e[i]), "d2f_detai2 is the eta_i-derivative of df_detai");
      for (int j = 0; j < n; ++j)
        if (j != i)
          {
            hv_check_eq(ev.d2f_detaidetaj(ei, VA(in.e[j]))[0],
                        hv_diff(di, in.e[j]),
                        "d2f_detaidetaj is the eta_j-derivative of df_detai");
            hv_check_eq(ev.d2f_detaidetaj(ei, VA(in.e[j]))[0],
                        ev.d2f_detaidetaj(VA(in.e[j]), ei)[0],
                        "mixed second derivative is symmetric");
          }
    }
  hv_cover("end");
}

template <int n>
static void
pointer_state()
{
  const In             in = inputs(n);
  FreeEnergy<VA>       fe(in.A, in.B);
  VA                   st[n + 2];
  st[0] = in.c;
  st[1] = in.mu;
  for (int k = 0; k < n; ++k)
    st[2 + k] = in.e[k];
  derivatives(fe.template eval<EnergyAll, n>(&st[0]), in, n);
}
HV_SPEC(derivatives_1) { pointer_state<1>(); hv_cover("end"); }
HV_SPEC(derivatives_2) { pointer_state<2>(); hv_cover("end"); }
HV_SPEC(derivatives_3) { pointer_state<3>(); hv_cover("end"); }
HV_SPEC(derivatives_4) { pointer_state<4>(); hv_cover("end"); }
HV_SPEC(derivatives_7) { pointer_state<7>(); hv_cover("end"); }
HV_SPEC(derivatives_10) { pointer_state<10>(); hv_cover("end"); }

// f is at most cubic per order parameter sum, so equality of every derivative of
// order <= 2 plus these special values pins the minima the model relies on
HV_SPEC(minima)
{
  const double   A = hv_real("A", 0.5, 20), B = hv_real("B", 0.1, 5);
  FreeEnergy<VA> fe(A, B);
  VA             st[4];
  const long     which = hv_pick("which", 0, 2);
  st[0]                = which == 0 ? 0. : 1.;
  st[1]                = hv_real("mu", -1, 1);
  st[2]                = which == 1 ? 1. : 0.;
  st[3]                = which == 2 ? 1. : 0.;
  const auto ev        = fe.template eval<EnergyAll, 2>(&st[0]);
  hv_check_eq(ev.f()[0], 0., "energy vanishes in the void and in every pure grain");
  hv_check_eq(ev.df_dc()[0], 0., "void and pure grain are stationary in c");
  hv_check_eq(ev.df_detai(st[2])[0], 0., "void and pure grain are stationary in eta_1");
  hv_check_eq(ev.df_detai(st[3])[0], 0., "void and pure grain are stationary in eta_2");
  hv_cover("end");
}

template <int n>
static void
mixed_term()
{
  FreeEnergy<VA> fe(hv_real("A", 0.5, 20), hv_real("B", 0.1, 5));
  const VA       L = hv_real("L", 0.1, 3);
  VA             st[n + 2], val[n], res[n];
  double         r0[n];
  for (int i = 0; i < n + 2; ++i)
    st[i] = hv_real("s", -0.5, 1.5);
  for (int i = 0; i < n; ++i)
    {
      val[i] = hv_real("v", -1, 1);
      r0[i]  = hv_real("r", -1, 1);
      res[i] = r0[i];
    }
  const auto ev = fe.template eval<EnergySecond, n>(&st[0]);
  fe.apply_d2f_detaidetaj(L, &st[2], n, &val[0], &res[0]);
  for (int i = 0; i < n; ++i)
    {
      double s = 0;
      for (int j = 0; j < n; ++j)
        if (j != i)
          s += ev.d2f_detaidetaj(st[2 + i], st[2 + j])[0] * val[j][0];
      hv_check_eq(res[i][0], r0[i] + L[0] * s, "apply_d2f_detaidetaj adds L times the off-diagonal Hessian product");
      hv_check_eq(val[i][0], val[i][0], "operand");
    }
  hv_cover("end");
}
HV_SPEC(mixed_1) { mixed_term<1>(); hv_cover("end"); }
HV_SPEC(mixed_2) { mixed_term<2>(); hv_cover("end"); }
HV_SPEC(mixed_3) { mixed_term<3>(); hv_cover("end"); }
HV_SPEC(mixed_6) { mixed_term<6>(); hv_cover("end"); }

// the evaluator is the same whatever way the state is handed over and whatever is requested from it
template <typename Ev>
static void
first_kind(const Ev &ev, const In &in, int n)
{
  double s2 = 0, s3 = 0;
  for (int k = 0; k < n; ++k)
    {
      s2 += in.e[k] * in.e[k];
      s3 += in.e[k] * in.e[k] * in.e[k];
    }
  hv_check_eq(ev.f()[0],
              in.A * in.c * in.c * (1 - in.c) * (1 - in.c) +
                in.B * (in.c * in.c + 6 * (1 - in.c) * s2 - 4 * (2 - in.c) * s3 + 3 * s2 * s2),
              "f is the documented free energy");
  hv_check_eq(ev.df_dc()[0], 2 * in.A * in.c * (1 - in.c) * (1 - 2 * in.c) + in.B * (2 * in.c - 6 * s2 + 4 * s3), "documented df_dc");
}
template <typename Ev>
static void
second_kind(const Ev &ev, const In &in, int n)
{
  double s2 = 0;
  for (int k = 0; k < n; ++k)
    s2 += in.e[k] * in.e[k];
  hv_check_eq(ev.d2f_dc2()[0], in.A * (2 - 12 * in.c + 12 * in.c * in.c) + 2 * in.B, "documented d2f_dc2");
  for (int k = 0; k < n; ++k)
    {
      const VA     e(in.e[k]);
      const double x = in.e[k];
      hv_check_eq(ev.df_detai(e)[0], 12 * in.B * x * (1 - in.c - (2 - in.c) * x + s2), "documented df_detai");
      hv_check_eq(ev.d2f_dcdetai(e)[0], 12 * in.B * x * (x - 1), "documented d2f_dcdetai");
      hv_check_eq(ev.d2f_detai2(e)[0], 12 * in.B * (1 - in.c - 2 * (2 - in.c) * x + 2 * x * x + s2), "documented d2f_detai2");
    }
}
template <int n>
static void
variants()
{
  const In               in = inputs(n);
  FreeEnergy<VA>         fe(in.A, in.B);
  std::array<VA, n + 2>  st;
  std::vector<VA>        sv(n + 2);
  Tensor<1, n + 2, VA>   ts;
  st[0] = in.c;
  st[1] = in.mu;
  for (int k = 0; k < n; ++k)
    st[2 + k] = in.e[k];
  for (int k = 0; k < n + 2; ++k)
    sv[k] = ts[k] = st[k];
  const VA *p   = st.data();
  const auto go = [&](const auto &ev) {
    first_kind(ev, in, n);
    second_kind(ev, in, n);
  };
  switch (hv_pick("variant", 0, 13))
    {
      case 0:
        return go(fe.template eval<EnergyAll>(p, n));
      case 1:
        return go(fe.template eval<EnergyAll>(st, n));
      case 2:
        return go(fe.template eval<EnergyAll>(sv, n));
      case 3:
        return go(fe.template eval<EnergyAll, n>(st));
      case 4:
        return go(fe.template eval<EnergyAll, n>(sv));
      case 5:
        return go(fe.template eval<EnergyAll>(st));
      case 6:
        return go(fe.template eval<EnergyAll>(ts));
      case 7:
        return go(fe.template eval<EnergyAll, n>(ts));
      case 8:
        return first_kind(fe.template eval<EnergyZero>(p, n), in, n);
      case 9:
        return go(fe.template eval<EnergyFirst>(st));
      case 10:
        return second_kind(fe.template eval<EnergySecond>(st), in, n);
      case 11:
        return second_kind(fe.template eval<EnergySecond>(p, n), in, n);
      case 12:
        return go(fe.template eval<EnergyFirst>(ts, n));
      default:
        return second_kind(fe.template eval<EnergySecond, n>(p), in, n);
    }
}
HV_SPEC(variants_0) { variants<0>(); hv_cover("end"); }
HV_SPEC(variants_1) { variants<1>(); hv_cover("end"); }
HV_SPEC(variants_2) { variants<2>(); hv_cover("end"); }
HV_SPEC(variants_3) { variants<3>(); hv_cover("end"); }
HV_SPEC(variants_4) { variants<4>(); hv_cover("end"); }
HV_SPEC(variants_5) { variants<5>(); hv_cover("end"); }
HV_SPEC(variants_6) { variants<6>(); hv_cover("end"); }
HV_SPEC(variants_8) { variants<8>(); hv_cover("end"); }
HV_SPEC(variants_9) { variants<9>(); hv_cover("end"); }
