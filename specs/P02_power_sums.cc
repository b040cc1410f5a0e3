// Contracts of PowerHelper::power_sum and of the evaluator overloads of FreeEnergy:
// every storage variant computes the same mathematical sum.
#include <pf-applications/numerics/power_helper.h>
#include <pf-applications/sintering/free_energy.h>
#include <hv.h>
using namespace dealii;
using namespace hpsint;
using namespace Sintering;
using VA = VectorizedArray<double, 1>;

template <int n, int p>
static void
sums()
{
  std::array<double, n> e;
  Tensor<1, n, double>  t;
  std::vector<double>   v(n);
  std::array<VA, n>     a;
  double                want = 0;
  for (int i = 0; i < n; ++i)
    {
      e[i] = hv_real("eta", -1, 2);
      t[i] = e[i];
      v[i] = e[i];
      a[i] = e[i];
      double w = 1;
      for (int k = 0; k < p; ++k)
        w *= e[i];
      want += w;
    }
  hv_check_eq((PowerHelper<n, p>::power_sum(&e[0])), want, "pointer variant is the sum of powers");
  hv_check_eq((PowerHelper<n, p>::power_sum(e)), want, "array variant is the sum of powers");
  hv_check_eq((PowerHelper<n, p>::power_sum(t)), want, "tensor variant is the sum of powers");
  hv_check_eq((PowerHelper<0, p>::power_sum(v)), want, "vector variant is the sum of powers");
  hv_check_eq((PowerHelper<n, p>::power_sum(a))[0], want, "SIMD array variant is the sum of powers");
  hv_check_eq((PowerHelper<n, p>::power_sum(&a[0]))[0], want, "SIMD pointer variant is the sum of powers");
}
template <int n>
static void
all_powers()
{
  sums<n, 1>();
  sums<n, 2>();
  sums<n, 3>();
  sums<n, 4>();
}
HV_SPEC(sums_1) { all_powers<1>(); hv_cover("end"); }
HV_SPEC(sums_2) { sums<2, 2>(); sums<2, 3>(); hv_cover("end"); }
HV_SPEC(sums_3) { all_powers<3>(); hv_cover("end"); }
HV_SPEC(sums_4) { all_powers<4>(); hv_cover("end"); }
HV_SPEC(sums_5) { all_powers<5>(); hv_cover("end"); }
HV_SPEC(sums_10) { sums<10, 2>(); sums<10, 3>(); hv_cover("end"); }

template <typename E1, typename E2>
static void
same(const E1 &a, const E2 &b, double e, double g, const char *l)
{
  hv_check_eq(a.f()[0], b.f()[0], l);
  hv_check_eq(a.df_dc()[0], b.df_dc()[0], l);
  hv_check_eq(a.d2f_dc2()[0], b.d2f_dc2()[0], l);
  hv_check_eq(a.df_detai(VA(e))[0], b.df_detai(VA(e))[0], l);
  hv_check_eq(a.d2f_detai2(VA(e))[0], b.d2f_detai2(VA(e))[0], l);
  hv_check_eq(a.d2f_dcdetai(VA(e))[0], b.d2f_dcdetai(VA(e))[0], l);
  hv_check_eq(a.d2f_detaidetaj(VA(e), VA(g))[0], b.d2f_detaidetaj(VA(e), VA(g))[0], l);
}

template <int n>
static void
variants()
{
  FreeEnergy<VA>            fe(hv_real("A", 0.5, 20), hv_real("B", 0.1, 5));
  VA                        st[n + 2];
  std::array<VA, n + 2>     ar;
  Tensor<1, n + 2, VA>      te;
  std::vector<VA>           ve(n + 2);
  for (int i = 0; i < n + 2; ++i)
    st[i] = ar[i] = te[i] = ve[i] = hv_real("s", -0.5, 1.5);
  const double e = hv_real("e", -0.5, 1.5), g = hv_real("g", -0.5, 1.5);
  const auto   ref = fe.template eval<EnergyAll, n>(&st[0]);
  const VA    *cst = &st[0];
  same(ref, fe.template eval<EnergyAll>(cst, (unsigned int)n), e, g, "runtime grain count over a pointer agrees");
  same(ref, fe.template eval<EnergyAll>(ve, (unsigned int)n), e, g, "runtime grain count over a vector agrees");
  same(ref, fe.template eval<EnergyAll, n>(ar), e, g, "fixed grain count over an array agrees");
  same(ref, fe.template eval<EnergyAll, n>(te), e, g, "fixed grain count over a tensor agrees");
  same(ref, fe.template eval<EnergyAll>(ar), e, g, "deduced grain count over an array agrees");
  same(ref, fe.template eval<EnergyAll>(te), e, g, "deduced grain count over a tensor agrees");
  const auto z = fe.template eval<EnergyZero, n>(&st[0]);
  hv_check_eq(z.f()[0], ref.f()[0], "energy-only evaluator agrees");
  const auto f = fe.template eval<EnergyFirst, n>(&st[0]);
  hv_check_eq(f.df_dc()[0], ref.df_dc()[0], "first-derivative evaluator agrees");
  const auto s = fe.template eval<EnergySecond, n>(&st[0]);
  hv_check_eq(s.d2f_dc2()[0], ref.d2f_dc2()[0], "second-derivative evaluator agrees");
  hv_check_eq(s.d2f_detai2(VA(e))[0], ref.d2f_detai2(VA(e))[0], "second-derivative evaluator agrees");
  hv_cover("end");
}
HV_SPEC(variants_1) { variants<1>(); hv_cover("end"); }
HV_SPEC(variants_2) { variants<2>(); hv_cover("end"); }
HV_SPEC(variants_3) { variants<3>(); hv_cover("end"); }
HV_SPEC(variants_5) { variants<5>(); hv_cover("end"); }
HV_SPEC(variants_10) { variants<10>(); hv_cover("end"); }
