// Reported scalar quantities: each label stands for its documented integrand, and the reported number is the
// integral of that integrand over the (filtered) domain.
// hv: flags -fno-access-control
// hv: assume doubles are reals
// hv: assume deal.II vectors, matrix-free loops and cell evaluation behave as the stand-ins of hv_fem.h
// hv: bound three cells in batches of two, two integration points, up to 3 order parameters

#define HV_LANES 2
#include <hv_dealii.h>
#include <hv_fem.h>
#include <hv_sintering.h>
#include <pf-applications/sintering/operator_grain_growth.h>
#include <pf-applications/sintering/operator_grand_potential_greenquist.h>
using namespace hvs;
namespace dealii
{
  namespace Utilities
  {
    namespace MPI
    {
      template <>
      double sum(const double &t, const MPI_Comm) { return t; }
    } // namespace MPI
  } // namespace Utilities
} // namespace dealii
template <>
void
OperatorBase<2, double, VA, SinteringOperatorGeneric<2, double, VA>>::initialize_system_matrix(bool, bool) const
{}
template <>
void
OperatorBase<2, double, VA, GrainGrowthOperator<2, double, VA>>::initialize_system_matrix(bool, bool) const
{}
template <>
void
OperatorBase<2, double, VA, GreenquistGrandPotentialOperator<2, double, VA>>::initialize_system_matrix(bool, bool) const
{}

struct Model
{
  static constexpr int              dim = 2;
  unsigned int                      n, extra;
  MatrixFree<dim, double, VA>       mf;
  AffineConstraints<double>         ac;
  double                            A, B, kappa_c, kappa_p;
  FreeEnergy<VA>                    fe;
  SinteringOperatorData<dim, VA>    data;
  AdvectionMechanism<dim, double, VA> adv;
  std::vector<std::shared_ptr<BV>>  old;
  TimeIntegration::SolutionHistory<BV> history;
  BV                                u;
  Model(unsigned int n, unsigned int extra, unsigned int cells)
    : n(n)
    , extra(extra)
    , mf(cells)
    , A(hv_real("A", 1, 20))
    , B(hv_real("B", 0.5, 3))
    , kappa_c(hv_real("kappa_c", 0.1, 2))
    , kappa_p(hv_real("kappa_p", 0.1, 2))
    , fe(A, B)
    , data(kappa_c, kappa_p, provider(), time_data(1), extra)
    , adv(false, 0, 0)
    , old(2)
    , history(old)
  {
    for (auto &o : old)
      o = std::make_shared<BV>();
    data.set_n_components(n + extra);
    draw(u, mf, n + extra, "u", -0.1, 1.1);
    hv::points.resize(cells);
    hv::weights.resize(cells);
    for (unsigned int c = 0; c < cells; ++c)
      for (unsigned int q = 0; q < hv::NQ; ++q)
        {
          hv::weights[c][q] = hv_real("weight", 0.1, 1);
          for (unsigned int d = 0; d < 3; ++d)
            hv::points[c][q][d] = hv_real("x", -1, 1);
        }
  }
  double value(unsigned int b, unsigned int cell, unsigned int q) const { return u.block(b)(cell * mf.dofs + q * (1 + dim)); }
  double gradient2(unsigned int b, unsigned int cell, unsigned int q) const
  {
    double s = 0;
    for (unsigned int d = 0; d < dim; ++d)
      {
        const double g = u.block(b)(cell * mf.dofs + q * (1 + dim) + 1 + d);
        s += g * g;
      }
    return s;
  }
  // documented integrands of the sintering model (extra == 2) and of the grain growth model (extra == 0)
  double bulk(unsigned int cell, unsigned int q) const
  {
    if (extra == 0)
      {
        double f = 0.25;
        for (unsigned int i = 0; i < n; ++i)
          {
            const double e = value(i, cell, q);
            f += -A / 2 * e * e + B / 4 * e * e * e * e;
            for (unsigned int j = 0; j < i; ++j)
              f += e * e * value(j, cell, q) * value(j, cell, q);
          }
        return f;
      }
    double e2 = 0, e3 = 0;
    for (unsigned int i = 0; i < n; ++i)
      {
        const double e = value(extra + i, cell, q);
        e2 += e * e;
        e3 += e * e * e;
      }
    const double c = value(0, cell, q);
    return A * c * c * (1 - c) * (1 - c) + B * (c * c + 6 * (1 - c) * e2 - 4 * (2 - c) * e3 + 3 * e2 * e2);
  }
  double interfaces(unsigned int cell, unsigned int q) const
  {
    double s = 0;
    for (unsigned int i = 0; i < n; ++i)
      s += 0.5 * kappa_p * gradient2(extra + i, cell, q);
    if (extra > 0)
      s += 0.5 * kappa_c * gradient2(0, cell, q);
    return s;
  }
  double integrand(const std::string &label, unsigned int cell, unsigned int q) const
  {
    if (label == "solid_vol" || label == "void_vol")
      return value(0, cell, q);
    if (label == "surf_area")
      return value(0, cell, q) * (1 - value(0, cell, q));
    if (label == "surf_area_nrm")
      return value(0, cell, q) >= 0.45 && value(0, cell, q) <= 0.55 ? 1 : 0;
    if (label == "gb_area" || label == "avg_grain_size")
      {
        double s = 0;
        for (unsigned int i = 0; i < n; ++i)
          if (label == "gb_area")
            for (unsigned int j = 0; j < i; ++j)
              s += value(extra + i, cell, q) * value(extra + j, cell, q);
          else
            s += value(extra + i, cell, q) * value(extra + i, cell, q);
        return s;
      }
    if (label == "bulk_energy")
      return bulk(cell, q);
    if (label == "interface_energy")
      return interfaces(cell, q);
    if (label == "free_energy")
      return bulk(cell, q) + interfaces(cell, q);
    if (label == "control_vol")
      return 1;
    const unsigned int i = label[3] - '0'; // op_i
    return i < n ? value(extra + i, cell, q) : 0;
  }
  template <typename Operator>
  void
  check(Operator &op, const std::vector<std::string> &labels)
  {
    auto [names, evaluators] = op.build_domain_quantities_evaluators(labels);
    std::vector<std::string> expected;
    for (const auto &l : labels)
      if (l == "order_params")
        for (unsigned int i = 0; i < MAX_SINTERING_GRAINS; ++i)
          expected.push_back(std::string("op_") + char('0' + i));
      else
        expected.push_back(l);
    hv_check_ieq(names.size(), expected.size(), "one name per quantity");
    hv_check_ieq(evaluators.size(), expected.size(), "one number per quantity");
    for (unsigned int i = 0; i < expected.size(); ++i)
      hv_check(names[i] == expected[i], "quantities are reported in the order requested");
    const auto   before = u.block(0).v;
    const bool   filter = hv_bool("filter");
    const double a      = hv_real("a", -1, 1);
    const auto   r      = filter ? op.calc_domain_quantities(evaluators, u, [a](const Point<dim, VA> &p) { return p[0] + a * p[1]; }) :
                                   op.calc_domain_quantities(evaluators, u);
    hv_check_ieq(r.size(), expected.size(), "one result per quantity");
    for (unsigned int k = 0; k < expected.size(); ++k)
      {
        double s = 0;
        for (unsigned int c = 0; c < mf.n_physical_cells(); ++c)
          for (unsigned int q = 0; q < hv::NQ; ++q)
            s += integrand(expected[k], c, q) * hv::weights[c][q] *
                 (filter ? hv::points[c][q][0] + a * hv::points[c][q][1] : 1.);
        hv_check_eq(r[k], s, "the reported number is the integral of the quantity");
      }
    hv_check(!u.block(0).has_ghost_elements(), "ghost values are released");
    for (unsigned int i = 0; i < before.size(); ++i)
      hv_check_eq(u.block(0)(i), before[i], "the solution is not changed");
    bool rejected = false;
    try
      {
        op.build_domain_quantities_evaluators(std::vector<std::string>{"surf"});
      }
    catch (const std::exception &)
      {
        rejected = true;
      }
    hv_check(rejected, "unknown quantities are rejected");
    hv_cover("end");
  }
};

static void
sintering(unsigned int n, unsigned int cells, const std::vector<std::string> &labels)
{
  Model                                   s(n, 2, cells);
  SinteringOperatorGeneric<2, double, VA> op(s.mf, s.ac, s.fe, s.data, s.history, s.adv, false, false);
  s.check(op, labels);
}
HV_SPEC(sintering_integrals)
{
  sintering(3, 3, {"gb_area", "solid_vol", "surf_area", "avg_grain_size", "control_vol"});
}
HV_SPEC(sintering_energies)
{
  sintering(2, 3, {"free_energy", "interface_energy", "bulk_energy"});
}
HV_SPEC(sintering_order_parameters)
{
  sintering(hv_pick("n", 0, 3), 1, {"control_vol", "order_params", "solid_vol"});
}
HV_SPEC(sintering_interface)
{
  sintering(1, 1, {"surf_area_nrm"});
}

HV_SPEC(grain_growth)
{
  const unsigned int                 n = hv_pick("n", 1, 3);
  Model                              s(n, 0, 3);
  GrainGrowthOperator<2, double, VA> op(s.mf, s.ac, GrainGrowthFreeEnergy<VA>(s.A, s.B), s.data, s.history, false);
  s.check(op, {"free_energy", "gb_area", "avg_grain_size", "interface_energy", "order_params", "control_vol", "bulk_energy"});
}
HV_SPEC(grand_potential)
{
  const unsigned int                              n = hv_pick("n", 0, 3);
  Model                                           s(n, 2, 3);
  GreenquistFreeEnergy<VA>                        fe(1, 1);
  GreenquistGrandPotentialOperator<2, double, VA> op(s.mf, s.ac, fe, s.data, s.history, false);
  s.check(op, {"control_vol", "void_vol", "order_params", "surf_area", "gb_area", "avg_grain_size"});
}
