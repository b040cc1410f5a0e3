// Fields written to the output: each requested field appears under its own name with the value it is named for.
// hv: flags -fno-access-control
// hv: assume doubles are reals
// hv: assume deal.II vectors, matrix-free loops, cell evaluation, projection to nodes and output behave as the stand-ins of hv_fem.h and hv_output.h
// hv: assume derivatives of the free energy and mobilities are as proved for P01, P03 and P24
// hv: bound three cells in batches of two, two integration points, up to 3 order parameters

#define HV_LANES 2
#include <hv_dealii.h>
#include <hv_fem.h>
#include <hv_output.h>
#include <hv_sintering.h>
#include <pf-applications/sintering/operator_grain_growth.h>
#include <pf-applications/sintering/operator_grand_potential_greenquist.h>
#include <pf-applications/sintering/operator_postproc.h>
#include <map>
#include <set>
using namespace hvs;
using V = LinearAlgebra::distributed::Vector<double>;
// resolving constraints: the first entry is given by the others
static double at_constraint;
namespace dealii
{
  template <>
  template <>
  void
  AffineConstraints<double>::distribute(V &v) const
  {
    v(0) = at_constraint;
  }
} // namespace dealii
template <>
void
OperatorBase<2, double, VA, SinteringOperatorGeneric<2, double, VA>>::initialize_system_matrix(bool, bool) const
{}
template <>
void
OperatorBase<2, double, VA, GrainGrowthOperator<2, double, VA>>::initialize_system_matrix(bool, bool) const
{}
template <>
void
OperatorBase<2, double, VA, GreenquistGrandPotentialOperator<2, double, VA>>::initialize_system_matrix(bool, bool) const
{}
template <>
void
OperatorBase<2, double, VA, PostprocOperator<2, double, VA>>::initialize_system_matrix(bool, bool) const
{}

static std::string
number(const unsigned int i)
{
  return std::string(1, char('0' + i));
}

struct Model
{
  static constexpr int                 dim = 2;
  unsigned int                         n, extra;
  MatrixFree<dim, double, VA>          mf;
  AffineConstraints<double>            ac;
  double                               A, B, kappa_c, kappa_p;
  FreeEnergy<VA>                       fe;
  GrainGrowthFreeEnergy<VA>            gg;
  SinteringOperatorData<dim, VA>       data;
  AdvectionMechanism<dim, double, VA>  adv;
  std::vector<std::shared_ptr<BV>>     old;
  TimeIntegration::SolutionHistory<BV> history;
  BV                                   u;
  DataOut<dim>                         out;
  Model(unsigned int n, unsigned int extra, unsigned int cells)
    : n(n)
    , extra(extra)
    , mf(cells)
    , A(hv_real("A", 1, 20))
    , B(hv_real("B", 0.5, 3))
    , kappa_c(hv_real("kappa_c", 0.1, 2))
    , kappa_p(hv_real("kappa_p", 0.1, 2))
    , fe(A, B)
    , gg(A, B)
    , data(kappa_c, kappa_p, provider(), time_data(1), extra)
    , adv(false, 0, 0)
    , old(2)
    , history(old)
  {
    for (auto &o : old)
      o = std::make_shared<BV>();
    data.set_n_components(n + extra);
    draw(u, mf, n + extra, "u", 0.1, 0.9);
    at_constraint = hv_real("constrained", -1, 1);
  }
  double value(unsigned int b, unsigned int cell, unsigned int q) const { return u.block(b)(cell * mf.dofs + q * (1 + dim)); }
  double grad(unsigned int b, unsigned int cell, unsigned int q, unsigned int d) const { return u.block(b)(cell * mf.dofs + q * (1 + dim) + 1 + d); }
  double eta(unsigned int i, unsigned int cell, unsigned int q) const { return value(extra + i, cell, q); }

  struct Expected
  {
    std::string         name;
    std::vector<double> values; // per cell and point
    bool                square; // the square is given, the field is not negative
  };
  std::vector<Expected> expected;
  template <typename F>
  void
  expect(const std::string &name, const F &f, const bool square = false)
  {
    Expected e{name, {}, square};
    for (unsigned int c = 0; c < mf.n_physical_cells(); ++c)
      for (unsigned int q = 0; q < hv::NQ; ++q)
        e.values.push_back(f(c, q));
    expected.push_back(e);
  }
  void
  common(const std::set<std::string> &fields)
  {
    if (fields.count("bnds"))
      expect("bnds", [&](auto c, auto q) {
        double s = 0;
        for (unsigned int i = 0; i < n; ++i)
          s += eta(i, c, q) * eta(i, c, q);
        return s;
      });
    if (fields.count("gb"))
      expect("gb", [&](auto c, auto q) {
        double s = 0;
        for (unsigned int i = 0; i < n; ++i)
          for (unsigned int j = 0; j < i; ++j)
            s += eta(i, c, q) * eta(j, c, q);
        return s;
      });
  }
  template <typename Operator>
  void
  check(Operator &op, const std::set<std::string> &fields)
  {
    std::vector<std::vector<double>> before;
    for (unsigned int b = 0; b < u.n_blocks(); ++b)
      before.push_back(u.block(b).v);
    op.add_data_vectors(out, u, fields);
    hv_check_ieq(out.fields.size(), expected.size(), "the requested fields and no others are written");
    std::vector<bool> used(expected.size(), false);
    for (const auto &f : out.fields)
      {
        // fields of the same name are components of a vector, in order
        unsigned int k = 0;
        while (k < expected.size() && (used[k] || expected[k].name != f.name))
          ++k;
        hv_check(k < expected.size(), "only names of requested fields are written");
        if (k == expected.size())
          return;
        used[k] = true;
        hv_check(!f.ghosted, "fields are handed over with their own entries only");
        hv_check_ieq(f.values.size(), mf.cells * mf.dofs, "a field has a value at each node");
        hv_check_eq(f.values[0], at_constraint, "constrained entries of a field follow the others");
        for (unsigned int i = 0, c = 0; c < mf.n_physical_cells(); ++c)
          for (unsigned int q = 0; q < hv::NQ; ++q, ++i)
            if (i)
              {
                const double x = f.values[c * mf.dofs + q * (1 + dim)];
                if (expected[k].square)
                  {
                    hv_check_eq(x * x, expected[k].values[i], "the field has the value it is named for");
                    hv_check(x >= 0, "norms are not negative");
                  }
                else
                  hv_check_eq(x, expected[k].values[i], "the field has the value it is named for");
              }
      }
    hv_check(!u.block(0).has_ghost_elements(), "ghost values are released");
    for (unsigned int b = 0; b < u.n_blocks(); ++b)
      for (unsigned int i = 0; i < before[b].size(); ++i)
        hv_check_eq(u.block(b)(i), before[b][i], "the solution is not changed");
    hv_cover("end");
  }
};

struct Sintering2 : public Model
{
  using Model::Model;
  double f(const unsigned int cell, const unsigned int q) const
  {
    double e2 = 0, e3 = 0;
    for (unsigned int i = 0; i < n; ++i)
      {
        const double e = eta(i, cell, q);
        e2 += e * e;
        e3 += e * e * e;
      }
    const double c = value(0, cell, q);
    return A * c * c * (1 - c) * (1 - c) + B * (c * c + 6 * (1 - c) * e2 - 4 * (2 - c) * e3 + 3 * e2 * e2);
  }
  // the kinetic coefficients of a point
  struct At
  {
    std::array<VA, 3>                 etas;
    std::array<Tensor<1, dim, VA>, 3> etas_grad;
    VA                                c;
    Tensor<1, dim, VA>                c_grad, mu_grad;
  };
  At at(const unsigned int cell, const unsigned int q) const
  {
    At r;
    r.c = VA(value(0, cell, q));
    for (unsigned int d = 0; d < dim; ++d)
      {
        r.c_grad[d]  = VA(grad(0, cell, q, d));
        r.mu_grad[d] = VA(grad(1, cell, q, d));
      }
    for (unsigned int i = 0; i < n; ++i)
      {
        r.etas[i] = VA(eta(i, cell, q));
        for (unsigned int d = 0; d < dim; ++d)
          r.etas_grad[i][d] = VA(grad(2 + i, cell, q, d));
      }
    return r;
  }
  void run(const std::set<std::string> &fields)
  {
    const auto &m = data.get_mobility();
    common(fields);
    if (fields.count("d2f"))
      {
        expect("d2f_dc2", [&](auto c, auto q) {
          const double x = value(0, c, q);
          return A * (2 - 12 * x + 12 * x * x) + 2 * B;
        });
        for (unsigned int i = 0; i < n; ++i)
          {
            expect("d2f_dcdeta" + number(i), [&](auto c, auto q) {
              const double e = eta(i, c, q);
              return 12 * B * (e * e - e);
            });
            for (unsigned int j = i; j < n; ++j)
              expect(i == j ? "d2f_deta" + number(i) + "2" : "d2f_deta" + number(i) + "deta" + number(j), [&](auto c, auto q) {
                const double x = value(0, c, q), e = eta(i, c, q);
                if (i != j)
                  return 24 * B * e * eta(j, c, q);
                double s = 0;
                for (unsigned int k = 0; k < n; ++k)
                  s += eta(k, c, q) * eta(k, c, q);
                return 12 * B * (1 - x - 2 * (2 - x) * e + s + 2 * e * e);
              });
          }
      }
    if (fields.count("energy"))
      {
        expect("f", [&](auto c, auto q) { return f(c, q); });
        expect("df_dc", [&](auto c, auto q) {
          const double x = value(0, c, q);
          double       s = A * (2 * x - 6 * x * x + 4 * x * x * x) + 2 * B * x;
          for (unsigned int i = 0; i < n; ++i)
            s += B * (-6 * eta(i, c, q) * eta(i, c, q) + 4 * eta(i, c, q) * eta(i, c, q) * eta(i, c, q));
          return s;
        });
      }
    if (fields.count("kappa"))
      {
        expect("kappa_c", [&](auto, auto) { return kappa_c; });
        expect("kappa_p", [&](auto, auto) { return kappa_p; });
      }
    if (fields.count("L"))
      expect("L", [&](auto, auto) { return m.Lgb(); });
    if (fields.count("M"))
      expect("M", [&](auto c, auto q) {
        const At a = at(c, q);
        return (m.M_vol(a.c) + m.M_vap(a.c) + m.M_surf(a.c, a.c_grad) + m.M_gb(a.etas, n, a.etas_grad))[0];
      });
    if (fields.count("dM"))
      {
        const auto square = [&](const double x, const At &a) { return x * x * (a.mu_grad[0][0] * a.mu_grad[0][0] + a.mu_grad[1][0] * a.mu_grad[1][0]); };
        expect("nrm_dM_dc_x_mu_grad", [&](auto c, auto q) {
            const At     a = at(c, q);
            return square(m.dM_dc(a.c, a.etas, a.c_grad, a.etas_grad)[0], a); }, true);
        expect("nrm_dM_dgrad_c", [&](auto, auto) { return 0.; });
        for (unsigned int i = 0; i < n; ++i)
          expect("nrm_dM_deta" + number(i) + "_x_mu_grad", [&](auto c, auto q) {
            const At a = at(c, q);
            return square(m.dM_detai(a.c, a.etas, n, a.c_grad, a.etas_grad, i)[0], a); }, true);
      }
    if (fields.count("flux"))
      for (unsigned int d = 0; d < dim; ++d)
        {
          expect("flux_vol", [&](auto c, auto q) { const At a = at(c, q); return -(m.M_vol(a.c) * a.mu_grad)[d][0]; });
          expect("flux_vap", [&](auto c, auto q) { const At a = at(c, q); return -(m.M_vap(a.c) * a.mu_grad)[d][0]; });
          expect("flux_surf", [&](auto c, auto q) { const At a = at(c, q); return -(m.M_surf(a.c, a.c_grad) * a.mu_grad)[d][0]; });
          expect("flux_gb", [&](auto c, auto q) { const At a = at(c, q); return -(m.M_gb(a.etas, n, a.etas_grad) * a.mu_grad)[d][0]; });
        }
    SinteringOperatorGeneric<2, double, VA> op(mf, ac, fe, data, history, adv, false, false);
    check(op, fields);
  }
};
HV_SPEC(sintering_boundary_fields)
{
  Sintering2 s(hv_pick("n", 1, 3), 2, 3);
  s.run(hv_pick("pair", 0, 1) ? std::set<std::string>{"bnds", "kappa", "L"} : std::set<std::string>{"gb", "c", "L"});
}
HV_SPEC(sintering_energy_fields)
{
  Sintering2 s(hv_pick("n", 1, 3), 2, 1);
  s.run(hv_pick("which", 0, 1) ? std::set<std::string>{"energy", "gb"} : std::set<std::string>{"bnds", "d2f", "energy"});
}
HV_SPEC(sintering_mobility)
{
  Sintering2 s(hv_pick("n", 1, 3), 2, 1);
  s.run(std::set<std::string>{"M", "dM", "kappa"});
}
HV_SPEC(sintering_fluxes)
{
  Sintering2 s(hv_pick("n", 1, 3), 2, 1);
  s.run(std::set<std::string>{"flux", "gb", "L"});
}
HV_SPEC(no_fields)
{
  Sintering2 s(2, 2, 1);
  s.run(std::set<std::string>{"eta"});
}

struct Growth : public Model
{
  using Model::Model;
  double f(const unsigned int c, const unsigned int q) const
  {
    double s = 0.25;
    for (unsigned int i = 0; i < n; ++i)
      {
        const double e = eta(i, c, q);
        s += -A / 2 * e * e + B / 4 * e * e * e * e;
        for (unsigned int j = 0; j < i; ++j)
          s += e * e * eta(j, c, q) * eta(j, c, q);
      }
    return s;
  }
  double others(const unsigned int i, const unsigned int c, const unsigned int q) const
  {
    double s = 0;
    for (unsigned int j = 0; j < n; ++j)
      if (j != i)
        s += eta(j, c, q) * eta(j, c, q);
    return s;
  }
  void run(const std::set<std::string> &fields)
  {
    common(fields);
    if (fields.count("energy"))
      expect("f", [&](auto c, auto q) { return f(c, q); });
    for (unsigned int i = 0; i < n; ++i)
      {
        if (fields.count("df"))
          expect("df_deta" + number(i), [&](auto c, auto q) {
            const double e = eta(i, c, q);
            return -A * e + B * e * e * e + 2 * e * others(i, c, q);
          });
        if (fields.count("d2f"))
          for (unsigned int j = i; j < n; ++j)
            expect(i == j ? "d2f_deta" + number(i) + "2" : "d2f_deta" + number(i) + "deta" + number(j), [&](auto c, auto q) {
              const double e = eta(i, c, q);
              return i == j ? -A + 3 * B * e * e + 2 * others(i, c, q) : 4 * e * eta(j, c, q);
            });
      }
    GrainGrowthOperator<2, double, VA> op(mf, ac, gg, data, history, false);
    check(op, fields);
  }
};
HV_SPEC(growth_fields)
{
  Growth s(hv_pick("n", 2, 3), 0, 1);
  switch (hv_pick("which", 0, 3))
    {
      case 0:
        s.run(std::set<std::string>{"df", "gb"});
        break;
      case 1:
        s.run(std::set<std::string>{"d2f", "bnds"});
        break;
      case 2:
        s.run(std::set<std::string>{"energy", "gb", "df"});
        break;
      default:
        s.run(std::set<std::string>{"energy", "df", "d2f"});
    }
}
HV_SPEC(grand_potential_fields)
{
  Model s(hv_pick("n", 1, 3), 2, 3);
  const std::set<std::string> fields = hv_pick("which", 0, 1) ? std::set<std::string>{"bnds", "gb"} : std::set<std::string>{"gb", "energy"};
  s.common(fields);
  GreenquistFreeEnergy<VA>                        fe(1, 1);
  GreenquistGrandPotentialOperator<2, double, VA> op(s.mf, s.ac, fe, s.data, s.history, false);
  s.check(op, fields);
}
// divergences of the fluxes: their weak form and their names
HV_SPEC(flux_divergences)
{
  const unsigned int           n = hv_pick("n", 1, 3);
  Sintering2                   s(n, 2, 3);
  const auto                  &m = s.data.get_mobility();
  PostprocOperator<2, double, VA> op(s.mf, s.ac, s.data, false);
  BV                           r;
  draw(r, s.mf, 4, "garbage", -1, 1);
  op.evaluate_rhs(r, s.u);
  for (unsigned int c = 0; c < 3; ++c)
    for (unsigned int q = 0; q < hv::NQ; ++q)
      {
        const auto a = s.at(c, q);
        for (unsigned int d = 0; d < 2; ++d)
          {
            const unsigned int i = c * s.mf.dofs + q * 3 + 1 + d;
            hv_check_eq(r.block(0)(i), -(m.M_vol(a.c) * a.mu_grad)[d][0], "weak divergence of the volume flux");
            hv_check_eq(r.block(1)(i), -(m.M_vap(a.c) * a.mu_grad)[d][0], "weak divergence of the vapour flux");
            hv_check_eq(r.block(2)(i), -(m.M_surf(a.c, a.c_grad) * a.mu_grad)[d][0], "weak divergence of the surface flux");
            hv_check_eq(r.block(3)(i), -(m.M_gb(a.etas, n, a.etas_grad) * a.mu_grad)[d][0], "weak divergence of the grain boundary flux");
          }
        for (unsigned int b = 0; b < 4; ++b)
          hv_check_eq(r.block(b)(c * s.mf.dofs + q * 3), 0, "a divergence has no further terms");
      }
  DataOut<2> out;
  op.add_data_vectors(out, r, {});
  hv_check_ieq(out.fields.size(), 4, "four divergences");
  const char *names[] = {"div_vol", "div_vap", "div_surf", "div_gb"};
  for (unsigned int b = 0; b < 4; ++b)
    {
      hv_check(out.fields[b].name == names[b], "divergences are written under their names");
      for (unsigned int i = 0; i < r.block(b).size(); ++i)
        hv_check_eq(out.fields[b].values[i], r.block(b)(i), "divergences are written as computed");
    }
  hv_cover("end");
}
