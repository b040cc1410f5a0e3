// Velocity and strain fields written to the output: grains' velocities, velocities and strains of the coupled model.
// hv: flags -fno-access-control
// hv: assume doubles are reals
// hv: assume deal.II vectors, matrix-free loops, cell evaluation, projection to nodes and output behave as the stand-ins of hv_fem.h and hv_output.h
// hv: bound three cells in batches of two, one integration point, 2 order parameters

#define HV_LANES 2
#define HV_NQ 1
#define HV_PARTITIONER
#define MAX_SINTERING_GRAINS 4
#define SINTERING_DIM 2
#include <hv_dealii.h>
#include <hv_fem.h>
#include <hv_output.h>
#include <hv_advection.h>
#include <pf-applications/sintering/operator_sintering_coupled_monolithic.h>
#include <pf-applications/sintering/postprocessors.h>
using V = LinearAlgebra::distributed::Vector<double>;
static double at_constraint;
namespace dealii
{
  template <>
  template <>
  void
  AffineConstraints<double>::distribute(V &v) const
  {
    v(0) = at_constraint;
  }
  // nothing subscribes to the vectors that are moved
  Subscriptor::Subscriptor(Subscriptor &&) noexcept
    : counter(0)
    , object_info(nullptr)
  {}
  namespace TrilinosWrappers
  {
    void SparseMatrix::clear() {}
  } // namespace TrilinosWrappers
} // namespace dealii
template <>
void
OperatorBase<2, double, VA, SinteringOperatorGeneric<2, double, VA>>::initialize_system_matrix(bool, bool) const
{}

struct Grains : public Setup<2>
{
  Grains()
    : Setup<2>(2, {.cells = 3})
  {
    AdvectionOperatorGeneric<2, double, VA> op(k, cgb, ceq, smooth, mf, data, tracker, adv);
    op.evaluate_forces(u);
    for (unsigned int i = 0; i < tracker.n_segments(); ++i)
      {
        double *g = adv.grain_data(i);
        g[0]      = hv_real("volume", 0.1, 2);
        hv_assume(g[0] > 0);
        for (int d = 1; d < 4; ++d)
          g[d] = hv_real("force", -1, 1);
      }
    at_constraint = hv_real("constrained", -1, 1);
  }
  double velocity(int op, unsigned int c, int d, bool rotate)
  {
    if (!valid(op, c))
      return 0;
    const double *f      = adv.grain_data(index(op, c));
    const double  arm[2] = {hv::points[c][0][0] - center(op, c, 0), hv::points[c][0][1] - center(op, c, 1)};
    const double  rot    = rotate ? (d == 0 ? -arm[1] * f[3] : arm[0] * f[3]) : 0.;
    return (mt * f[1 + d] + mr * rot) / f[0];
  }
};
static void
moving(const bool enabled)
{
  Grains s;
  AdvectionMechanism<2, double, VA> off(false, s.mt, s.mr);
  AffineConstraints<double>               ac;
  FreeEnergy<VA>                          fe(1, 1);
  std::vector<std::shared_ptr<BV>>        old(2);
  for (auto &o : old)
    o = std::make_shared<BV>();
  TimeIntegration::SolutionHistory<BV>    history(old);
  SinteringOperatorGeneric<2, double, VA> op(s.mf, ac, fe, s.data, history, enabled ? s.adv : off, false, false);
  DataOut<2>                              out;
  const bool                              more = hv_bool("more");
  const BV                                before = s.u;
  op.add_data_vectors(out, s.u, more ? std::set<std::string>{"vel", "bnds"} : std::set<std::string>{"vel"});
  const unsigned int first = more ? 1 : 0;
  hv_check_ieq(out.fields.size(), first + 4, "the requested fields and no others are written");
  for (int op = 0; op < 2; ++op)
    for (int d = 0; d < 2; ++d)
      {
        const auto &f = out.fields[first + 2 * op + d];
        hv_check(f.name == (op ? "vel1" : "vel0"), "the components of the velocity of an order parameter share its name");
        hv_check_eq(f.values[0], at_constraint, "constrained entries of a field follow the others");
        for (unsigned int c = 0; c < 3; ++c)
          if (c)
            hv_check_eq(f.values[c * s.mf.dofs], enabled ? s.velocity(op, c, d, true) : 0., "the velocity field is the velocity of the grains");
      }
  for (unsigned int b = 0; b < 4; ++b)
    for (unsigned int i = 0; i < before.block(b).size(); ++i)
      hv_check_eq(s.u.block(b)(i), before.block(b)(i), "the solution is not changed");
  hv_cover("end");
}
HV_SPEC(grain_velocities)
{
  moving(true);
}
HV_SPEC(grains_at_rest)
{
  moving(false);
}
HV_SPEC(translations)
{
  Grains     s;
  DataOut<2> out;
  Postprocessors::add_translation_velocities_vectors(s.mf, s.adv, s.data, out);
  hv_check_ieq(out.fields.size(), 4, "one vector per order parameter");
  for (int op = 0; op < 2; ++op)
    for (int d = 0; d < 2; ++d)
      {
        const auto &f = out.fields[2 * op + d];
        hv_check(f.name == (op ? "trans1" : "trans0"), "the components of the translation of an order parameter share its name");
        hv_check_ieq(f.values.size(), 3, "one value per cell");
        for (unsigned int c = 0; c < 3; ++c)
          hv_check_eq(f.values[c], s.velocity(op, c, d, false), "the translation of the grain in the cell");
      }
  hv_cover("end");
}

struct Coupled : public SinteringOperatorCoupledMonolithic<2, double, VA, Coupled>
{
  using T               = Coupled;
  using Base            = SinteringOperatorCoupledMonolithic<2, double, VA, Coupled>;
  using BlockVectorType = BV;
  static constexpr unsigned int more = 1;
  using Base::Base;
  unsigned int                  n_grains() const { return data.n_grains(); }
  static constexpr unsigned int n_grains_to_n_components(const unsigned int n) { return n + 2 + more + 2; }
  unsigned int n_components() const override { return data.n_components() + more + 2; }
  unsigned int n_additional_components() const override { return more; }
  template <int n_comp, int n_grains, typename FE>
  void do_vmult_kernel(FE &) const
  {}
};
template <>
void
OperatorBase<2, double, VA, Coupled>::initialize_system_matrix(bool, bool) const
{}
HV_SPEC(coupled)
{
  const unsigned int                   grains = hv_pick("grains", 1, 2), more = Coupled::more, n = grains + 2 + more + 2;
  MatrixFree<2, double, VA>            mf(3);
  AffineConstraints<double>            ac;
  FreeEnergy<VA>                       fe(hv_real("A", 1, 20), hv_real("B", 0.5, 3));
  SinteringOperatorData<2, VA>         data(1, 1, provider(), time_data(1));
  std::vector<std::shared_ptr<BV>>     old(2);
  for (auto &o : old)
    o = std::make_shared<BV>();
  TimeIntegration::SolutionHistory<BV> history(old);
  data.set_n_components(grains + 2);
  const double dt      = hv_real("dt", 0.1, 1);
  hv_assume(dt > 0);
  data.time_data.dt[0] = hv_bool("started") ? dt : 0.;
  Coupled op(mf, ac, fe, data, history, false, 1., 0.25, Structural::MaterialPlaneType::plane_strain, 0.1);
  at_constraint = hv_real("constrained", -1, 1);
  BV u;
  draw(u, mf, n, "u", -1, 1);
  const BV              before = u;
  DataOut<2>            out;
  std::set<std::string> fields;
  const bool vel = hv_bool("vel"), strain = hv_bool("strain"), kappa = hv_bool("kappa");
  if (vel)
    fields.insert("vel");
  if (strain)
    fields.insert("strain_lin");
  if (kappa)
    fields.insert("kappa");
  op.add_data_vectors(out, u, fields);
  hv_check_ieq(out.fields.size(), 2 * kappa + 2 * vel + 3 * strain, "the requested fields and no others are written");
  unsigned int k = 2 * kappa;
  if (vel)
    for (unsigned int d = 0; d < 2; ++d, ++k)
      {
        hv_check(out.fields[k].name == "vel", "the components of the velocity share their name");
        hv_check(!out.fields[k].ghosted, "fields are handed over with their own entries only");
        for (unsigned int i = 0; i < u.block(0).size(); ++i)
          hv_check_eq(out.fields[k].values[i], data.time_data.dt[0] == 0. ? 0. : u.block(n - 2 + d)(i) / dt, "velocities are displacements of the step per time");
      }
  if (strain)
    {
      const char *names[] = {"lin_eps_xx", "lin_eps_yy", "lin_tau_xy"};
      for (unsigned int d = 0; d < 3; ++d, ++k)
        {
          hv_check(out.fields[k].name == names[d], "strains are written under their names");
          hv_check_eq(out.fields[k].values[0], at_constraint, "constrained entries of a field follow the others");
          for (unsigned int c = 0; c < 3; ++c)
            {
              const unsigned int i = c * mf.dofs;
              if (c)
                hv_check_eq(out.fields[k].values[i], d < 2 ? u.block(n - 2 + d)(i + 1 + d) : u.block(n - 2)(i + 2) + u.block(n - 1)(i + 1), "strains are symmetric derivatives of the displacement");
            }
        }
    }
  for (unsigned int b = 0; b < n; ++b)
    for (unsigned int i = 0; i < before.block(b).size(); ++i)
      hv_check_eq(u.block(b)(i), before.block(b)(i), "the solution is not changed");
  hv_check(!u.block(0).has_ghost_elements(), "ghost values are released");
  hv_cover("end");
}
