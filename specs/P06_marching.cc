// One step of the explicit time marching: stages, weights, stage times and stationary equations,
// for arbitrary right hand sides (the residual returns an arbitrary value at every evaluation).
// hv: flags -fno-access-control
// hv: assume doubles are reals
// hv: assume deal.II vectors behave as the stand-ins of hv_fem.h; the linear solver solves the diagonal mass system exactly
// hv: bound up to two blocks with two entries each, one of them constrained
#include <hv_dealii.h>
#include <hv_fem.h>
#include <pf-applications/lac/dynamic_block_vector.h>
#include <pf-applications/numerics/vector_tools.h>
#include <deal.II/base/index_set.h>
namespace dealii::Utilities::MPI
{
  // not in this version of deal.II, and not used here
  std::pair<std::vector<unsigned int>, std::map<unsigned int, IndexSet>>
  compute_index_owner_and_requesters(const IndexSet &, const IndexSet &, const MPI_Comm &);
} // namespace dealii::Utilities::MPI
#include <pf-applications/lac/residual_wrapper.h>
#include <pf-applications/time_integration/time_integrator_data.h>
#include <pf-applications/time_integration/time_marching.h>
#include <hv.h>
using namespace dealii;
using namespace TimeIntegration;
using V  = LinearAlgebra::distributed::Vector<double>;
using BV = LinearAlgebra::distributed::DynamicBlockVector<double>;

#ifdef HV_SYMBOLIC
namespace dealii
{
  // only handed through to the (replaced) linear solver
  SolverControl::SolverControl(const unsigned int, const double, const bool, const bool) {}
  ReductionControl::ReductionControl(const unsigned int, const double, const double, const bool, const bool) {}
  SolverControl::State SolverControl::check(const unsigned int, const double) { return success; }
  SolverControl::State ReductionControl::check(const unsigned int, const double) { return success; }
} // namespace dealii
#endif
// the second unknown of each block is constrained to zero
namespace dealii
{
  template <> template <> void AffineConstraints<double>::set_zero(V &v) const { v(1) = 0; }
  template <> template <> void AffineConstraints<double>::distribute(V &v) const { v(1) = 0; }
} // namespace dealii
struct Stream
{
  bool is_active() const { return false; }
};
struct Op
{
  using value_type = double;
  struct Data
  {
    TimeIntegratorData<double> time_data;
  } data;
  std::vector<EquationType> types;
  unsigned int n_components() const { return types.size(); }
  EquationType equation_type(unsigned int c) const { return types[c]; }
  const Data &get_data() const { return data; }
  void initialize_dof_vector(BV &v) const
  {
    v.reinit(types.size());
    for (unsigned int b = 0; b < types.size(); ++b)
      v.block(b).reinit(2);
  }
};

// what the residual was evaluated at, and what it returned
struct Rec
{
  double t;
  std::vector<double> u, f;
};
static std::vector<Rec> *rec;

struct Residual : public ResidualWrapper<double>
{
  const Op &op;
  Residual(const Op &op) : op(op) {}
  using Pre = std::function<void(const unsigned int, const unsigned int)>;
  void evaluate_for_residual(BV &dst, const BV &src, const Pre pre, const Pre post) const override
  {
    hv_check(!pre && !post, "no operations around the residual");
    Rec r;
    r.t = op.data.time_data.get_current_time();
    for (unsigned int b = 0; b < src.n_blocks(); ++b)
      for (unsigned int i = 0; i < 2; ++i)
        {
          r.u.push_back(src.block(b)(i));
          r.f.push_back(hv_real("f", -1, 1));
          dst.block(b)(i) = r.f.back();
        }
    rec->push_back(r);
  }
  void evaluate_for_jacobian(BV &, const BV &, const Pre, const Pre) const override
  {
    hv_check(false, "the explicit scheme needs the residual itself");
  }
};

// diagonal mass matrix
struct Mass
{
  using value_type      = double;
  using vector_type     = V;
  using VectorType      = V;
  using BlockVectorType = BV;
  double m[2];
  int    setups = 0;
  void initialize_system_matrix(bool) { ++setups; }
  void initialize_block_system_matrix(bool) { ++setups; }
};
namespace Preconditioners
{
  template <>
  class IC<Mass> : public PreconditionerBase<double>
  {
  public:
    mutable bool ready = false;
    IC(const Mass &) {}
    void clear() override { ready = false; }
    void vmult(VectorType &, const VectorType &) const override {}
    void vmult(BlockVectorType &, const BlockVectorType &) const override {}
    void do_update() override { ready = true; }
    UnderlyingEntity underlying_entity() const override { return UnderlyingEntity::System; }
    std::size_t memory_consumption() const override { return 0; }
  };
} // namespace Preconditioners
static long n_linear;
namespace LinearSolvers
{
  template <>
  class SolverCGWrapper<Mass, Preconditioners::PreconditionerBase<double>> : public LinearSolverBase<double>
  {
  public:
    const Mass                                        &op;
    const Preconditioners::PreconditionerBase<double> &p;
    SolverCGWrapper(const Mass &op, const Preconditioners::PreconditionerBase<double> &p, SolverControl &) : op(op), p(p) {}
    unsigned int solve(VectorType &, const VectorType &) override
    {
      hv_check(false, "block solver");
      return 0;
    }
    unsigned int solve(BlockVectorType &dst, const BlockVectorType &src) override
    {
      hv_check(static_cast<const Preconditioners::IC<Mass> &>(p).ready, "preconditioner is set up");
      for (unsigned int b = 0; b < src.n_blocks(); ++b)
        for (unsigned int i = 0; i < 2; ++i)
          {
            hv_check_eq(dst.block(b)(i), 0., "solver starts from zero");
            dst.block(b)(i) = src.block(b)(i) / op.m[i];
          }
      const long k = hv_int("linear", 1, 5);
      n_linear += k;
      return k;
    }
  };
} // namespace LinearSolvers

static void
step(bool rk, bool mass, int form)
{
  Op op;
  op.types = form == 0 ? std::vector<EquationType>{EquationType::TimeDependent} :
             form == 1 ? std::vector<EquationType>{EquationType::TimeDependent, EquationType::TimeDependent} :
             form == 2 ? std::vector<EquationType>{EquationType::TimeDependent, EquationType::Stationary} :
                         std::vector<EquationType>{EquationType::Stationary, EquationType::TimeDependent};
  const double dt = hv_real("dt", 0.01, 2), t0 = hv_real("t0", 0, 2);
  hv_assume(dt > 0);
  op.data.time_data = TimeIntegratorData<double>(nullptr, dt);
  op.data.time_data.set_current_time(t0);
  std::vector<Rec> log;
  rec      = &log;
  n_linear = 0;
  Residual                  res(op);
  AffineConstraints<double> ac;
  NewtonSolverSolverControl stat;
  MyTimerOutput             timer;
  Stream                    out;
  Mass                      m;
  for (double &x : m.m)
    {
      x = hv_real("mass", 0.2, 2);
      hv_assume(x > 0);
    }
  NonLinearData                   nld;
  std::unique_ptr<ExplicitScheme> sch;
  if (rk)
    sch = std::make_unique<RungeKutta4Scheme>();
  else
    sch = std::make_unique<ForwardEulerScheme>();
  using T = TimeMarchingExplicit<BV, Op, Stream>;
  std::unique_ptr<T> tm;
  if (mass)
    tm = std::make_unique<T>(op, m, res, ac, std::move(sch), nld, stat, timer, out);
  else
    tm = std::make_unique<T>(op, res, ac, std::move(sch), stat, timer, out);
  const unsigned int n = op.types.size();
  BV                 u;
  op.initialize_dof_vector(u);
  std::vector<double> u0(2 * n);
  for (unsigned int j = 0; j < 2 * n; ++j)
    u.block(j / 2)(j % 2) = u0[j] = j % 2 ? 0. : hv_real("u", -1, 1);
  for (int steps = 0; steps < (rk ? 1 : 2); ++steps)
    {
      if (steps == 1)
        {
          if (hv_bool("clear"))
            tm->clear();
          log.clear();
          for (unsigned int j = 0; j < 2 * n; ++j)
            u0[j] = u.block(j / 2)(j % 2);
        }
      const double ts = t0 + steps * dt;
      tm->make_step(u);
      const unsigned int s    = rk ? 4 : 1;
      const bool         stat_eq = form >= 2;
      hv_check_ieq(log.size(), s + stat_eq, "one residual per stage, and one for stationary equations");
      // classical Runge-Kutta method
      const double a[4] = {0, 0.5, 0.5, 1}, w[4] = {1. / 6, 1. / 3, 1. / 3, 1. / 6};
      for (unsigned int k = 0; k < s; ++k)
        {
          hv_check_eq(log[k].t, ts + (rk ? a[k] : 0.) * dt, "stage is evaluated at its time");
          for (unsigned int j = 0; j < 2 * n; ++j)
            if (op.types[j / 2] == EquationType::TimeDependent)
              hv_check_eq(log[k].u[j],
                          k == 0     ? u0[j] :
                          j % 2 == 1 ? 0. :
                                       u0[j] - a[k] * dt * log[k - 1].f[j] / (mass ? m.m[j % 2] : 1.),
                          "stage value");
            else if (k > 0)
              hv_check_eq(log[k].u[j], j % 2 == 1 ? 0. : -log[k - 1].f[j] / (mass ? m.m[j % 2] : 1.), "stationary equation at a stage");
        }
      hv_check_eq(op.data.time_data.get_current_time(), ts + dt, "time is advanced by one step");
      for (unsigned int j = 0; j < 2 * n; ++j)
        {
          const double mj = mass ? m.m[j % 2] : 1.;
          double       e  = u0[j];
          if (op.types[j / 2] == EquationType::TimeDependent)
            for (unsigned int k = 0; k < s; ++k)
              e -= (rk ? w[k] : 1.) * dt * log[k].f[j] / mj;
          else
            e = -log[s].f[j] / mj;
          if (j % 2 == 1)
            e = 0.;
          hv_check_eq(u.block(j / 2)(j % 2), e, "new solution");
          if (stat_eq && op.types[j / 2] == EquationType::TimeDependent)
            hv_check_eq(log[s].u[j], e, "stationary equations belong to the new solution");
        }
      if (stat_eq)
        hv_check_eq(log[s].t, ts + dt, "stationary equations are solved at the new time");
      hv_check_ieq(stat.n_residual_evaluations(), (steps + 1) * (s + stat_eq), "residual evaluations are counted");
      hv_check_ieq(stat.n_linear_iterations(), n_linear, "linear iterations are counted");
    }
  if (mass)
    hv_check(m.setups >= 1, "mass matrix is set up");
  hv_cover("end");
}
HV_SPEC(euler_step) { step(false, hv_bool("mass"), hv_pick("form", 0, 3)); hv_cover("end"); }
HV_SPEC(runge_kutta_step) { step(true, hv_bool("mass"), hv_pick("form", 0, 3)); hv_cover("end"); }
HV_SPEC(undefined_equation)
{
  Op op;
  op.types          = {EquationType::TimeDependent, EquationType::Undefined};
  op.data.time_data = TimeIntegratorData<double>(nullptr, 1.);
  Residual                  res(op);
  AffineConstraints<double> ac;
  NewtonSolverSolverControl stat;
  MyTimerOutput             timer;
  Stream                    out;
  bool                      thrown = false;
  try
    {
      TimeMarchingExplicit<BV, Op, Stream> tm(op, res, ac, std::make_unique<ForwardEulerScheme>(), stat, timer, out);
    }
  catch (const std::exception &)
    {
      thrown = true;
    }
  hv_check(thrown, "an equation of unknown type cannot be integrated explicitly");
  hv_cover("end");
}
