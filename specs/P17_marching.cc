// The implicit time marching wires operator, constraints, preconditioner and linear solver to the
// damped Newton solver: right hand sides, linearisation points, set-up and counts.
// hv: flags -fno-access-control
// hv: assume doubles are reals
// hv: assume deal.II vectors behave as the stand-ins of hv_fem.h; the linear solver returns an arbitrary increment
// hv: bound one block with two entries (one of them constrained), at most two Newton steps without damping
#include <hv_dealii.h>
#include <hv_fem.h>
#include <pf-applications/lac/dynamic_block_vector.h>
#include <pf-applications/numerics/vector_tools.h>
#include <pf-applications/lac/residual_wrapper.h>
#include <deal.II/base/index_set.h>
#include <deal.II/dofs/dof_handler.h>
#include <deal.II/trilinos/nox.h>
#include <hv.h>
using namespace dealii;
using V  = LinearAlgebra::distributed::Vector<double>;
using BV = LinearAlgebra::distributed::DynamicBlockVector<double>;
namespace dealii
{
  namespace Utilities::MPI
  {
    // not in this version of deal.II, and not used here
    std::pair<std::vector<unsigned int>, std::map<unsigned int, IndexSet>>
    compute_index_owner_and_requesters(const IndexSet &, const IndexSet &, const MPI_Comm &);
  } // namespace Utilities::MPI
  namespace TrilinosWrappers
  {
    // the other nonlinear solver: not used here
    template <>
    class NOXSolver<BV>
    {
    public:
      struct AdditionalData
      {
        AdditionalData(unsigned int, double, double, unsigned int, unsigned int, bool) {}
      };
      NOXSolver(AdditionalData &, const Teuchos::RCP<Teuchos::ParameterList> &) {}
      void clear() {}
      unsigned int solve(BV &) { return 0; }
      std::function<int(const BV &, BV &)>                                     residual, apply_jacobian;
      std::function<int(const BV &)>                                           setup_jacobian, setup_preconditioner;
      std::function<int(const BV &, BV &, const double)>                       solve_with_jacobian_and_track_n_linear_iterations;
      std::function<SolverControl::State(unsigned int, double, const BV &, const BV &)> check_iteration_status;
    };
  } // namespace TrilinosWrappers
#ifdef HV_SYMBOLIC
  template <> void Vector<double>::reinit(const size_type n, const bool)
  {
    hv_check_ieq(n, 0, "dummy vector");
  }
  // only handed through to the (replaced) linear solver
  SolverControl::SolverControl(const unsigned int, const double, const bool, const bool) {}
  ReductionControl::ReductionControl(const unsigned int, const double, const double, const bool, const bool) {}
  SolverControl::State SolverControl::check(const unsigned int, const double) { return success; }
  SolverControl::State ReductionControl::check(const unsigned int, const double) { return success; }
#endif
  // the second unknown of each block is constrained to zero
  template <> template <> void AffineConstraints<double>::set_zero(V &v) const { v(1) = 0; }
  template <> template <> void AffineConstraints<double>::distribute(V &v) const { v(1) = 0; }
} // namespace dealii

#include <pf-applications/lac/jacobian_operator.h>
#include <pf-applications/lac/preconditioners.h>
#include <pf-applications/lac/solvers_linear_parameters.h>
#include <pf-applications/lac/solvers_nonlinear_parameters.h>

struct Op;
namespace LinearSolvers
{
  template <typename Number> class LinearSolverBase;
  // replaces the choice of a linear solver
  std::unique_ptr<LinearSolverBase<double>>
  create(NonLinearSolvers::JacobianBase<double> &jacobian, Preconditioners::PreconditionerBase<double> &p, Op &op,
         dealii::SolverControl &, const NonLinearSolvers::NonLinearData &, const std::string &label);
} // namespace LinearSolvers
#include <pf-applications/time_integration/time_marching.h>
using namespace TimeIntegration;
using namespace NonLinearSolvers;

// ghost state
static double at[2], f[2]; // last residual: where and what
static double x0[2];       // linearisation point
static long   n_residual, n_solve, n_setup, n_update, n_custom, n_prec, n_linear, n_matrix, n_block_matrix;
static double d[2];

struct Op
{
  using value_type      = double;
  using vector_type     = V;
  using VectorType      = V;
  using BlockVectorType = BV;
  TrilinosWrappers::SparseMatrix *m = nullptr;
  void initialize_dof_vector(BV &v) const
  {
    v.reinit(1);
    v.block(0).reinit(2);
  }
  struct Pattern
  {
    bool exists(unsigned int, unsigned int) const { return false; }
  };
  Pattern get_sparsity_pattern() const { return Pattern(); }
  void do_update() { ++n_update; }
  void initialize_system_matrix(bool c, bool = true) { ++n_matrix; hv_check(c, "matrix is computed"); }
  void initialize_block_system_matrix(bool c) { ++n_block_matrix; hv_check(c, "matrices are computed"); }
  TrilinosWrappers::SparseMatrix &get_system_matrix() { return *m; }
  void vmult(BV &, const BV &) const { hv_check(false, "operator is applied by the linear solver only"); }
  void vmult(V &, const V &) const { hv_check(false, "operator is applied by the linear solver only"); }
};
struct Residual : public ResidualWrapper<double>
{
  using Pre = std::function<void(const unsigned int, const unsigned int)>;
  void evaluate_for_residual(BV &dst, const BV &src, const Pre, const Pre) const override
  {
    ++n_residual;
    for (int i = 0; i < 2; ++i)
      {
        at[i] = src.block(0)(i);
        f[i]  = i == 1 && n_residual > 1 ? 0. : hv_real("f", -1, 1);
        dst.block(0)(i) = f[i];
      }
  }
  void evaluate_for_jacobian(BV &, const BV &, const Pre, const Pre) const override
  {
    hv_check(false, "only the residual is needed");
  }
};
struct Prec : public Preconditioners::PreconditionerBase<double>
{
  Preconditioners::UnderlyingEntity e;
  void clear() override {}
  void vmult(VectorType &, const VectorType &) const override {}
  void vmult(BlockVectorType &, const BlockVectorType &) const override {}
  void do_update() override
  {
    ++n_prec;
    hv_check_ieq(n_matrix, e == Preconditioners::UnderlyingEntity::System ? n_prec : 0, "matrix is assembled before a preconditioner that needs it");
    hv_check_ieq(n_block_matrix, e == Preconditioners::UnderlyingEntity::BlockSystem ? n_prec : 0, "block matrices are assembled before a preconditioner that needs them");
    hv_check_ieq(n_custom, n_prec, "user setup comes before the preconditioner");
    hv_check_ieq(n_update, n_setup, "operator is updated before the preconditioner");
  }
  Preconditioners::UnderlyingEntity underlying_entity() const override { return e; }
  std::size_t memory_consumption() const override { return 0; }
};
struct Solver : public LinearSolvers::LinearSolverBase<double>
{
  unsigned int solve(VectorType &, const VectorType &) override
  {
    hv_check(false, "block solver");
    return 0;
  }
  unsigned int solve(BlockVectorType &dst, const BlockVectorType &src) override
  {
    ++n_solve;
    hv_assume(n_solve <= 2);
    hv_check_ieq(n_setup, n_solve, "linearisation point is set once for every linear system");
    hv_check_ieq(n_update, n_solve, "operator is updated once for every linear system");
    hv_check_eq(src.block(0)(0), -f[0], "right hand side is the negative residual");
    hv_check_eq(src.block(0)(1), 0., "right hand side is zero at constrained unknowns");
    for (int i = 0; i < 2; ++i)
      {
        hv_check_eq(dst.block(0)(i), 0., "solver starts from zero");
        hv_check_eq(x0[i], at[i], "linearised where the residual was evaluated");
        dst.block(0)(i) = d[i] = hv_real("d", -1, 1);
      }
    const long k = hv_int("linear", 1, 5);
    n_linear += k;
    return k;
  }
};
std::unique_ptr<LinearSolvers::LinearSolverBase<double>>
LinearSolvers::create(JacobianBase<double> &, Preconditioners::PreconditionerBase<double> &, Op &, SolverControl &, const NonLinearData &,
                      const std::string &label)
{
  hv_check(label == "GMRES", "requested linear solver");
  return std::make_unique<Solver>();
}
struct Stream
{
  bool is_active() const { return false; }
  template <typename T> Stream &operator<<(const T &) { return *this; }
  Stream &operator<<(std::ostream &(*)(std::ostream &)) { return *this; }
  Stream &operator<<(std::ios_base &(*)(std::ios_base &)) { return *this; }
};

HV_SPEC(implicit_step)
{
  n_residual = n_solve = n_setup = n_update = n_custom = n_prec = n_linear = n_matrix = n_block_matrix = 0;
  Op       op;
  Residual res;
  Prec     prec;
  const long e = hv_pick("entity", 0, 2);
  prec.e       = e == 0 ? Preconditioners::UnderlyingEntity::None :
                 e == 1 ? Preconditioners::UnderlyingEntity::System :
                          Preconditioners::UnderlyingEntity::BlockSystem;
  AffineConstraints<double> ac;
  alignas(16) static char   dof_mem[sizeof(DoFHandler<2>)];
  const auto               &dof = *reinterpret_cast<DoFHandler<2> *>(dof_mem);
  NonLinearData             nld;
  nld.newton_use_damping           = false;
  nld.verbosity                    = hv_pick("verbosity", 0, 1);
  nld.newton_threshold_newton_iter = 1;
  const double              tol    = hv_real("tol", 0, 1);
  hv_assume(tol > 0);
  NewtonSolverSolverControl stat(2, tol, 0.);
  MyTimerOutput             timer;
  Stream                    out;
  TimeMarchingImplicit<2, BV, Op, Stream> tm(
    op, prec, res, dof, ac, nld, stat, timer, out, [](const BV &u) {
      ++n_custom;
      hv_check_eq(u.block(0)(0), x0[0], "preconditioner for the linearisation point");
    },
    [](const BV &u) {
      ++n_setup;
      for (int i = 0; i < 2; ++i)
        x0[i] = u.block(0)(i);
    },
    []() { return std::vector<std::tuple<std::string, unsigned int, unsigned int>>(1, std::make_tuple("c", 0u, 1u)); }, false);
  BV u;
  op.initialize_dof_vector(u);
  u.block(0)(0) = hv_real("u", -1, 1);
  const double u0 = u.block(0)(0);
  bool         ok = true;
  double       sum = 0;
  (void)u0;
  (void)sum;
  try
    {
      tm.make_step(u);
    }
  catch (const std::exception &)
    {
      ok = false;
    }
  hv_check_ieq(n_residual, n_solve + 1, "one residual per Newton step and one at the start");
  hv_check_ieq(stat.n_residual_evaluations(), n_residual, "residual evaluations are counted");
  hv_check_ieq(stat.n_linear_iterations(), n_linear, "linear iterations are counted");
  hv_check_ieq(stat.n_newton_iterations(), n_solve, "Newton steps are counted");
  hv_check_ieq(n_prec, n_solve, "preconditioner is set up");
  hv_check_eq(u.block(0)(0), at[0], "the solution is where the last residual was evaluated");
  hv_check_eq(u.block(0)(1), 0., "increments do not touch constrained unknowns");
  const double r2 = f[0] * f[0] + f[1] * f[1];
  if (ok)
    {
      hv_check(r2 <= tol * tol, "success only within the tolerance");
      hv_cover("converged");
    }
  else
    {
      hv_check(r2 > tol * tol & n_solve == 2, "an error needs a reason");
      hv_cover("not converged");
    }
}
