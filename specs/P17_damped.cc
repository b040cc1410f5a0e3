// Contracts of the damped Newton solver.  The vectors are ghost vectors: a state is one real
// number, a residual is known only through its norm and its sign, and the callbacks log which
// state every residual belongs to.  Residual norms are arbitrary, so every history is covered.
// hv: assume ghost vectors: a state is one real number and a residual is known by its norm
// hv: bound Newton steps at most 3 to 4 and damping trials up to 100 in the first step (arbitrary residual norms)
#include <hv_dealii.h>
#include <deal.II/lac/solver_control.h>
#include <deal.II/lac/vector.h>
#include <pf-applications/lac/solvers_nonlinear.h>
#include <hv.h>
using namespace NonLinearSolvers;
using namespace dealii;

#ifdef HV_SYMBOLIC
namespace dealii
{
  // only an empty dummy vector is created by the argument-free check()
  template <> void Vector<double>::reinit(const size_type n, const bool)
  {
    hv_check_ieq(n, 0, "dummy vector");
  }
} // namespace dealii
#endif

struct GV
{
  double v    = 0;
  int    sign = 1;
  bool   own  = false;

  GV &
  operator=(double s)
  {
    v    = s;
    sign = 1;
    return *this;
  }
  GV(const GV &) = default;
  GV() = default;
  GV &
  operator=(const GV &) = default;
  GV &
  operator*=(double s)
  {
    hv_check_eq(s * s, 1., "the residual is only ever negated");
    if (s < 0)
      sign = -sign;
    return *this;
  }
  void
  add(double s, const GV &o)
  {
    v += s * o.v;
  }
  void
  sadd(double a, double s, const GV &o)
  {
    v = a * v + s * o.v;
  }
  void
  equ(double s, const GV &o)
  {
    v    = s * o.v;
    sign = o.sign;
  }
  void
  swap(GV &o)
  {
    std::swap(v, o.v);
    std::swap(sign, o.sign);
    std::swap(own, o.own);
  }
  double
  l2_norm() const
  {
    return v;
  }
};

using Solver = DampedNewtonSolver<GV>;

// ghost log
static double at = 0, norm = 0;         // last evaluated residual and its state
static double base = 0, base_norm = 0;  // state and residual norm the step starts from
static double inc = 0;                  // last increment
static double first = 0;                // initial norm
static long   n_residual = 0, n_solve = 0, n_setup = 0, n_prec = 0, in_step = 0;
static long   last_linear = 0;

static void
reset()
{
  at = norm = base = base_norm = inc = first = 0;
  n_residual = n_solve = n_setup = n_prec = in_step = 0;
}

static void
connect(Solver &s, long damp_first, long damp_later, bool prec, long n_max)
{
  s.reinit_vector = [](GV &v) { v.own = true; };
  s.residual      = [=](const GV &x, GV &r) {
    hv_check(r.own, "residual vector has been initialised");
    if (n_residual > 0)
      hv_check_eq(base + (x.v - base), x.v, "state");
    ++n_residual;
    ++in_step;
    // bound on the explored histories
    hv_assume(in_step <= (n_solve <= 1 ? damp_first : damp_later));
    r    = hv_real("norm", 0, 2);
    hv_assume(r.v >= 0);
    at   = x.v;
    norm = r.v;
    if (n_residual == 1)
      first = norm, base = at, base_norm = norm;
  };
  s.setup_jacobian = [](const GV &x) {
    hv_check_eq(x.v, at, "the Jacobian belongs to the state of the current residual");
    hv_check_ieq(n_setup, n_solve, "the Jacobian is set up once per step");
    ++n_setup;
    base      = x.v;
    base_norm = norm;
  };
  if (prec)
    s.setup_preconditioner = [](const GV &x) {
      hv_check_eq(x.v, base, "the preconditioner belongs to the current state");
      ++n_prec;
    };
  s.solve_with_jacobian = [=](const GV &r, GV &d) -> unsigned int {
    hv_check(d.own, "increment vector has been initialised");
    hv_check_ieq(n_setup, n_solve + 1, "the Jacobian is set up before it is used");
    hv_check_eq(r.v, base_norm, "right hand side is the residual of the current state");
    hv_check_ieq(r.sign, -1, "right hand side is the negative residual");
    hv_check_eq(d.v, 0., "the linear solver starts from zero");
    ++n_solve;
    hv_assume(n_solve <= n_max);
    in_step = 0;
    d       = hv_real("increment", -2, 2);
    inc     = d.v;
    last_linear = hv_int("linear", 0, 100);
    return last_linear;
  };
}

static bool
met(double n, double n0, double abs_tol, double rel_tol)
{
  return n <= abs_tol || n <= rel_tol * n0;
}

static void
run(long damp_first, long damp_later, long n_max, bool damping, bool zero_increment = false)
{
  reset();
  const double abs_tol = hv_real("abs_tol", 0, 0.3), rel_tol = hv_real("rel_tol", 0, 0.3);
  const long   max_iter = hv_int("max_iter", 0, 100);
  hv_assume(abs_tol >= 0 && rel_tol >= 0);
  const bool               prec = hv_bool("with preconditioner");
  NewtonSolverSolverControl control(max_iter, abs_tol, rel_tol);
  control.increment_linear_iterations(5);
  control.increment_newton_iterations(5);
  control.increment_residual_evaluations(5);
  NewtonSolverAdditionalData data(true, 10, 20, true, damping);
  Solver                     solver(control, data);
  connect(solver, damp_first, damp_later, prec, n_max);
  GV x;
  x = hv_real("x0", -2, 2);
  bool ok = true;
  try
    {
      solver.solve(x);
    }
  catch (const ExcNewtonDidNotConverge &)
    {
      ok = false;
    }
  hv_check_ieq(control.n_linear_iterations(), 0, "statistics are reset before the solve");
  hv_check_ieq(control.n_residual_evaluations(), 0, "statistics are reset before the solve");
  if (ok)
    {
      hv_check_eq(x.v, at, "the returned state is the one whose residual was evaluated last");
      hv_check(met(norm, first, abs_tol, rel_tol), "success means that the residual meets a tolerance");
      hv_check_ieq(control.n_newton_iterations(), n_solve, "reported Newton iterations are the linear solves done");
      hv_check(n_solve <= max_iter, "the iteration limit is respected");
      hv_cover("converged");
    }
  else
    {
      if (damping && n_solve > 0 && in_step >= 100)
        hv_cover("damping failed");
      else
        {
          hv_check(!met(norm, first, abs_tol, rel_tol), "an error means that the tolerances are not met");
          hv_check_ieq(n_solve, max_iter, "the whole iteration budget has been used");
          hv_check_ieq(control.n_newton_iterations(), n_solve, "reported Newton iterations are the linear solves done");
          hv_cover("not converged");
        }
    }
}

// every accepted step reduces the residual: checked where the next iteration begins
static void
steps(long damp_first, long damp_later, long n_max, bool custom)
{
  reset();
  const double abs_tol = hv_real("abs_tol", 0, 0.3), rel_tol = hv_real("rel_tol", 0, 0.3);
  hv_assume(abs_tol >= 0 && rel_tol >= 0);
  NewtonSolverSolverControl control(100, abs_tol, rel_tol);
  Solver                    solver(control, NewtonSolverAdditionalData());
  connect(solver, damp_first, damp_later, false, n_max);
  long   calls = 0;
  double prev = 0, prev_state = 0;
  bool   iterate = false;
  SolverControl::State last = SolverControl::iterate;
  solver.check_iteration_status = [&](const unsigned int step, const double value, const GV &x, const GV &r) {
    hv_check_ieq(step, calls, "status checks are numbered consecutively");
    hv_check_ieq(step, n_solve, "one status check per step");
    hv_check_eq(value, norm, "the checked value is the norm of the last residual");
    hv_check_eq(r.v, norm, "the checked residual is the last one");
    hv_check_eq(x.v, at, "the checked state is the last one");
    if (calls > 0)
      {
        double omega = 1;
        for (long i = 1; i < in_step; ++i)
          omega /= 2;
        hv_check_eq(x.v, prev_state + omega * inc, "the step is the increment halved once per rejected trial");
        hv_check(value < (1 - 0.1 * omega / 2) * prev, "an accepted step reduces the residual sufficiently");
      }
    ++calls;
    prev       = value;
    prev_state = x.v;
    if (!custom)
      return last = SolverControl::success;
    const long st = hv_pick("status", 0, 2);
    return last = (st == 0 ? SolverControl::iterate : st == 1 ? SolverControl::success : SolverControl::failure);
  };
  GV x;
  x = hv_real("x0", -2, 2);
  bool ok = true;
  try
    {
      solver.solve(x);
    }
  catch (const ExcNewtonDidNotConverge &)
    {
      ok = false;
    }
  if (ok)
    {
      hv_check(last == SolverControl::success, "success needs the consent of the user's check");
      hv_check(met(norm, first, abs_tol, rel_tol), "success means that the residual meets a tolerance");
      hv_check_eq(x.v, at, "the returned state is the one whose residual was evaluated last");
      hv_cover("converged");
    }
  else
    hv_check(last == SolverControl::failure || in_step >= 100, "an error needs a reason");
}

HV_SPEC(damped_three_steps)
{
  run(3, 3, 3, true);
}

HV_SPEC(undamped_four_steps)
{
  run(1, 1, 4, false);
}

HV_SPEC(damped_hundred_trials)
{
  run(100, 1, 1, true);
}

HV_SPEC(accepted_steps)
{
  steps(4, 3, 2, false);
}

HV_SPEC(accepted_steps_user_check)
{
  steps(3, 2, 2, true);
}

// the stopping rule by itself, for every history
HV_SPEC(stopping_rule)
{
  const double abs_tol = hv_real("abs_tol", 0, 0.5), rel_tol = hv_real("rel_tol", 0, 0.5);
  const long   max_iter = hv_int("max_iter", 0, 1000);
  hv_assume(abs_tol >= 0 && rel_tol >= 0);
  NewtonSolverSolverControl c(max_iter, abs_tol, rel_tol);
  const double n0 = hv_real("n0", 0, 2), n1 = hv_real("n1", 0, 2);
  const long   step = hv_int("step", 1, 1000);
  hv_assume(n0 >= 0 && n1 >= 0);
  GV dummy;
  const auto s0 = c.check(0, n0, dummy, dummy);
  hv_check_ieq(c.n_newton_iterations(), 0, "the step number is recorded");
  if (n0 <= abs_tol || (rel_tol >= 1 && n0 > 0))
    hv_check(s0 == SolverControl::success, "a converged start needs no step");
  else if (max_iter > 0)
    hv_check(s0 == SolverControl::iterate, "a start above the tolerance iterates");
  else
    hv_check(s0 == SolverControl::failure, "no budget: failure");
  if (s0 != SolverControl::iterate)
    return;
  const auto s1 = c.check(step, n1, dummy, dummy);
  hv_check_ieq(c.n_newton_iterations(), step, "the step number is recorded");
  hv_check((s1 == SolverControl::success) == met(n1, n0, abs_tol, rel_tol), "success exactly when a tolerance is met");
  hv_check((s1 == SolverControl::failure) == (!met(n1, n0, abs_tol, rel_tol) && step >= max_iter),
           "failure exactly when the budget is used up without success");
  hv_check(c.check() == s1, "repeating the check does not change its answer");
  hv_check_ieq(c.get_max_iter(), max_iter, "settings are reported");
  hv_check_eq(c.get_abs_tol(), abs_tol, "settings are reported");
  hv_check_eq(c.get_rel_tol(), rel_tol, "settings are reported");
  const long a = hv_int("a", 0, 1000), b = hv_int("b", 0, 1000);
  c.clear();
  c.increment_newton_iterations(a);
  c.increment_newton_iterations(b);
  c.increment_linear_iterations(b);
  c.increment_residual_evaluations(a);
  c.increment_residual_evaluations(1);
  hv_check_ieq(c.n_newton_iterations(), a + b, "counters add up");
  hv_check_ieq(c.n_linear_iterations(), b, "counters add up");
  hv_check_ieq(c.n_residual_evaluations(), a + 1, "counters add up");
}

// every solve is judged against its own initial residual, whatever the control saw before
HV_SPEC(stopping_rule_of_a_later_solve)
{
  const double abs_tol = hv_real("abs_tol", 0, 0.5), rel_tol = hv_real("rel_tol", 0, 0.5);
  hv_assume(abs_tol >= 0 && rel_tol >= 0);
  NewtonSolverSolverControl c(100, abs_tol, rel_tol);
  GV                        dummy;
  const double e0 = hv_real("earlier n0", 0, 2), e1 = hv_real("earlier n1", 0, 2);
  const double n0 = hv_real("n0", 0, 2), n1 = hv_real("n1", 0, 2);
  hv_assume((e0 > 0) & (e1 >= 0) & (n0 > 0) & (n1 >= 0));
  c.check(0, e0, dummy, dummy);
  if (hv_bool("the earlier solve took a step"))
    c.check(hv_int("earlier step", 1, 1000), e1, dummy, dummy);
  if (hv_bool("cleared"))
    c.clear();
  const auto s0 = c.check(0, n0, dummy, dummy);
  hv_check((s0 == SolverControl::success) == met(n0, n0, abs_tol, rel_tol), "the start of the later solve");
  const auto s1 = c.check(1, n1, dummy, dummy);
  hv_check((s1 == SolverControl::success) == met(n1, n0, abs_tol, rel_tol),
           "the relative tolerance refers to the initial residual of the same solve");
}

// when the preconditioner is rebuilt
static void
preconditioner(bool reuse)
{
  reset();
  const bool update = hv_bool("do_update");
  const long tn = hv_pick("threshold_newton", 1, 3);
  const long tl = hv_int("threshold_linear", 0, 100);
  NewtonSolverSolverControl control(100, 0.1, 0.);
  Solver                    solver(control, NewtonSolverAdditionalData(update, tn, tl, reuse, false));
  long                      history = 0;
  long                      before  = 0;
  for (int call = 0; call < 2; ++call)
    {
      reset();
      if (!reuse)
        history = 0, before = 0;
      if (call == 1)
        if (hv_bool("cleared"))
          {
            solver.clear();
            history = before = 0;
          }
      connect(solver, 1, 1, true, 2);
      long expected          = 0;
      auto inner             = solver.solve_with_jacobian;
      solver.solve_with_jacobian = [&, inner](const GV &r, GV &d) {
        if (update && (history % tn == 0 || before > tl))
          ++expected;
        hv_check_ieq(n_prec, expected, "the preconditioner is rebuilt exactly when a threshold is passed");
        ++history;
        const unsigned int n = inner(r, d);
        before               = n;
        return n;
      };
      GV x;
      x = 1.;
      solver.solve(x);
    }
  hv_cover("two solves");
}

HV_SPEC(preconditioner_reused)
{
  preconditioner(true);
}

HV_SPEC(preconditioner_fresh)
{
  preconditioner(false);
}
