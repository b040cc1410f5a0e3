// Contracts of the damped Newton solver of the Allen-Cahn and Cahn-Hilliard programs.
// hv: assume ghost vectors: a state is one real number and a residual is known by its norm
// hv: bound Newton steps at most 3 to 4 and damping trials up to 100 in the first step (arbitrary residual norms)
#include <hv_dealii.h>
#include <iostream>
#include <pf-applications/lac/newton.h>
#include <hv.h>
using namespace dealii;

// a state is one number, a residual is known through its norm and sign
struct GV
{
  double v       = 0;
  int    sign    = 1;
  bool   own     = false;
  bool   shifted = false; // a right hand side has been subtracted
  long   n       = 0;

  GV &
  operator=(double s)
  {
    v    = s;
    sign = 1;
    return *this;
  }
  GV(const GV &) = default;
  GV()           = default;
  GV &
  operator=(const GV &) = default;
  GV &
  operator*=(double s)
  {
    hv_check_eq(s * s, 1., "the residual is only ever negated");
    if (s < 0)
      sign = -sign;
    return *this;
  }
  GV &
  operator-=(const GV &o)
  {
    hv_check(!shifted, "the right hand side is subtracted once");
    hv_check_eq(o.v, 7., "the subtracted vector is the right hand side");
    shifted = true;
    return *this;
  }
  void
  add(double s, const GV &o)
  {
    v += s * o.v;
  }
  void
  swap(GV &o)
  {
    std::swap(*this, o);
  }
  long
  size() const
  {
    return n;
  }
  double
  l2_norm() const;
};

static double at = 0, norm = 0, first = 0, base = 0, base_norm = 0, inc = 0;
static long   n_residual = 0, n_solve = 0, in_step = 0, total_linear = 0, expect_shift = 0, limit_first = 0, limit_later = 0;
static long   every = 1;
static bool   update_pc = true;
static long   stage = 0;

double
GV::l2_norm() const
{
  hv_check(shifted == (expect_shift != 0), "the norm is that of the residual minus the right hand side");
  return v;
}

struct Op
{
  void
  initialize_dof_vector(GV &v)
  {
    v.own = true;
  }
  void
  evaluate_nonlinear_residual(GV &r, const GV &x)
  {
    hv_check(r.own, "residual vector has been initialised");
    if (n_residual > 0)
      { // trial states: the base state plus the increment halved once per trial
        double omega = 1;
        for (long i = 0; i < in_step; ++i)
          omega /= 2;
        hv_check_eq(x.v, base + omega * inc, "the trial is the increment halved once per rejected trial");
      }
    ++n_residual;
    ++in_step;
    hv_assume(in_step <= (n_solve <= 1 ? limit_first : limit_later));
    r.v       = hv_real("norm", 0, 2);
    r.sign    = 1;
    r.shifted = false;
    hv_assume(r.v >= 0);
    at   = x.v;
    norm = r.v;
    if (n_residual == 1)
      first = norm;
  }
  void
  set_solution_linearization(const GV &x)
  {
    hv_check_eq(x.v, at, "the linearisation belongs to the state of the current residual");
    // the step just accepted
    if (n_solve > 0)
      {
        double omega = 1;
        for (long i = 1; i < in_step; ++i)
          omega /= 2;
        hv_check(norm < (1 - 0.1 * omega / 2) * base_norm, "an accepted step reduces the residual sufficiently");
      }
    base      = x.v;
    base_norm = norm;
    stage     = 1;
  }
  void
  evaluate_newton_step(const GV &x)
  {
    hv_check_eq(x.v, at, "the Newton step belongs to the state of the current residual");
    hv_check(stage == 1, "the state is set before the step is evaluated");
    stage = 2;
  }
};

struct Lin
{
  unsigned int
  solve(GV &d, const GV &r, bool do_update)
  {
    hv_check(d.own, "increment vector has been initialised");
    hv_check(stage == 2, "the linearisation is up to date");
    hv_check_eq(r.v, base_norm, "right hand side is the residual of the current state");
    hv_check_ieq(r.sign, -1, "right hand side is the negative residual");
    hv_check_eq(d.v, 0., "the linear solver starts from zero");
    hv_check(do_update == (update_pc && n_solve % every == 0), "the preconditioner is updated as often as requested");
    ++n_solve;
    in_step      = 0;
    d.v          = hv_real("increment", -2, 2);
    inc          = d.v;
    const long n = hv_int("linear", 0, 100);
    total_linear += n;
    return n;
  }
};

static void
run(long first_limit, long later_limit, long n_max, bool with_rhs, long pc_every)
{
  at = norm = first = base = base_norm = inc = 0;
  n_residual = n_solve = in_step = total_linear = stage = 0;
  expect_shift = with_rhs;
  limit_first  = first_limit;
  limit_later  = later_limit;
  every        = pc_every;
  update_pc    = hv_bool("update preconditioner");
  const double abs_tol = hv_real("abs_tol", 0, 0.3), rel_tol = hv_real("rel_tol", 0, 0.3);
  const long   max_iter = hv_int("max_iter", 0, n_max);
  hv_assume(abs_tol >= 0 && rel_tol >= 0);
  Op                                op;
  Lin                               lin;
  NewtonSolver<GV, Op, Lin> solver(op, lin, NewtonSolverData(max_iter, abs_tol, rel_tol));
  GV                                x, rhs;
  x    = hv_real("x0", -2, 2);
  base = x.v;
  rhs  = 7.;
  rhs.n                        = 3;
  NewtonSolverStatistics stats = {};
  bool                   ok    = true;
  try
    {
      if (with_rhs)
        stats = solver.solve(x, rhs, update_pc, every);
      else
        stats = solver.solve(x, update_pc, every);
    }
  catch (const ExceptionBase &)
    {
      ok = false;
    }
  const bool met = norm <= abs_tol || norm <= rel_tol * first;
  if (ok)
    {
      hv_check_eq(x.v, at, "the returned state is the one whose residual was evaluated last");
      hv_check(met, "success means that the residual meets a tolerance");
      hv_check_ieq(stats.newton_iterations, n_solve, "reported Newton iterations are the linear solves done");
      hv_check_ieq(stats.linear_iterations, total_linear, "reported linear iterations are the ones spent");
      hv_check(n_solve <= max_iter, "the iteration limit is respected");
      hv_cover("converged");
    }
  else if (n_solve > 0 && in_step >= 100)
    hv_cover("damping failed");
  else
    {
      hv_check(!met, "an error means that the tolerances are not met");
      hv_check_ieq(n_solve, max_iter, "the whole iteration budget has been used");
      hv_cover("not converged");
    }
}

HV_SPEC(three_steps)
{
  run(3, 3, 3, false, 1);
}

HV_SPEC(right_hand_side)
{
  run(2, 2, 3, true, 2);
}

HV_SPEC(hundred_trials)
{
  run(100, 1, 1, false, 1);
}
