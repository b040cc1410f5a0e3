// Contracts of the time loop of the simulation driver: how the step is chosen, what happens to it when an attempt
// fails, and when the loop ends.  The loop is extracted from driver.h on every run (hv/extract.py); solvers, mesh
// and tracker answer arbitrarily.  Two attempts from an arbitrary state make the argument inductive: the state in
// front of the second attempt is again one of those the first attempt starts from; a failed attempt leaves more
// state behind, so it is followed by two more.
// hv: extract driver
// hv: assume the time loop extracted from class Problem runs with ghost solvers, mesh, tracker and output, which answer arbitrarily and change nothing else of the driver
// hv: assume the spatial fields are one number per block
#include <hv_driver.h>
#include <algorithm>

namespace TI = ::TimeIntegration;

namespace
{
  struct Stop
  {};
  struct Attempt
  {
    double              t, h, solution, older;
    bool                ok, good;
    std::vector<double> all;
  };

  struct Control
  {
    hvd::Problem<2>      p;
    std::vector<Attempt> log;
    double               end, max, min, growth, set_time = -1;
    bool                 implicit;
    unsigned int         n_max;
    int                  outcomes; // number of ways an attempt may go
    int                  first = -1;

    Control(const unsigned int n_max, const int outcomes, const int order = 1)
      : n_max(n_max)
      , outcomes(outcomes)
    {
      p.t    = hv_real("t", 0, 5);
      end    = hv_real("time_end", 5.1, 10);
      max    = hv_real("time_step_max", 0.1, 2);
      min    = hv_real("time_step_min", 0.01, 0.3);
      growth = hv_real("growth_factor", 0.5, 3);
      hv_assume(p.t >= 0);
      hv_assume(p.t + 1e-6 < end);
      hv_assume(max > 0);
      hv_assume(min >= 0);
      hv_assume(growth > 0);
      auto &d                       = p.params.time_integration_data;
      d.time_end                    = end;
      d.time_step_max               = max;
      d.time_step_min               = min;
      d.growth_factor               = growth;
      d.desirable_newton_iterations = 5;
      d.desirable_linear_iterations = 100;
      d.predictor                   = "None";
      d.sanity_check_solution       = false;
      implicit                      = order > 0;
      p.params.adaptivity_data.refinement_frequency        = 0;
      p.params.adaptivity_data.quality_control             = false;
      p.params.adaptivity_data.extra_coarsening            = false;
      p.params.grain_tracker_data.grain_tracker_frequency  = 0;
      p.params.grain_tracker_data.check_inconsistency      = false;
      p.params.output_data.output_time_interval            = 0;

      const double dt = hv_real("dt", 0.1, 3);
      hv_assume(dt > 0);
      if (order == 0)
        p.start(TI::TimeIntegratorData<double>(std::unique_ptr<TI::ImplicitScheme<double>>(), dt));
      else if (order == 1)
        p.start(TI::TimeIntegratorData<double>(std::make_unique<TI::BDF1Scheme<double>>(), dt));
      else
        p.start(TI::TimeIntegratorData<double>(std::make_unique<TI::BDF2Scheme<double>>(), dt));

      hvd::world->set_time = [this](double s) { set_time = s; };
      hvd::world->step     = [this](hvd::Vec &v) { step(v); };
      hvd::world->courant  = [this](double h) {
        hv_check_eq(h, p.sintering_data.time_data.get_current_dt(), "the Courant condition is checked for the step to be taken");
        return true;
      };
    }

    double expected(const Attempt &a) const
    {
      if (!a.ok)
        return a.h / 2;
      double h = a.h;
      if (a.good & (growth > 1))
        {
          h = h * growth;
          if (h > max)
            h = max;
        }
      if (a.t + a.h + h > end)
        h = end - (a.t + a.h);
      return h;
    }

    void step(hvd::Vec &v)
    {
      Attempt a;
      a.t   = p.t;
      a.all = p.sintering_data.time_data.get_all_dt();
      a.h   = a.all[0];
      hv_check(a.h > 0, "time advances");
      hv_check(a.h <= max + 1e-12, "the step does not exceed the configured maximum");
      hv_check(a.t + a.h <= end + 1e-12, "no step passes the end time");
      hv_check_eq(set_time, implicit ? a.t + a.h : a.t, "materials are evaluated at the time of the step");
      a.solution = v.block(0).value;
      hv_check_eq(p.history->get_recent_old_solution().block(0).value, a.solution, "a step starts from the last accepted solution");

      const auto all = p.history->get_all_solutions();
      a.older        = all.size() > 2 ? all[2]->block(0).value : 0.;

      if (log.size() > 0)
        {
          const Attempt &o = log.back();
          if (all.size() > 2)
            hv_check_eq(a.older, o.ok ? o.solution : o.older, "older solutions are the accepted ones");
          hv_check_eq(a.h, expected(o), o.ok ? "after an accepted step only configured growth and the limits change the step" : "a failed step is repeated with half the step");
          hv_check_eq(a.t, o.ok ? o.t + o.h : o.t, "time advances by accepted steps only");
          hv_check_eq(a.solution, o.ok ? o.solution + 1 : o.solution, "a failed attempt leaves no trace in the solution");
          if (!o.ok)
            hv_check(a.h > min, "no attempt is repeated with a step of the minimum or less");
          for (unsigned int i = 1; i < a.all.size(); ++i)
            hv_check_eq(a.all[i], o.ok ? o.all[i - 1] : o.all[i], "older steps are the accepted ones");
        }
      if (log.size() + 1 == n_max)
        throw Stop();

      const int what = (log.empty() && first >= 0) ? first : hv_pick("outcome", 0, outcomes - 1);
      v.block(0).value += 1;
      a.ok   = what < 3;
      a.good = what == 0;
      log.push_back(a);
      p.statistics.increment_newton_iterations(what == 1 ? 5 : 4);
      p.statistics.increment_linear_iterations(what == 2 ? 100 : 99);
      if (what == 3)
        throw NonLinearSolvers::ExcNewtonDidNotConverge("Newton");
      if (what == 4)
        throw dealii::SolverControl::NoConvergence(3, 1.);
    }

    void run()
    {
      int how = 0;
      try
        {
          p.loop();
        }
      catch (const Stop &)
        {
          how = 1;
        }
      catch (const std::exception &)
        {
          how = 2;
        }
      hv_check(log.size() > 0, "at least one step is attempted");
      const Attempt &o = log.back();
      if (how == 0)
        {
          hv_check(o.ok, "the loop does not end with a failed step");
          hv_check_eq(p.t, o.t + o.h, "time advances by accepted steps only");
          hv_check(std::abs(p.t - end) <= 2e-9, "the loop ends at the end time only");
        }
      else if (how == 2)
        {
          hv_check(!o.ok, "only a failed attempt stops the run");
          hv_check(o.h / 2 <= min, "a run is given up only when the step would have to shrink to the minimum or below");
        }
      unsigned int accepted = 0;
      for (const auto &a : log)
        accepted += a.ok;
      hv_check_ieq(p.n_timestep, accepted, "accepted steps are counted");
      hv_check_ieq(p.n_failed_tries, log.size() - accepted, "failed attempts are counted");
    }
  };
} // namespace

// any state, any outcome, then the state in front of the next attempt
HV_SPEC(step_after_any_outcome)
{
  Control c(2, 5);
  c.run();
}
HV_SPEC(steps_after_a_failed_attempt)
{
  Control c(3, 4);
  c.first = 3;
  c.run();
}
HV_SPEC(steps_after_an_accepted_step)
{
  Control c(3, 4);
  c.first = 0;
  c.run();
}
HV_SPEC(step_with_longer_history)
{
  Control c(3, 4, 2);
  c.first = hv_pick("first", 2, 3);
  c.run();
}
HV_SPEC(step_explicit)
{
  Control c(2, 4, 0);
  c.run();
}
// the Courant condition rejects a step before it is attempted
HV_SPEC(courant_condition_rejects)
{
  Control c(1, 1);
  c.p.params.advection_data.enable        = true;
  c.p.params.advection_data.check_courant = true;
  unsigned int n = 0;
  std::vector<double> h;
  hvd::world->courant = [&](double dt) {
    h.push_back(dt);
    hv_check_eq(dt, c.p.sintering_data.time_data.get_current_dt(), "the Courant condition is checked for the step to be taken");
    hv_check_eq(dt * (n + 1 == 1 ? 1 : n + 1 == 2 ? 2 : 4), h[0], "a rejected step is halved");
    return ++n == 3;
  };
  bool stopped = false;
  try
    {
      c.p.loop();
    }
  catch (const Stop &)
    {}
  catch (const std::exception &)
    {
      stopped = true;
    }
  if (stopped)
    hv_check(h.back() / 2 <= c.min, "a run is given up only when the step would have to shrink to the minimum or below");
  else
    hv_check_ieq(n, 3, "no step is attempted while the Courant condition is violated");
  hv_check_ieq(c.p.n_timestep, 0, "a rejected step is not counted");
}
