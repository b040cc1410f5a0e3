// What the time loop of the driver does between and after the steps: refinement, search for grains, supports, output,
// checkpoints and initial guesses.  The loop is extracted from driver.h on every run (hv/extract.py); the number of
// steps since the last event of each kind is arbitrary at the beginning, so a few steps stand for all.
// hv: extract driver
// hv: assume the time loop extracted from class Problem runs with ghost solvers, mesh, tracker and output, which answer arbitrarily and change nothing else of the driver
// hv: assume the spatial fields are one number per block
#include <hv_driver.h>

namespace TI = ::TimeIntegration;

namespace
{
  struct Stop
  {};
  enum Kind
  {
    refined,
    tracked,
    supported,
    timed,
    limited,
    attempted,
    wrote,
    saved,
    rated
  };
  struct Event
  {
    Kind   kind;
    double t;
  };

  struct Driver
  {
    hvd::Problem<2>    p;
    std::vector<Event> log;
    std::vector<int>   outcomes; // of the attempts; Stop behind the last one
    unsigned int       attempt = 0;
    double             quality = 1;

    Driver(const std::vector<int> &o, const unsigned int order = 1)
      : outcomes(o)
    {
      auto &d                                              = p.params.time_integration_data;
      d.time_start                                         = 0;
      d.time_end                                           = 100;
      d.time_step_max                                      = 50;
      d.time_step_min                                      = 0;
      d.growth_factor                                      = 1;
      d.desirable_newton_iterations                        = 5;
      d.desirable_linear_iterations                        = 100;
      d.predictor                                          = "None";
      d.sanity_check_solution                              = false;
      d.sanity_check_predictor                             = false;
      auto &a                                              = p.params.adaptivity_data;
      a.refinement_frequency                               = 0;
      a.quality_control                                    = false;
      a.extra_coarsening                                   = false;
      a.max_refinement_depth                               = 3;
      p.params.grain_tracker_data.grain_tracker_frequency  = 0;
      p.params.grain_tracker_data.check_inconsistency      = false;
      p.params.grain_tracker_data.track_with_quality       = false;
      p.params.output_data.output_time_interval            = 0;
      p.params.advection_data.enable                       = false;
      p.params.advection_data.check_courant                = false;
      p.current_max_refinement_depth                       = 3;
      p.t                                                  = 1;
      if (!hvd::disk)
        hvd::disk = new hvd::Disk;
      const double dt = hv_real("dt", 0.1, 2);
      hv_assume(dt > 1e-3);
      hv_assume(dt < 10);
      if (order == 1)
        p.start(TI::TimeIntegratorData<double>(std::make_unique<TI::BDF1Scheme<double>>(), dt));
      else
        p.start(TI::TimeIntegratorData<double>(std::make_unique<TI::BDF2Scheme<double>>(), dt));

      auto &w      = *hvd::world;
      w.refine     = [this](double t) { log.push_back({refined, t}); };
      w.track      = [this](double t, bool) { log.push_back({tracked, t}); };
      w.supports   = [this](double t) { log.push_back({supported, t}); };
      w.set_time   = [this](double t) { log.push_back({timed, t}); };
      w.limit      = [this](hvd::Vec &v) { log.push_back({limited, v.block(0).value}); };
      w.quality    = [this]() { return quality; };
      w.output     = [this](const std::string &label, double t) {
        if (label == "solution")
          log.push_back({wrote, t});
      };
      w.step = [this](hvd::Vec &v) {
        log.push_back({attempted, v.block(0).value});
        if (attempt == outcomes.size())
          throw Stop();
        const int what = outcomes[attempt++];
        v.block(0).value += 1;
        p.statistics.increment_newton_iterations(what == 1 ? 5 : 4);
        p.statistics.increment_linear_iterations(9);
        if (what == 2)
          throw NonLinearSolvers::ExcNewtonDidNotConverge("Newton");
      };
    }

    // events of one kind between attempt k and attempt k+1
    std::vector<double> after(const unsigned int k, const Kind kind) const
    {
      std::vector<double> r;
      unsigned int        n = 0;
      for (const auto &e : log)
        {
          if (e.kind == attempted)
            ++n;
          else if (n == k && e.kind == kind)
            r.push_back(e.t);
        }
      return r;
    }

    // 1: stopped behind the last attempt, 2: error, 0: the end
    int run()
    {
      try
        {
          p.loop();
        }
      catch (const Stop &)
        {
          return 1;
        }
      catch (const std::exception &)
        {
          return 2;
        }
      return 0;
    }
  };

  // as often as every `frequency` steps
  bool due(const unsigned int frequency, const unsigned int steps)
  {
    return frequency > 0 && steps % frequency == 0;
  }
} // namespace

HV_SPEC(refinement_frequency)
{
  const int o0 = hv_pick("first", 0, 2), o1 = hv_pick("second", 0, 2);
  Driver    c({o0, o1});
  const unsigned int f                                      = hv_pick("frequency", 0, 3);
  c.p.params.adaptivity_data.refinement_frequency           = f;
  c.p.n_timestep_last_amr                                   = 4;
  c.p.n_timestep                                            = 4 + hv_pick("steps", 0, 3);
  unsigned int n = c.p.n_timestep, last = 4;
  hv_check_ieq(c.run(), 1, "the run goes on");
  hv_check(c.after(0, refined).empty(), "no refinement is due in front of the first step");
  double t = 1;
  for (unsigned int k = 0; k < 2; ++k)
    {
      const bool accepted = (k == 0 ? o0 : o1) != 2;
      n += accepted;
      const bool wanted = accepted && due(f, n - last);
      const auto e      = c.after(k + 1, refined);
      hv_check_ieq(e.size(), wanted, "the mesh is refined after the configured number of accepted steps");
      hv_check_ieq(c.after(k + 1, supported).size(), wanted, "supports are set anew on a new mesh");
      if (wanted)
        last = n;
    }
  hv_check_ieq(c.p.n_timestep_last_amr, last, "the step of the last refinement is remembered");
  hv_check_ieq(c.p.n_timestep, n, "accepted steps are counted");
}

HV_SPEC(search_for_grains)
{
  const int o0 = hv_pick("first", 0, 2), o1 = hv_pick("second", 0, 1);
  Driver    c({o0, o1});
  const unsigned int f = hv_pick("frequency", 0, 2), r = hv_pick("refinement", 0, 2);
  c.p.params.grain_tracker_data.grain_tracker_frequency = f;
  c.p.params.adaptivity_data.refinement_frequency       = r;
  const int why                                         = hv_pick("why", 0, 3);
  c.p.params.advection_data.enable                      = why == 1;
  c.p.grain_tracker_required_for_ebc                    = why == 2;
  c.p.grain_tracker_required_for_output                 = why == 3;
  c.p.n_timestep_last_gt                                = 5;
  c.p.n_timestep_last_amr                               = 4;
  c.p.n_timestep                                        = 5 + hv_pick("steps", 0, 1);
  unsigned int n = c.p.n_timestep, last = 5, amr = 4;
  hv_check_ieq(c.run(), 1, "the run goes on");
  hv_check(c.after(0, tracked).empty(), "no search is due in front of the first step");
  for (unsigned int k = 0; k < 2; ++k)
    {
      const bool accepted = (k == 0 ? o0 : o1) != 2;
      n += accepted;
      const bool mesh   = accepted && due(r, n - amr);
      const bool wanted = accepted && (due(f, n - last) || why == 1 || why == 2 || (why == 3 && mesh));
      const auto e      = c.after(k + 1, tracked);
      hv_check_ieq(e.size(), wanted, "grains are searched for after the configured number of accepted steps and whenever they are needed");
      if (wanted)
        last = n;
      if (mesh)
        amr = n;
      // the search follows the refinement
      unsigned int at = 0, i_mesh = 0, i_track = 0;
      unsigned int attempts = 0;
      for (const auto &x : c.log)
        {
          ++at;
          attempts += x.kind == attempted;
          if (attempts == k + 1 && x.kind == refined)
            i_mesh = at;
          if (attempts == k + 1 && x.kind == tracked)
            i_track = at;
        }
      if (mesh && wanted)
        hv_check(i_mesh < i_track, "grains are searched for on the new mesh");
    }
  hv_check_ieq(c.p.n_timestep_last_gt, last, "the step of the last search is remembered");
}

// the solution is checked for lost grains within the attempt
HV_SPEC(search_within_the_attempt)
{
  Driver c({0, 0});
  c.p.params.grain_tracker_data.check_inconsistency = true;
  const unsigned int r                              = hv_pick("refinement", 0, 2);
  c.p.params.adaptivity_data.refinement_frequency   = r;
  const int why                                     = hv_pick("why", 0, 3);
  c.p.params.advection_data.enable                  = why == 1;
  c.p.grain_tracker_required_for_ebc                = why == 2;
  c.p.grain_tracker_required_for_output             = why == 3;
  c.p.n_timestep                                    = 3;
  c.p.n_timestep_last_amr                           = 3;
  const bool   lost  = hv_bool("lost");
  unsigned int calls = 0;
  hvd::world->track  = [&](double t, bool) {
    c.log.push_back({tracked, t});
    if (lost && ++calls == 1)
      throw hvd::GrainTracker::ExcGrainsInconsistency();
  };
  hv_check_ieq(c.run(), 1, "the run goes on");
  const auto   h = c.p.sintering_data.time_data.get_current_dt();
  unsigned int n = 3, amr = 3;
  for (unsigned int k = 0; k < 2; ++k)
    {
      const bool accepted = !(lost && k == 0);
      n += accepted;
      const bool mesh = accepted && due(r, n - amr);
      if (mesh)
        amr = n;
      hv_check_ieq(c.after(k + 1, tracked).size(), 1 + (mesh && why > 0), "every new solution is searched for grains, and once more if the mesh changes and they are needed");
    }
  hv_check_ieq(c.p.n_timestep_last_gt, n, "the step of the last search is remembered");
  hv_check_ieq(c.p.n_failed_tries, lost, "a solution in which grains get lost is rejected");
  hv_check_ieq(c.p.n_timestep, n, "accepted steps are counted");
  hv_check_eq(c.p.t, 1 + (lost ? 1 : 2) * h, "time advances by accepted steps only");
  hv_check_eq(c.p.history->get_current_solution().block(0).value, lost ? 1 : 2, "a rejected solution leaves no trace");
}
// a regular search which fails cannot be repeated
HV_SPEC(regular_search_fails)
{
  Driver c({0, 0});
  c.p.params.grain_tracker_data.grain_tracker_frequency = 1;
  hvd::world->track                                     = [&](double, bool) { throw hvd::GrainTracker::ExcGrainsInconsistency(); };
  hv_check_ieq(c.run(), 2, "the run stops with an error if grains get lost");
  hv_check_ieq(c.attempt, 1, "no further step is attempted");
}

HV_SPEC(quality_control)
{
  const int o0 = hv_pick("first", 0, 2);
  Driver    c({o0});
  c.p.params.adaptivity_data.quality_control            = true;
  c.p.params.adaptivity_data.refinement_frequency       = hv_pick("ignored", 0, 1);
  c.p.params.adaptivity_data.extra_coarsening           = true;
  const bool follow                                     = hv_bool("track with quality");
  const unsigned int f                                  = hv_pick("frequency", 0, 2);
  c.p.params.grain_tracker_data.track_with_quality      = follow;
  c.p.params.grain_tracker_data.grain_tracker_frequency = f;
  c.p.n_timestep = c.p.n_timestep_last_amr = c.p.n_timestep_last_gt = 3;
  c.quality                      = hv_real("quality", 0, 1);
  c.p.current_min_mesh_quality   = hv_real("quality_min", 0, 1);
  const double least             = c.p.current_min_mesh_quality;
  hv_check_ieq(c.run(), 1, "the run goes on");
  const bool mesh = o0 != 2 && c.quality < least;
  hv_check_ieq(c.after(1, refined).size(), mesh, "the mesh is refined if its quality is too low");
  hv_check_ieq(c.after(1, tracked).size(), o0 != 2 && ((follow && mesh) || due(f, 1)), "grains are searched for together with the refinement on request");
  hv_check_ieq(c.p.current_max_refinement_depth, 3, "the limit of the refinement is kept");
}
HV_SPEC(quality_after_the_first_step)
{
  Driver c({0});
  auto &a                = c.p.params.adaptivity_data;
  a.quality_control      = true;
  a.auto_quality_min     = hv_bool("auto");
  a.quality_min          = hv_real("quality_min", 0, 1);
  a.auto_quality_initial_factor = hv_real("factor", 0.1, 0.9);
  c.quality              = hv_real("quality", 0, 1);
  const double q0        = c.quality;
  const unsigned int better = hv_pick("refinements needed", 0, 2);
  hv_assume(q0 >= 0);
  hv_assume(better == 0 ? q0 >= a.quality_min : q0 < a.quality_min);
  c.p.current_min_mesh_quality = -1;
  hvd::world->refine = [&](double t) {
    c.log.push_back({refined, t});
    if (c.after(1, refined).size() >= better)
      c.quality = a.quality_min;
  };
  hv_check_ieq(c.run(), 1, "the run goes on");
  if (a.auto_quality_min)
    {
      hv_check_eq(c.p.current_min_mesh_quality, a.auto_quality_initial_factor * q0, "the first quality is the reference");
      hv_check_ieq(c.after(1, refined).size(), 0, "the mesh is left alone");
    }
  else
    {
      hv_check_eq(c.p.current_min_mesh_quality, a.quality_min, "the requested quality is the reference");
      hv_check_ieq(c.after(1, refined).size(), better, "the mesh is refined until its quality suffices");
      hv_check_ieq(c.p.current_max_refinement_depth, 3 + better, "finer cells are allowed while the quality does not suffice");
    }
}
HV_SPEC(extra_coarsening)
{
  const int o0 = hv_pick("first", 0, 1), o1 = hv_pick("second", 0, 1);
  Driver    c({o0, o1});
  c.p.params.adaptivity_data.extra_coarsening = hv_bool("extra");
  c.p.current_max_refinement_depth            = hv_pick("depth", 2, 3);
  const bool first  = o0 == 0 && c.p.params.adaptivity_data.extra_coarsening && c.p.current_max_refinement_depth == 3;
  const bool second = !first && o1 == 0 && c.p.params.adaptivity_data.extra_coarsening && c.p.current_max_refinement_depth == 3;
  const unsigned int depth = c.p.current_max_refinement_depth;
  hv_check_ieq(c.run(), 1, "the run goes on");
  hv_check_ieq(c.after(1, refined).size(), first, "the mesh is coarsened once if the step was easy");
  hv_check_ieq(c.after(2, refined).size(), second, "the mesh is coarsened once if the step was easy");
  hv_check_ieq(c.p.current_max_refinement_depth, depth - (first || second), "the limit of the refinement is lowered once");
}

HV_SPEC(output_interval)
{
  const int o0 = hv_pick("first", 1, 2);
  Driver    c({o0, 1, 1});
  c.p.params.output_data.output_time_interval = hv_bool("output") ? hv_real("interval", 0.1, 3) : 0.;
  const double interval = c.p.params.output_data.output_time_interval;
  hv_assume(interval >= 0);
  c.p.time_last_output = hv_real("last", 0, 1);
  hv_assume(c.p.time_last_output <= 1);
  double last = c.p.time_last_output, t = 1, h = c.p.sintering_data.time_data.get_current_dt();
  hv_check_ieq(c.run(), 1, "the run goes on");
  for (unsigned int k = 0; k < 3; ++k)
    {
      const bool accepted = k > 0 || o0 != 2;
      if (accepted)
        t += h;
      else
        h /= 2;
      const auto e      = c.after(k + 1, wrote);
      const bool wanted = accepted && interval > 0 && t >= last + interval;
      hv_check_ieq(e.size(), wanted, "output is written once the interval has passed, for accepted steps only");
      if (wanted && e.size() == 1)
        {
          hv_check_eq(e[0], t, "output is labelled by the time of the solution");
          last = t;
        }
    }
  hv_check_eq(c.p.time_last_output, last, "the time of the last output is remembered");
}
HV_SPEC(end_of_the_run)
{
  Driver c({1, 1, 1});
  const double h                                   = c.p.sintering_data.time_data.get_current_dt();
  c.p.params.time_integration_data.time_end        = 1 + h * hv_pick("steps", 1, 2);
  c.p.params.output_data.output_time_interval      = hv_pick("output", 0, 1) * 1000.;
  c.p.params.adaptivity_data.refinement_frequency       = 1;
  c.p.params.grain_tracker_data.grain_tracker_frequency = 1;
  unsigned int asked = 0;
  hvd::world->checkpoint = [&](double) {
    ++asked;
    return false;
  };
  hvd::disk                          = new hvd::Disk;
  c.p.params.restart_data.prefix     = "end";
  c.p.params.restart_data.max_output = 2;
  c.p.restart_counter                = hv_pick("counter", 0, 3);
  const unsigned int n               = c.p.restart_counter;
  hv_check_ieq(c.run(), 0, "the run ends at the end time");
  const unsigned int k = c.attempt;
  hv_check_ieq(c.after(k, wrote).size(), c.p.params.output_data.output_time_interval > 0, "the last step is written");
  hv_check_ieq(c.after(k, refined).size() + c.after(k, tracked).size(), 0, "nothing is prepared behind the end");
  hv_check_ieq(c.p.restart_counter, n + 1, "a checkpoint is written at the end");
  hv_check(hvd::disk->numbers.count(std::string("end_") + (n % 2 ? "1" : "0") + "_driver") == 1, "checkpoints are numbered cyclically");
  hv_check_ieq(hvd::disk->numbers.size(), 3, "no other checkpoint is written");
}
HV_SPEC(checkpoints)
{
  Driver c({1, 2, 1});
  c.p.params.restart_data.prefix     = "some";
  c.p.params.restart_data.max_output = hv_pick("max", 0, 2);
  const bool   first = hv_bool("first"), second = hv_bool("second");
  unsigned int asked = 0;
  double       h     = c.p.sintering_data.time_data.get_current_dt();
  hvd::world->checkpoint = [&](double t) {
    hv_check_eq(t, asked == 0 ? 1 + h : 1 + 1.5 * h, "the checkpoint is asked for at the time reached");
    return asked++ == 0 ? first : second;
  };
  hvd::disk = new hvd::Disk;
  hv_check_ieq(c.run(), 1, "the run goes on");
  hv_check_ieq(asked, 2, "checkpoints are considered after every accepted step");
  hv_check_ieq(c.p.restart_counter, first + second, "checkpoints are counted");
  const bool one = c.p.params.restart_data.max_output != 1 && first && second;
  hv_check_ieq(hvd::disk->numbers.count("some_0_driver"), first || second, "a checkpoint is written when it is due");
  hv_check_ieq(hvd::disk->numbers.count("some_1_driver"), one, "checkpoints are numbered up to the configured maximum");
}

// initial guesses
HV_SPEC(predictors)
{
  const int what   = hv_pick("predictor", 0, 3);
  hvd::Vec::blocks = 2;
  Driver       c({}, 2);
  auto        &d = c.p.params.time_integration_data;
  d.predictor    = what == 0 ? "None" : what == 1 ? "Euler" : what == 2 ? "Midpoint" : "Linear";
  c.p.t          = hv_bool("started") ? 1. : 0.;
  d.sanity_check_predictor = hv_bool("limit");
  const double h = c.p.sintering_data.time_data.get_current_dt();
  double       older = 0;
  if (hv_bool("history"))
    {
      older = hv_real("older step", 0.1, 2);
      hv_assume(older > 0);
      c.p.sintering_data.time_data.replace_dt(older);
      c.p.sintering_data.time_data.update_dt(h);
    }
  const auto   s  = c.p.history->get_all_solutions();
  const double u0 = hv_real("u", -1, 1), u1 = hv_real("v", -1, 1), rate = hv_real("rate", -1, 1);
  const bool   lost = hv_bool("after refinement"); // the recent old solution does not survive it
  for (unsigned int b = 0; b < 2; ++b)
    {
      s[0]->block(b).value = (b + 1) * u0;
      s[1]->block(b).value = lost ? 0. : (b + 1) * u1;
      s[2]->block(b).value = (b + 1) * u1;
    }
  hvd::world->rate = [&](hvd::Vec &r, const hvd::Vec &u) {
    for (unsigned int b = 0; b < 2; ++b)
      r.block(b).value = rate * u.block(b).value;
  };
  hv_check_ieq(c.run(), 1, "the run goes on");
  double e = u0;
  if (c.p.t > 0)
    {
      if (what == 1)
        e = u0 - h * rate * u0;
      else if (what == 2)
        e = u0 - h * rate * (u0 - h / 2 * rate * u0);
      else if (what == 3 && older > 0)
        e = u0 + h / older * (u0 - u1);
    }
  for (unsigned int b = 0; b < 2; ++b)
    {
      hv_check_eq(s[0]->block(b).value, (b + 1) * e, "the step starts from the guess of the predictor");
      hv_check_eq(s[1]->block(b).value, (b + 1) * u0, "the last accepted solution is kept for the time derivative");
      hv_check_eq(s[2]->block(b).value, (b + 1) * u1, "the older solution is kept");
    }
  hv_check_ieq(c.after(0, limited).size(), d.sanity_check_predictor && what > 0 && c.p.t > 0, "the guess is limited on request");
}
HV_SPEC(limited_solutions)
{
  const int o0 = hv_pick("first", 1, 2);
  Driver    c({o0, 1});
  c.p.params.time_integration_data.sanity_check_solution = hv_bool("limit");
  const bool on = c.p.params.time_integration_data.sanity_check_solution;
  hvd::world->limit = [&](hvd::Vec &v) {
    c.log.push_back({limited, v.block(0).value});
    v.block(0).value *= 0.5;
  };
  hv_check_ieq(c.run(), 1, "the run goes on");
  hv_check_ieq(c.after(0, limited).size(), on, "the solution is limited in front of a step");
  hv_check_ieq(c.after(1, limited).size(), on && o0 != 2, "accepted solutions are limited");
  hv_check_eq(c.p.history->get_recent_old_solution().block(0).value, o0 == 2 ? (on ? 0.5 : 1.) : (on ? 0.75 : 2.), "the step starts from the limited solution");
}
