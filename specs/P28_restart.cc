// A run that is interrupted behind a checkpoint and restarted from it takes the same steps as the run that was not
// interrupted.  Both runs execute the time loop, the writing of the checkpoint and the restart constructor extracted
// from driver.h; solver, mesh, grain tracker and archives are ghosts, and the solver answers both runs alike.
// hv: extract driver
// hv: assume the time loop and the restart constructor extracted from class Problem run with ghost solvers, mesh, tracker and output
// hv: assume an archive and the files of the mesh hand back what has been written; the spatial fields are one number per block
#include <hv_driver.h>

namespace TI = ::TimeIntegration;

namespace
{
  struct Stop
  {};
  // what the solver is given, and what has happened before
  struct Attempt
  {
    double                           t, set_time;
    std::vector<double>              all;
    std::vector<std::vector<double>> solutions;
    unsigned int                     n_timestep, amr, gt, failed, newton;
    double                           last_output;
    unsigned int                     level, components;
    std::vector<double>              refined, tracked, output;
  };

  struct Settings
  {
    double       end, max, growth, dt, t;
    unsigned int order;
    std::string  predictor = "None";
    bool         full, flexible;
    int          first, second, third; // outcomes of the attempts
    unsigned int frequency = 0;
    double       interval  = 0;
  };

  struct Run
  {
    hvd::Problem<2>      p;
    std::vector<Attempt> log;
    std::vector<int>     outcomes;
    Attempt              now;
    unsigned int         checkpoint_at;

    Run(const Settings &s, const std::vector<int> &outcomes, const unsigned int checkpoint_at)
      : outcomes(outcomes)
      , checkpoint_at(checkpoint_at)
    {
      auto &d                                             = p.params.time_integration_data;
      d.time_start                                        = 0;
      d.time_end                                          = s.end;
      d.time_step_max                                     = s.max;
      d.time_step_min                                     = 0;
      d.growth_factor                                     = s.growth;
      d.desirable_newton_iterations                       = 5;
      d.desirable_linear_iterations                       = 100;
      d.predictor                                         = s.predictor;
      d.sanity_check_solution                             = false;
      d.sanity_check_predictor                            = false;
      d.integration_scheme                                = s.order == 1 ? "BDF1" : "BDF2";
      p.params.adaptivity_data.refinement_frequency       = s.frequency;
      p.params.adaptivity_data.quality_control            = false;
      p.params.adaptivity_data.extra_coarsening           = false;
      p.params.grain_tracker_data.grain_tracker_frequency = s.frequency;
      p.params.grain_tracker_data.check_inconsistency     = false;
      p.params.output_data.output_time_interval           = s.interval;
      p.params.restart_data.prefix                        = "restart";
      p.params.restart_data.full_history                  = s.full;
      p.params.restart_data.flexible_output               = s.flexible;
      p.params.restart_data.max_output                    = 0;

      hvd::world->set_time   = [this](double s) { now.set_time = s; };
      hvd::world->step       = [this](hvd::Vec &v) { step(v); };
      hvd::world->checkpoint = [this](double) {
        if (p.n_timestep == this->checkpoint_at)
          now = Attempt(); // what is behind the checkpoint counts
        return p.n_timestep == this->checkpoint_at;
      };
      hvd::world->refine     = [this](double t) { now.refined.push_back(t); };
      hvd::world->track      = [this](double t, bool) { now.tracked.push_back(t); };
      hvd::world->output     = [this](const std::string &label, double t) {
        if (label == "solution")
          now.output.push_back(t);
      };
    }

    void step(hvd::Vec &v)
    {
      now.t          = p.t;
      now.all        = p.sintering_data.time_data.get_all_dt();
      now.n_timestep = p.n_timestep;
      now.amr        = p.n_timestep_last_amr;
      now.gt         = p.n_timestep_last_gt;
      now.failed     = p.n_failed_tries;
      now.newton     = p.n_non_linear_iterations;
      now.last_output = p.time_last_output;
      now.level       = p.current_max_refinement_depth;
      now.components  = p.sintering_data.n_components();
      for (const auto &s : p.history->get_all_solutions())
        {
          std::vector<double> x;
          for (unsigned int b = 0; b < s->n_blocks(); ++b)
            x.push_back(s->block(b).value);
          now.solutions.push_back(x);
        }
      const unsigned int k = log.size();
      log.push_back(now);
      now = Attempt();
      if (k == outcomes.size())
        throw Stop();
      // the new solution depends on the step and on what it starts from
      for (unsigned int b = 0; b < v.n_blocks(); ++b)
        {
          v.block(b).value += log.back().all[0] * (b + 1);
          for (unsigned int i = 1; i < log.back().solutions.size(); ++i)
            v.block(b).value += 0.5 * log.back().solutions[i][b];
        }
      p.statistics.increment_newton_iterations(outcomes[k] == 1 ? 5 : 4);
      p.statistics.increment_linear_iterations(9);
      if (outcomes[k] == 2)
        throw NonLinearSolvers::ExcNewtonDidNotConverge("Newton");
    }
  };

  void same(const Attempt &a, const Attempt &b)
  {
    hv_check_eq(a.t, b.t, "the restarted run continues at the time of the checkpoint");
    hv_check_ieq(a.all.size(), b.all.size(), "the restarted run keeps the order of the time integration");
    for (unsigned int i = 0; i < a.all.size() && i < b.all.size(); ++i)
      hv_check_eq(a.all[i], b.all[i], i == 0 ? "the restarted run takes the step the interrupted one would have taken" : "the restarted run knows the older steps");
    hv_check_eq(a.set_time, b.set_time, "materials are evaluated at the same time");
    hv_check_ieq(a.solutions.size(), b.solutions.size(), "the restarted run keeps as many solutions");
    for (unsigned int i = 0; i < a.solutions.size() && i < b.solutions.size(); ++i)
      for (unsigned int k = 0; k < a.solutions[i].size(); ++k)
        hv_check_eq(a.solutions[i][k], b.solutions[i][k], i == 0 ? "the step starts from the same solution" : "the step uses the same older solutions");
    hv_check_ieq(a.n_timestep, b.n_timestep, "steps are counted on");
    hv_check_ieq(a.newton, b.newton, "iterations are counted on");
    hv_check_ieq(a.failed, b.failed, "failed attempts are counted on");
    hv_check_eq(a.last_output, b.last_output, "the time of the last output is kept");
    hv_check_ieq(a.level, b.level, "the refinement limit is kept");
    hv_check_ieq(a.components, b.components, "the number of components is kept");
    hv_check_ieq(a.output.size(), b.output.size(), "output is written at the same steps");
  }
  void same_refinement(const Attempt &a, const Attempt &b)
  {
    hv_check_ieq(a.amr, b.amr, "the last refinement is remembered");
    hv_check_ieq(a.refined.size(), b.refined.size(), "the mesh is refined at the same steps");
  }

  Settings settings(const unsigned int order)
  {
    Settings s;
    s.t      = 0;
    s.end    = hv_real("time_end", 8, 20);
    s.max    = hv_real("time_step_max", 1, 3);
    s.growth = hv_real("growth_factor", 0.5, 3);
    s.dt     = hv_real("dt", 0.1, 1);
    hv_assume(s.dt > 0);
    hv_assume(s.max >= s.dt);
    hv_assume(s.growth > 0);
    hv_assume(s.end >= 4 * s.max + 1e-6); // not the last steps
    s.order    = order;
    s.full     = true;
    s.flexible = false;
    return s;
  }

  // `before` attempts, the last of which is accepted and followed by the checkpoint, and `after` attempts behind it
  template <typename C>
  void compare(const Settings &s, const std::vector<int> &before, const std::vector<int> &after, const C &also)
  {
    hvd::disk = new hvd::Disk;
    std::vector<int> all(before);
    all.insert(all.end(), after.begin(), after.end());
    unsigned int accepted = 0;
    for (const int o : before)
      accepted += o != 2;
    Run a(s, all, 5 + accepted);
    a.p.n_timestep          = 5;
    a.p.n_timestep_last_amr = 4;
    a.p.n_timestep_last_gt  = 3;
    a.p.restart_counter     = 0;
    a.p.n_global_levels_0   = 4;
    a.p.current_min_mesh_quality     = hv_real("quality", 0, 1);
    a.p.n_failed_linear_iterations   = 11;
    a.p.n_failed_residual_evaluations = 12;
    for (unsigned int i = 0; i < 3; ++i)
      {
        a.p.grain_tracker.grains.push_back({});
        a.p.grain_tracker.grains.back().id = 3 + 2 * i;
      }
    a.p.t                            = s.t;
    a.p.current_max_refinement_depth = 3;
    a.p.max_reached_dt               = 0;
    a.p.geometry_r_max               = hv_real("r_max", 1, 2);
    a.p.geometry_interface_width     = hv_real("width", 1, 2);
    a.p.sintering_data.set_n_components(4);
    if (s.order == 1)
      a.p.start(TI::TimeIntegratorData<double>(std::make_unique<TI::BDF1Scheme<double>>(), s.dt));
    else
      a.p.start(TI::TimeIntegratorData<double>(std::make_unique<TI::BDF2Scheme<double>>(), s.dt));
    for (unsigned int i = 0; i < a.p.history->get_all_solutions().size(); ++i)
      if (i != 1)
        for (unsigned int b = 0; b < hvd::Vec::blocks; ++b)
          a.p.history->get_all_solutions()[i]->block(b).value = hv_real("u", -1, 1);
    bool stopped = false;
    try
      {
        a.p.loop();
      }
    catch (const Stop &)
      {
        stopped = true;
      }
    hv_check(stopped, "the uninterrupted run goes on");

    Run b(s, after, 1000);
    stopped = false;
    try
      {
        b.p.restart("restart_0");
      }
    catch (const Stop &)
      {
        stopped = true;
      }
    hv_check(stopped, "the restarted run goes on");
    hv_check_ieq(b.log.size(), after.size() + 1, "the restarted run makes the same attempts");
    for (unsigned int k = 0; k < b.log.size(); ++k)
      {
        same(a.log[before.size() + k], b.log[k]);
        also(a.log[before.size() + k], b.log[k]);
      }
    hv_check_eq(a.p.geometry_r_max, b.p.geometry_r_max, "the geometry is kept");
    hv_check_eq(a.p.geometry_interface_width, b.p.geometry_interface_width, "the geometry is kept");
    hv_check_ieq(a.p.restart_counter, b.p.restart_counter, "checkpoints are counted on");
    hv_check_ieq(a.p.n_global_levels_0, b.p.n_global_levels_0, "the initial refinement is kept");
    hv_check_eq(a.p.current_min_mesh_quality, b.p.current_min_mesh_quality, "the reference of the mesh quality is kept");
    hv_check_ieq(a.p.n_linear_iterations, b.p.n_linear_iterations, "iterations are counted on");
    hv_check_ieq(a.p.n_residual_evaluations, b.p.n_residual_evaluations, "iterations are counted on");
    hv_check_ieq(a.p.n_failed_linear_iterations, b.p.n_failed_linear_iterations, "failed attempts are counted on");
    hv_check_ieq(a.p.n_failed_non_linear_iterations, b.p.n_failed_non_linear_iterations, "failed attempts are counted on");
    hv_check_ieq(a.p.n_failed_residual_evaluations, b.p.n_failed_residual_evaluations, "failed attempts are counted on");
    hv_check_eq(a.p.max_reached_dt, b.p.max_reached_dt, "the largest step is kept");
    hv_check_ieq(a.p.grain_tracker.grains.size(), b.p.grain_tracker.grains.size(), "the grains are kept");
    for (unsigned int i = 0; i < b.p.grain_tracker.grains.size(); ++i)
      hv_check_ieq(b.p.grain_tracker.grains[i].id, 3 + 2 * i, "the grains are kept");
  }
} // namespace

HV_SPEC(restart_first_order)
{
  Settings s   = settings(1);
  s.full       = hv_bool("full history");
  s.flexible   = hv_bool("flexible");
  hvd::Vec::blocks = hv_pick("blocks", 1, 2);
  const int first = hv_pick("first", 0, 2), second = hv_pick("second", 0, 2);
  compare(s, first == 2 ? std::vector<int>{2, 0} : std::vector<int>{first}, {second}, same_refinement);
}
HV_SPEC(restart_second_order)
{
  Settings s       = settings(2);
  s.flexible       = hv_bool("flexible");
  hvd::Vec::blocks = 1;
  compare(s, {int(hv_pick("first", 0, 1)), int(hv_pick("second", 0, 1))}, {int(hv_pick("third", 0, 2))}, same_refinement);
}
HV_SPEC(restart_second_order_after_failures)
{
  Settings s       = settings(2);
  hvd::Vec::blocks = 2;
  compare(s, {0, 2, 1}, {2, 0}, same_refinement);
}
// a refinement or a search for grains that is due behind the checkpoint is not forgotten
HV_SPEC(due_refinement_and_tracking)
{
  Settings s       = settings(1);
  s.frequency      = hv_pick("frequency", 1, 3);
  s.interval       = hv_real("interval", 0.1, 3);
  hv_assume(s.interval > 0);
  hvd::Vec::blocks = 1;
  compare(s, {0, 1}, {1}, [](const Attempt &a, const Attempt &b) {
    same_refinement(a, b);
    hv_check_ieq(a.gt, b.gt, "the last search for grains is remembered");
    hv_check(a.tracked.size() <= b.tracked.size(), "grains are searched for whenever they are in the uninterrupted run");
  });
}
// the guess from which a step is solved
HV_SPEC(predictor)
{
  Settings s       = settings(2);
  s.predictor      = "Linear";
  hvd::Vec::blocks = 1;
  compare(s, {0, 1}, {1}, same_refinement);
}
HV_SPEC(predictor_without_history)
{
  Settings s       = settings(1);
  s.predictor      = hv_bool("Euler") ? "Euler" : "Midpoint";
  s.full           = hv_bool("full history");
  hvd::Vec::blocks = 1;
  compare(s, {0, 1}, {1}, same_refinement);
}
