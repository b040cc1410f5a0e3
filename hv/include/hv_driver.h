// The time loop of the simulation driver, extracted from driver.h on every run (hv/extract.py), in a ghost
// environment: what the loop calls (solvers, mesh refinement, grain tracker, output, archives) only logs and
// answers arbitrarily; parameters, time step data and solution history are the real classes.
#pragma once
#include <hv_dealii.h>
#include <deal.II/lac/solver_control.h>
#include <deal.II/lac/vector.h>
#include <pf-applications/lac/solvers_nonlinear.h>
#include <pf-applications/sintering/parameters.h>
#include <pf-applications/time_integration/solution_history.h>
#include <pf-applications/time_integration/time_integrator_data.h>
#include <pf-applications/time_integration/time_schemes.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <hv.h>

#ifdef HV_SYMBOLIC
namespace dealii
{
  template <> void Vector<double>::reinit(const size_type n, const bool)
  {
    hv_check_ieq(n, 0, "dummy vector");
  }
} // namespace dealii
#endif

namespace std
{
  struct hv_file
  {
    std::string name;
    hv_file(const std::string &name)
      : name(name)
    {}
  };
} // namespace std
#define ofstream hv_file
#define ifstream hv_file

namespace hvd
{
  using namespace dealii;
  using namespace ::NonLinearSolvers;
  using ::TimeIntegration::ImplicitScheme;

  // a field is known by one number per block
  struct Block
  {
    double value     = 0;
    void   copy_locally_owned_data_from(const Block &o)
    {
      value = o.value;
    }
    template <typename P>
    void reinit(const P &)
    {}
  };
  struct Vec
  {
    using BlockType = Block;
    std::vector<std::shared_ptr<Block>> b;
    mutable bool                        ghosted = false;
    static inline unsigned int          blocks  = 1;
    Vec()
    {
      for (unsigned int i = 0; i < blocks; ++i)
        b.push_back(std::make_shared<Block>());
    }
    Vec(const Vec &o)
      : Vec()
    {
      *this = o;
    }
    Vec &operator=(const Vec &o)
    {
      for (unsigned int i = 0; i < b.size(); ++i)
        b[i]->value = o.b[i]->value;
      return *this;
    }
    unsigned int n_blocks() const
    {
      return b.size();
    }
    Block &block(unsigned int i)
    {
      return *b[i];
    }
    const Block &block(unsigned int i) const
    {
      return *b[i];
    }
    std::shared_ptr<Block> block_ptr(unsigned int i)
    {
      return b[i];
    }
    std::unique_ptr<Vec> create_view(unsigned int, unsigned int) const
    {
      return std::make_unique<Vec>(*this);
    }
    bool has_ghost_elements() const
    {
      return ghosted;
    }
    void update_ghost_values() const
    {
      ghosted = true;
    }
    void zero_out_ghost_values() const
    {
      ghosted = false;
    }
    void add(double s, const Vec &o)
    {
      for (unsigned int i = 0; i < b.size(); ++i)
        b[i]->value += s * o.b[i]->value;
    }
    void sadd(double s, const Vec &o)
    {
      for (unsigned int i = 0; i < b.size(); ++i)
        b[i]->value = s * b[i]->value + o.b[i]->value;
    }
    std::size_t memory_consumption() const
    {
      return 0;
    }
  };

  struct Out
  {
    template <typename T>
    const Out &operator<<(const T &) const
    {
      return *this;
    }
    const Out &operator<<(std::ostream &(*)(std::ostream &)) const
    {
      return *this;
    }
    const Out &operator<<(std::ios_base &(*)(std::ios_base &)) const
    {
      return *this;
    }
    std::ostream &get_stream() const
    {
      return std::cout;
    }
    bool is_active() const
    {
      return false;
    }
  };
  struct TimerOutput
  {
    enum Kind
    {
      never,
      wall_times
    };
    template <typename... A>
    TimerOutput(A &&...)
    {}
    struct Scope
    {
      template <typename... A>
      Scope(A &&...)
      {}
    };
    void print_wall_time_statistics(MPI_Comm) const {}
  };
  struct Timer
  {
    Timer &operator()()
    {
      return *this;
    }
  };
  using MyTimerOutput = Timer;
  struct MyScope
  {
    template <typename... A>
    MyScope(A &&...)
    {}
  };
  struct ScopedName
  {
    ScopedName(const char *) {}
  };
  struct TimerCollection
  {
    static void print_all_wall_time_statistics(bool = false) {}
  };
  struct Something
  {
    std::size_t memory_consumption() const
    {
      return 0;
    }
    MPI_Comm get_mpi_communicator() const
    {
      return MPI_COMM_SELF;
    }
  };
  using MatrixFree       = Something;
  using DoFHandler       = Something;
  using Constraints      = Something;

  namespace Utilities
  {
    namespace MPI
    {
      template <typename T>
      T sum(const T &x, MPI_Comm)
      {
        return x;
      }
      inline unsigned int n_mpi_processes(MPI_Comm)
      {
        return 1;
      }
      inline unsigned int this_mpi_process(MPI_Comm)
      {
        return 0;
      }
    } // namespace MPI
  }   // namespace Utilities

  // what happens is logged here, what the environment answers is decided here
  struct World
  {
    std::function<void(Vec &)>                       step       = [](Vec &) {};
    std::function<bool(double)>                      courant    = [](double) { return true; };
    std::function<void(double, bool)>                track      = [](double, bool) {};
    std::function<void(double)>                      refine     = [](double) {};
    std::function<void(double)>                      supports   = [](double) {};
    std::function<void(const std::string &, double)> output     = [](const std::string &, double) {};
    std::function<double()>                          quality    = []() { return 1.; };
    std::function<bool(double)>                      checkpoint = [](double) { return false; };
    std::function<void(Vec &, const Vec &)>          rate       = [](Vec &, const Vec &) {};
    std::function<void(double)>                      set_time   = [](double) {};
    std::function<void()>                            clear      = []() {};
    std::function<void(Vec &)>                       limit      = [](Vec &) {};
  };
  static World *world;

  namespace hpsint
  {
    template <typename M>
    void limit_vector_values(Vec &v, const M &)
    {
      world->limit(v);
    }
  } // namespace hpsint
  namespace Postprocessors
  {
    template <typename D, typename V>
    double estimate_mesh_quality_min(const D &, const V &)
    {
      return world->quality();
    }
  } // namespace Postprocessors
  namespace VectorTools
  {
    template <typename A, typename B>
    void merge_components_fast(const A &, B &)
    {}
    template <typename A, typename B>
    void split_up_components_fast(const A &, B &)
    {}
  } // namespace VectorTools
  namespace GrainTracker
  {
    DeclExceptionMsg(ExcGrainsInconsistency, "Grains inconsistency detected!");
    template <int dim>
    struct Grain
    {
      unsigned int id = 0;
      template <typename A>
      void serialize(A &ar, unsigned int)
      {
        ar &id;
      }
    };
    template <int dim, typename Number>
    struct Tracker
    {
      std::vector<Grain<dim>> grains;
      template <typename S>
      void print_old_grains(const S &) const
      {}
      template <typename S>
      void print_current_grains(const S &) const
      {}
      template <typename I>
      void save_grains(I it) const
      {
        for (const auto &g : grains)
          *it++ = g;
      }
      template <typename I>
      void load_grains(I a, I b)
      {
        grains.assign(a, b);
      }
    };
  } // namespace GrainTracker
  class ExcCourantConditionViolated : public dealii::ExceptionBase
  {
  public:
    std::string message() const
    {
      return "";
    }
  };
  template <int dim, typename Number, typename VA>
  struct HelmholtzOperator
  {
    template <typename... A>
    HelmholtzOperator(A &&...)
    {}
    template <typename A, typename B>
    void vmult(A &, const B &) const
    {}
  };

  struct SinteringData
  {
    ::TimeIntegration::TimeIntegratorData<double> time_data;
    unsigned int                                n = 3;
    unsigned int n_components() const
    {
      return n;
    }
    unsigned int n_grains() const
    {
      return n - 2;
    }
    unsigned int n_non_grains() const
    {
      return 0;
    }
    void set_n_components(unsigned int k)
    {
      n = k;
    }
    void set_time(double t) const
    {
      world->set_time(t);
    }
    int build_pf_component_mask(unsigned int) const
    {
      return 0;
    }
    template <typename... A>
    void fill_quadrature_point_values(A &&...) const
    {}
    template <typename... A>
    void set_component_mask(A &&...) const
    {}
    std::size_t memory_consumption() const
    {
      return 0;
    }
  };
  struct Matrix
  {
    template <typename A, typename B>
    void vmult(A &, const B &) const
    {}
  };
  struct NonLinearOperator
  {
    void initialize_dof_vector(Vec &v) const
    {
      for (unsigned int i = 0; i < v.n_blocks(); ++i)
        v.block(i).value = 0;
    }
    template <int>
    void evaluate_nonlinear_residual(Vec &dst, const Vec &src) const
    {
      world->rate(dst, src);
    }
    unsigned int n_components() const
    {
      return 1;
    }
    bool set_timing(bool) const
    {
      return false;
    }
    template <typename A, typename B>
    void vmult(A &, const B &) const
    {}
    Matrix get_system_matrix() const
    {
      return {};
    }
    int get_system_partitioner() const
    {
      return 0;
    }
    void clear_system_matrix() const {}
    void clear() const
    {
      world->clear();
    }
    std::size_t memory_consumption() const
    {
      return 0;
    }
  };
  struct Preconditioner : public Something
  {
    void clear() const
    {
      world->clear();
    }
    void do_update() const {}
  };
  struct Marching
  {
    void make_step(Vec &v) const
    {
      world->step(v);
    }
    void clear() const
    {
      world->clear();
    }
  };
  struct Cfl
  {
    bool check_courant(double dt) const
    {
      return world->courant(dt);
    }
    void precompute_cell_diameters() const {}
  };
  struct Advection
  {
    template <typename... A>
    void evaluate_forces(A &&...) const
    {}
    template <typename... A>
    void print_forces(A &&...) const
    {}
  };
  struct Postproc
  {
    template <typename... A>
    void evaluate_rhs(A &&...) const
    {}
    template <typename... A>
    void solve(A &&...) const
    {}
  };
  struct RestartPredicate
  {
    bool now(double t) const
    {
      return world->checkpoint(t);
    }
  };

  // files: a list of numbers each
  struct Disk
  {
    std::map<std::string, std::vector<double>> numbers;
    std::map<std::string, std::vector<double>> fields;
    std::vector<double>                        attached; // to the mesh
  };
  static Disk *disk;

  struct Tria : public Something
  {
    void save(const std::string &name) const
    {
      disk->fields[name] = disk->attached;
      disk->attached.clear();
    }
    void load(const std::string &name) const
    {
      disk->attached = disk->fields[name];
    }
    void         repartition() const {}
    unsigned int n_global_levels() const
    {
      return 1;
    }
  };

  struct Archive
  {
    std::string  name;
    unsigned int k       = 0;
    bool         loading = false;
    template <typename T>
    void number(T &x)
    {
      if (!loading)
        disk->numbers[name].push_back(static_cast<double>(x));
      else
        {
          hv_check(k < disk->numbers[name].size(), "only what has been written is read");
          if constexpr (std::is_same_v<T, bool>)
            x = disk->numbers[name][k++] != 0;
          else
            x = static_cast<T>(disk->numbers[name][k++]);
        }
    }
    template <typename T>
    Archive &operator&(T &&x)
    {
      using X = std::remove_cv_t<std::remove_reference_t<T>>;
      if constexpr (std::is_arithmetic_v<X>)
        number(const_cast<X &>(x));
      else if constexpr (requires { x.address(); x.count(); })
        for (unsigned int i = 0; i < x.count(); ++i)
          *this &x.address()[i];
      else if constexpr (requires { x.load(*this, 0u); })
        {
          if (loading)
            const_cast<X &>(x).load(*this, 0u);
          else
            x.save(*this, 0u);
        }
      else if constexpr (requires { x.first; x.second; })
        *this &x.first &x.second;
      else if constexpr (requires { x.push_back(*x.begin()); })
        {
          unsigned int n = x.size();
          number(n);
          if (loading)
            const_cast<X &>(x).resize(n);
          for (auto &y : const_cast<X &>(x))
            *this &y;
        }
      else if constexpr (requires { x.serialize(*this, 0u); })
        const_cast<X &>(x).serialize(*this, 0u);
      return *this;
    }
    template <int dim>
    Archive &operator&(Point<dim> &x)
    {
      for (unsigned int d = 0; d < dim; ++d)
        number(x[d]);
      return *this;
    }
    template <typename T>
    Archive &operator<<(const T &x)
    {
      return *this & const_cast<T &>(x);
    }
    template <typename T>
    Archive &operator>>(T &x)
    {
      return *this & x;
    }
  };
  namespace boost
  {
    namespace archive
    {
      struct binary_oarchive : public Archive
      {
        binary_oarchive(const std::hv_file &f)
        {
          name = f.name;
          disk->numbers[name].clear();
        }
      };
      struct binary_iarchive : public Archive
      {
        binary_iarchive(const std::hv_file &f)
        {
          name    = f.name;
          loading = true;
        }
      };
    } // namespace archive
  }   // namespace boost
  template <int dim, typename V>
  struct SolutionTransfer
  {
    template <typename D>
    SolutionTransfer(const D &)
    {}
    template <typename W>
    void prepare_for_serialization(const W &w)
    {
      for (const auto &x : w)
        disk->attached.push_back(x->value);
    }
    template <typename W>
    void deserialize(const W &w)
    {
      hv_check(w.size() == disk->attached.size(), "as many fields are read as have been written");
      for (unsigned int i = 0; i < disk->attached.size() && i < w.size(); ++i)
        w[i]->value = disk->attached[i];
    }
  };
  namespace parallel
  {
    namespace distributed
    {
      template <int dim, typename V>
      struct SolutionSerialization
      {
        std::vector<const V *> w;
        template <typename D>
        SolutionSerialization(const D &)
        {}
        template <typename W>
        void add_vectors(const W &v)
        {
          for (const auto &x : v)
            w.push_back(x);
        }
        void save(const std::string &name)
        {
          auto &f = disk->fields[name];
          f.clear();
          for (const auto &x : w)
            f.push_back(x->value);
        }
        void load(const std::string &name)
        {
          const auto &f = disk->fields[name];
          hv_check(w.size() <= f.size(), "no more fields are read than have been written");
          for (unsigned int i = 0; i < f.size() && i < w.size(); ++i)
            const_cast<V *>(w[i])->value = f[i];
        }
      };
    } // namespace distributed
  }   // namespace parallel

#include "free.inc"

  template <int dim, typename Number = double, typename VectorizedArrayType = double>
  struct Problem
  {
    using VectorType        = Vec;
    using NonLinearOperator = hvd::NonLinearOperator;
#include "members.inc"
    ::Sintering::Parameters params;
    Out         pcout, pcout_statistics;
    Tria        tria;
    DoFHandler  dof_handler;
    Constraints constraints;
    MatrixFree  matrix_free;

    // of Problem::run
    SinteringData                        sintering_data;
    std::unique_ptr<::TimeIntegration::SolutionHistory<Vec>> history;
    NewtonSolverSolverControl            statistics;
    GrainTracker::Tracker<dim, Number>   grain_tracker;
    int                                  fe = 0;
    enum class InitialMesh
    {
      Interface,
      MaxRadius,
      Divisions
    };
    enum class InitialRefine
    {
      None,
      Base,
      Full
    };
    void create_grid(InitialMesh, InitialRefine) {}
    void initialize() {}
    bool                                 grain_tracker_required_for_ebc    = false;
    bool                                 grain_tracker_required_for_output = false;

    template <typename... A>
    void output_result(const Vec &, const NonLinearOperator &, GrainTracker::Tracker<dim, Number> &, const Advection &, const NewtonSolverSolverControl &,
                       const double t, Timer &, const std::string label = "solution", A &&...)
    {
      world->output(label, t);
    }

    Problem()
    {
      // a new environment, unless this is a restart
      world = new World;
      if (!disk)
        disk = new Disk;
      geometry_r_max = geometry_interface_width = 0;
      n_global_levels_0                         = 1;
      current_max_refinement_depth              = 0;
      current_min_mesh_quality                  = 0;
      time_last_output                          = 0;
      n_timestep = n_timestep_last_amr = n_timestep_last_gt = 0;
      n_linear_iterations = n_non_linear_iterations = n_residual_evaluations = 0;
      n_failed_tries = n_failed_linear_iterations = n_failed_non_linear_iterations = n_failed_residual_evaluations = 0;
      max_reached_dt                                                                                               = 0;
      restart_counter                                                                                              = 0;
      t                                                                                                            = 0;
    }
    void start(const ::TimeIntegration::TimeIntegratorData<double> &time_data)
    {
      sintering_data.time_data = time_data;
      history                  = std::make_unique<::TimeIntegration::SolutionHistory<Vec>>(std::max(sintering_data.time_data.get_order() + 1, 2U));
    }
    // the end of the constructor which restarts a run
    template <typename S, typename T>
    void run(const unsigned int n, const ::TimeIntegration::TimeIntegratorData<double> &time_data, const S &initialize_solution, const T &initialize_grain_tracker)
    {
      start(time_data);
      sintering_data.set_n_components(n);
      auto &solution_history = *history;
      Timer timer;
#include "init.inc"
      initialize_grain_tracker(grain_tracker, [this](bool init) { world->track(t, init); });
      loop();
    }
    void restart(const std::string &restart_path)
    {
#include "restart.inc"
    }
    void loop()
    {
      auto                       &solution_history = *history;
      Vec                        &solution         = solution_history.get_current_solution();
      NonLinearOperator           nonlinear_operator;
      auto                        preconditioner = std::make_unique<Preconditioner>();
      auto                        time_marching  = std::make_unique<Marching>();
      auto                        postproc_preconditioner = std::make_unique<Preconditioner>();
      auto                        postproc_linear_solver  = std::make_unique<Postproc>();
      Postproc                    postproc_operator;
      Vec                         postproc_lhs, postproc_rhs;
      Cfl                         cfl_checker;
      Advection                   advection_mechanism;
      auto                        advection_operator = std::make_shared<Advection>();
      Timer                       timer;
      RestartPredicate            restart_predicate;
      std::function<void(double)> additional_output;
      bool                        system_has_changed = true;
      const bool                  save_op_gradients = false, save_all_blocks = false;
      const auto                  execute_coarsening_and_refinement = [](const double t, const double, const double) { world->refine(t); };
      const auto run_grain_tracker          = [](const double t, const bool init = false) { world->track(t, init); };
      const auto impose_boundary_conditions = [](const double t) { world->supports(t); };
#include "loop.inc"
    }
  };
} // namespace hvd
