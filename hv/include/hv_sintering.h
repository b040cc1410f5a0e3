// common set-up of the sintering operator over the stand-in finite element (hv_fem.h)
#pragma once
#include <hv_dealii.h>
#include <hv_fem.h>
#include <memory>
#include <map>
#include <string>
#include <variant>
#ifndef MAX_SINTERING_GRAINS
#  define MAX_SINTERING_GRAINS 4
#endif
#include <pf-applications/sintering/operator_sintering_generic.h>
#include <hv.h>

namespace hvs
{
  using namespace dealii;
  using namespace Sintering;
  using VA = VectorizedArray<double, HV_LANES>;
  using BV = LinearAlgebra::distributed::DynamicBlockVector<double>;

  struct Fixed : public MobilityProvider
  {
    MobilityCoefficients m;
    MobilityCoefficients
    calculate(const double) const override
    {
      return m;
    }
  };

  inline std::shared_ptr<MobilityProvider>
  provider()
  {
    auto p     = std::make_shared<Fixed>();
    p->m.Mvol  = hv_real("Mvol", 0.01, 2);
    p->m.Mvap  = hv_real("Mvap", 0.01, 2);
    p->m.Msurf = hv_real("Msurf", 0.5, 5);
    p->m.Mgb   = hv_real("Mgb", 0.1, 3);
    p->m.L     = hv_real("L", 0.1, 3);
    return p;
  }

  // fills every entry of every block with an arbitrary real
  template <int dim>
  void
  draw(BV &v, const MatrixFree<dim, double, VA> &mf, unsigned int n_blocks, const char *name, double lo, double hi)
  {
    v.reinit(n_blocks);
    for (unsigned int b = 0; b < n_blocks; ++b)
      {
        mf.initialize_dof_vector(v.block(b));
        for (auto &x : v.block(b).v)
          x = hv_real(name, lo, hi);
      }
  }
  template <int dim>
  void
  zero(BV &v, const MatrixFree<dim, double, VA> &mf, unsigned int n_blocks)
  {
    v.reinit(n_blocks);
    for (unsigned int b = 0; b < n_blocks; ++b)
      mf.initialize_dof_vector(v.block(b));
  }

  // time data of the given order with arbitrary weights
  inline TimeIntegration::TimeIntegratorData<double>
  time_data(unsigned int order)
  {
    TimeIntegration::TimeIntegratorData<double> t;
    t.order = order;
    t.dt.assign(order, 1.0);
    t.weights.resize(order + 1);
    for (auto &w : t.weights)
      w = hv_real("weight", -2, 2);
    return t;
  }
} // namespace hvs

// out-of-line deal.II members the operator's constructor needs: they hold no state the properties depend on
namespace dealii
{
  namespace TrilinosWrappers
  {
    SparsityPattern::SparsityPattern() {}
    SparseMatrix::SparseMatrix() {}
  } // namespace TrilinosWrappers
  ConditionalOStream::ConditionalOStream(std::ostream &s, const bool)
    : output_stream(s)
    , active_flag(false)
  {}
  namespace Utilities
  {
    namespace MPI
    {
      unsigned int this_mpi_process(const MPI_Comm) { return 0; }
      unsigned int n_mpi_processes(const MPI_Comm) { return 1; }
    } // namespace MPI
  } // namespace Utilities
} // namespace dealii
namespace dealii
{
  namespace Utilities
  {
    namespace MPI
    {
      template <>
      unsigned int max(const unsigned int &t, const MPI_Comm) { return t; }
      template <>
      void sum(const std::vector<unsigned int> &t, const MPI_Comm, std::vector<unsigned int> &r) { r = t; }
    } // namespace MPI
  } // namespace Utilities
} // namespace dealii
namespace dealii
{
  template <>
  void
  Vector<double>::reinit(const size_type n, const bool omit_zeroing_entries)
  {
    values.resize(0);
    values.resize(n, 0.);
    (void)omit_zeroing_entries;
  }
  template <>
  double
  Vector<double>::linfty_norm() const
  {
#if defined(HV_ACTIVITY)
    // a few patterns of activity over cells and order parameters
    static unsigned int calls = 0;
    return HV_ACTIVITY(calls++);
#elif defined(HV_ANY_ACTIVITY)
    // any order parameter may be active in any cell, whatever its values are
    return hv_pick("active", 0, 1);
#else
    double r = 0;
    for (const double x : values)
      r = std::fmax(r, std::fabs(x));
    return r;
#endif
  }
} // namespace dealii
