// The grain tracker over the stand-in mesh: cell identities are plain indices.
// The real Tracker is constructed; only the mesh and DoF handler references are placeholders that
// the verified members never dereference.
#pragma once
#include <hv_dealii.h>
#include <hv_fem.h>
#include <pf-applications/grain_tracker/tracker.h>
#include <hv.h>

#undef MPI_Allreduce // PETSc wraps it to count calls
extern "C" int
MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm)
{
  return 0; // one process
}

namespace hvt
{
  using namespace dealii;
  using namespace GrainTracker;
  alignas(64) static char placeholder[64];

  template <int dim>
  Tracker<dim, double>
  make(bool allow_new = true, bool greedy = false, bool fast = false, unsigned int max_op = 100, double threshold_new = 0.02)
  {
    return Tracker<dim, double>(*reinterpret_cast<const DoFHandler<dim> *>(placeholder),
                                *reinterpret_cast<const parallel::TriangulationBase<dim> *>(placeholder),
                                greedy, allow_new, fast, max_op, GrainRepresentation::spherical, 0.01, threshold_new,
                                0.05, 0.0, 2, false, false, false);
  }

  template <int dim>
  Point<dim>
  point(const char *name, double lo, double hi)
  {
    Point<dim> p;
    for (int d = 0; d < dim; ++d)
      p[d] = hv_real(name, lo, hi);
    return p;
  }
} // namespace hvt
