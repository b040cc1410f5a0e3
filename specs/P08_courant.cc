// The time step is accepted iff no grain moves further than the diameter of a cell it is in.
// hv: flags -fno-access-control
// hv: assume doubles are reals
// hv: assume deal.II vectors, matrix-free loops, cell evaluation and SIMD registers behave as the stand-ins of hv_fem.h and hv_lanes.h
// hv: assume velocities of the cell data are as proved in P08_lanes
// hv: assume the minimum over the processes is the own value or that of an arbitrary other process
// hv: bound three cells in batches of two lanes, one integration point, 1 or 2 order parameters

#define HV_LANES 2
#define HV_NQ 1
#include <hv_advection.h>
#include <pf-applications/sintering/cfl_checker.h>
static unsigned int other;
namespace dealii
{
  namespace Utilities
  {
    namespace MPI
    {
      template <>
      unsigned int min(const unsigned int &t, const MPI_Comm) { return t < other ? t : other; }
    } // namespace MPI
  } // namespace Utilities
} // namespace dealii

static void
courant(const int n, const unsigned int cells)
{
  Setup<2> s(n, {.cells = cells});
  AdvectionOperatorGeneric<2, double, VA> op(s.k, s.cgb, s.ceq, s.smooth, s.mf, s.data, s.tracker, s.adv);
  op.evaluate_forces(s.u);
  for (unsigned int i = 0; i < s.tracker.n_segments(); ++i)
    {
      double *g = s.adv.grain_data(i);
      g[0]      = 1;
      for (int d = 1; d < 4; ++d)
        g[d] = hv_real("force", -1, 1);
    }
  hv::diameters.clear();
  for (unsigned int c = 0; c < cells; ++c)
    {
      hv::diameters.push_back(hv_real("diameter", 0.2, 2));
      hv_assume(hv::diameters.back() > 0);
    }
  const double dt = hv_real("dt", 0.1, 1);
  hv_assume(dt > 0);
  other = hv_pick("other", 0, 1);
  CFLChecker<2, double, VA> checker(s.mf, s.data, s.adv);
  bool                      rejected = false;
  try
    {
      checker.check_courant(dt);
    }
  catch (const std::exception &)
    {
      rejected = true;
    }
  hv_check(rejected, "diameters must have been computed");
  checker.precompute_cell_diameters();
  bool expected = true;
  for (unsigned int b = 0; b < s.mf.n_cell_batches(); ++b)
    {
      AdvectionVelocityData<2, double, VA> vel(b, s.adv, s.data);
      FECellIntegrator<2, 1, double, VA>   phi(s.mf);
      phi.reinit(b);
      for (int op = 0; op < n; ++op)
        if (vel.has_velocity(op))
          for (unsigned int l = 0; l < s.mf.n_active_entries_per_cell_batch(b); ++l)
            if (s.valid(op, b * HV_LANES + l))
              {
                const auto   v      = vel.get_velocity(op, phi.quadrature_point(0));
                const double length = std::sqrt(v[0][l] * v[0][l] + v[1][l] * v[1][l]);
                expected            = expected & (length * dt < hv::diameters[b * HV_LANES + l]);
              }
    }
  const bool accepted = checker.check_courant(dt);
  hv_check(accepted == (expected & (other == 1)), "accepted iff grains stay within the cells on every process");
  hv_cover(accepted ? "accepted" : "rejected");
}
HV_SPEC(courant_one)
{
  courant(1, 3);
}
HV_SPEC(courant_two)
{
  courant(2, 2);
}
