// The advection operators over cell batches of several SIMD lanes, the last batch partially filled.
// hv: flags -fno-access-control
// hv: assume doubles are reals
// hv: assume deal.II vectors, matrix-free loops, cell evaluation and SIMD registers behave as the stand-ins of hv_fem.h and hv_lanes.h
// hv: assume one process (MPI_Allreduce of the sums is the identity)
// hv: bound five cells in batches of three lanes, one integration point, 2 order parameters

#define HV_LANES 3
#define HV_NQ 1
// two order parameters in five cells
static int pattern = 0;
#define HV_ACTIVITY(k) (k) % 2 == 0 ? int((k) % 10 / 2) >= pattern : int((k) % 10 / 2 + pattern) % 2
#include <hv_advection.h>

HV_SPEC(lanes_forces_2d)
{
  generic<2>(2, {.cells = 5});
}
HV_SPEC(lanes_forces_3d)
{
  generic<3>(2, {.threshold = true, .cells = 4});
}
HV_SPEC(lanes_forces_cut_off_2d)
{
  pattern = hv_pick("pattern", 0, 4);
  generic<2>(2, {.cut_off = true, .smoothening = true, .cells = 5});
}
HV_SPEC(lanes_weighted_2d)
{
  weighted<2>(2, {.cells = 4});
}
HV_SPEC(lanes_weighted_cut_off_2d)
{
  pattern = hv_pick("pattern", 0, 4);
  weighted<2>(2, {.cut_off = true, .smoothening = true, .cells = 5});
}
