// Segment forces, torques, volumes and the resulting rigid body velocity.
// hv: flags -fno-access-control
// hv: assume doubles are reals
// hv: assume deal.II vectors, matrix-free loops and cell evaluation behave as the stand-ins of hv_fem.h
// hv: assume one process (MPI_Allreduce of the sums is the identity)
// hv: bound up to three cells, two integration points, 2 or 3 order parameters with one or two segments each

#define HV_ANY_ACTIVITY
#include <hv_advection.h>

HV_SPEC(forces_2d)
{
  generic<2>(hv_pick("n", 2, 3), {.cells = 3});
}
HV_SPEC(forces_3d)
{
  generic<3>(2, {.cells = 2});
}
HV_SPEC(forces_threshold_2d)
{
  generic<2>(2, {.threshold = true, .cells = 1});
}
HV_SPEC(forces_smooth_2d)
{
  generic<2>(2, {.smoothening = true, .cells = 1});
}
HV_SPEC(forces_cut_off_2d)
{
  generic<2>(2, {.cut_off = true, .cells = 2});
}
HV_SPEC(balance_2d)
{
  balance<2>({});
}
HV_SPEC(balance_3d)
{
  balance<3>({.smoothening = true});
}
HV_SPEC(weighted_2d)
{
  weighted<2>(hv_pick("n", 2, 3), {.cells = 2});
}
HV_SPEC(weighted_3d)
{
  weighted<3>(2, {.cells = 1});
}
HV_SPEC(weighted_cut_off_2d)
{
  weighted<2>(2, {.cut_off = true, .cells = 2});
}
HV_SPEC(weighted_threshold_2d)
{
  weighted<2>(2, {.threshold = true, .cells = 1});
}
