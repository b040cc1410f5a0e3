// The sintering operator over cell batches of several SIMD lanes, the last batch partially filled.
// hv: flags -fno-access-control
// hv: assume doubles are reals
// hv: assume deal.II vectors, matrix-free loops, cell evaluation and SIMD registers behave as the stand-ins of hv_fem.h and hv_lanes.h
// hv: assume the linearisation point is inside 0 < c < 1 (the flux clips its interpolation outside it)
// hv: bound four cells in batches of three lanes, one integration point, 2 grains, four patterns of activity

#define HV_LANES 3
#define HV_NQ 1
// two order parameters in four cells
static int pattern = 0;
#define HV_ACTIVITY(k) (k) % 2 == 0 ? int((k) % 8 / 2) == pattern : int((k) % 8 / 2 + pattern) % 2
#include <hv_jacobian.h>

HV_SPEC(jacobian_2d)
{
  tangent<2>(2, {.cells = 4});
}
HV_SPEC(jacobian_advection_2d)
{
  tangent<2>(2, {.advection = true, .cells = 4});
}
HV_SPEC(jacobian_cut_off_advection_2d)
{
  pattern = hv_pick("pattern", 0, 3);
  tangent<2>(2, {.advection = true, .cut_off = true, .cells = 4});
}
HV_SPEC(residual_advection_2d)
{
  residual<2>(2, {.advection = true, .cells = 4});
}
HV_SPEC(residual_cut_off_advection_2d)
{
  pattern = hv_pick("pattern", 0, 3);
  residual<2>(2, {.advection = true, .cut_off = true, .cells = 4});
}
