// The linearised sintering operator is the derivative of the residual (scalar mobility).
// hv: flags -fno-access-control
// hv: assume doubles are reals
// hv: assume deal.II vectors, matrix-free loops and cell evaluation behave as the stand-ins of hv_fem.h
// hv: assume the linearisation point is inside 0 < c < 1 (the flux clips its interpolation outside it)
// hv: bound one or two cells, two integration points, up to 4 grains (template parameter)

#define HV_ANY_ACTIVITY
#include <hv_jacobian.h>

HV_SPEC(jacobian_2d)
{
  tangent<2>(hv_pick("n", 1, 4), {});
}
HV_SPEC(jacobian_3d)
{
  tangent<3>(hv_pick("n", 1, 2), {});
}
HV_SPEC(jacobian_advection_2d)
{
  tangent<2>(hv_pick("n", 1, 3), {.advection = true, .cells = 2});
}
HV_SPEC(jacobian_advection_3d)
{
  tangent<3>(hv_pick("n", 1, 2), {.advection = true});
}
HV_SPEC(jacobian_cut_off_2d)
{
  tangent<2>(hv_pick("n", 1, 2), {.cut_off = true, .cells = 2});
}
HV_SPEC(jacobian_cut_off_advection_2d)
{
  tangent<2>(2, {.advection = true, .cut_off = true});
}
HV_SPEC(residual_2d)
{
  residual<2>(hv_pick("n", 1, 4), {});
}
HV_SPEC(residual_3d)
{
  residual<3>(hv_pick("n", 1, 2), {});
}
HV_SPEC(residual_cut_off_2d)
{
  residual<2>(hv_pick("n", 1, 2), {.cut_off = true, .cells = 2});
}
HV_SPEC(residual_advection_2d)
{
  residual<2>(hv_pick("n", 1, 3), {.advection = true});
}
HV_SPEC(residual_advection_3d)
{
  residual<3>(hv_pick("n", 1, 2), {.advection = true});
}
HV_SPEC(residual_cut_off_advection_2d)
{
  residual<2>(hv_pick("n", 1, 3), {.advection = true, .cut_off = true});
}
