// The linearised sintering operator is the derivative of the residual (tensorial mobility, grain boundary normals fixed).
// hv: flags -fno-access-control
// hv: assume doubles are reals
// hv: assume deal.II vectors, matrix-free loops and cell evaluation behave as the stand-ins of hv_fem.h
// hv: assume 0 < c < 1, away from the regularisation thresholds of the surface term (|grad c| >= 1e-4, surface mobility >= 1e-6)
// hv: bound one cell, two integration points, up to 2 grains

#define HV_ANY_ACTIVITY
#define WITH_TENSORIAL_MOBILITY
#define MAX_SINTERING_GRAINS 2
#include <hv_jacobian.h>

HV_SPEC(tensorial_jacobian_2d)
{
  tangent<2>(hv_pick("n", 1, 2), {});
}
HV_SPEC(tensorial_jacobian_advection_2d)
{
  tangent<2>(2, {.advection = true});
}
HV_SPEC(tensorial_jacobian_3d)
{
  tangent<3>(1, {});
}
HV_SPEC(tensorial_residual_2d)
{
  residual<2>(hv_pick("n", 1, 2), {});
}
