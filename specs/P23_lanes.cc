// Activity tables over cell batches of several SIMD lanes, the last batch partially filled.
// hv: flags -fno-access-control
// hv: assume doubles are reals
// hv: assume deal.II vectors, matrix-free loops, cell evaluation and SIMD registers behave as the stand-ins of hv_fem.h and hv_lanes.h
// hv: bound up to four cells in batches of two lanes, one integration point, up to 2 order parameters

#define HV_LANES 2
#define HV_NQ 1
#include <hv_tables.h>

HV_SPEC(tables_one_grain)
{
  tables<2>(1, {.cells = 3});
}
HV_SPEC(tables_two_grains)
{
  tables<2>(2, {.cells = 1 + (unsigned int)hv_pick("cells", 0, 1), .op_grads = true});
}
HV_SPEC(tables_all_blocks)
{
  tables<2>(1, {.cells = 3, .all = true, .op_grads = true});
}
