// Matrices assembled from an operator multiply vectors as the operator does: batches of two cells, the last one half filled.
// hv: flags -fno-access-control
// hv: assume doubles are reals
// hv: assume deal.II vectors, matrix-free loops, cell evaluation, matrices and SIMD registers behave as the stand-ins of hv_fem.h, hv_lanes.h and hv_matrix.h
// hv: bound three cells of three unknowns (one shared with the next cell), one integration point, 1 to 2 components; the coefficients of the operator are fixed up to an arbitrary factor per cell
#define HV_LANES 2
#define MAX_COMPONENTS 2
#include <hv_assembly.h>
HV_SPEC(lanes_system_matrix) { assembled_system_matrix(); }
HV_SPEC(lanes_block_matrices) { assembled_block_matrices(); }
HV_SPEC(lanes_inverse_diagonal) { assembled_inverse_diagonal(); }
