// Matrices assembled from an operator multiply vectors as the operator does.
// hv: flags -fno-access-control
// hv: assume doubles are reals
// hv: assume deal.II vectors, matrix-free loops, cell evaluation and matrices behave as the stand-ins of hv_fem.h and hv_matrix.h
// hv: bound two cells of three unknowns (one shared with the next cell), one integration point, 1 to 3 components; the coefficients of the operator are fixed up to an arbitrary factor per cell
#include <hv_assembly.h>
HV_SPEC(system_matrix) { assembled_system_matrix(); }
HV_SPEC(more_components) { assembled_more_components(); }
HV_SPEC(matrix_free) { assembled_matrix_free(); }
HV_SPEC(small_entries) { assembled_small_entries(); }
HV_SPEC(block_matrices) { assembled_block_matrices(); }
HV_SPEC(inverse_diagonal) { assembled_inverse_diagonal(); }
