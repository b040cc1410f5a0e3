// the repository's message passing goes to the ghost processes of hv_mpi.h; include after all library headers
#pragma once
#include <hv_mpi.h>
#undef MPI_SUM
#undef MPI_MAX
#undef MPI_MIN
#define MPI_SUM 0
#define MPI_MAX 1
#define MPI_MIN 2
#define MPI_Exscan hv_MPI_Exscan
#define MPI_Allreduce hv_MPI_Allreduce
#define MPI_Scatterv hv_MPI_Scatterv
#define MPI_Barrier hv_MPI_Barrier
#define this_mpi_process hv_this_mpi_process
#define n_mpi_processes hv_n_mpi_processes
#define gather hv_gather
#define all_gather hv_all_gather
#define selector hv_selector
