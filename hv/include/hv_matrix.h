// Stand-ins (assumed contracts) for the Trilinos matrices, and what deal.II does to set them up.
//
// A matrix is the table of its entries; it has the size of its sparsity pattern, which is that of the
// unknowns of all components.  Assembling a cell matrix adds its entries, except in the rows and columns of
// unknowns held by the given constraints, where the diagonal is one.
#pragma once
#ifndef HV_MATRICES
#  error HV_MATRICES selects the numbering of hv_fem.h
#endif
#include <hv_dealii.h>
#include <hv_fem.h>
#include <deal.II/base/array_view.h>
#include <deal.II/base/bounding_box.h>
#include <deal.II/base/conditional_ostream.h>
#include <deal.II/base/exceptions.h>
#include <deal.II/base/function.h>
#include <deal.II/base/geometric_utilities.h>
#include <deal.II/base/geometry_info.h>
#include <deal.II/base/mg_level_object.h>
#include <deal.II/base/mpi.h>
#include <deal.II/base/mpi_consensus_algorithms.h>
#include <deal.II/base/mpi_large_count.h>
#include <deal.II/base/mpi_remote_point_evaluation.h>
#include <deal.II/base/parameter_handler.h>
#include <deal.II/base/partitioner.h>
#include <deal.II/base/point.h>
#include <deal.II/base/quadrature_lib.h>
#include <deal.II/base/subscriptor.h>
#include <deal.II/base/table_handler.h>
#include <deal.II/base/template_constraints.h>
#include <deal.II/base/tensor.h>
#include <deal.II/base/timer.h>
#include <deal.II/base/utilities.h>
#include <deal.II/base/vectorization.h>
#include <deal.II/distributed/grid_refinement.h>
#include <deal.II/distributed/tria.h>
#include <deal.II/dofs/dof_handler.h>
#include <deal.II/dofs/dof_tools.h>
#include <deal.II/fe/component_mask.h>
#include <deal.II/fe/fe_dgq.h>
#include <deal.II/fe/fe_q.h>
#include <deal.II/fe/fe_q_iso_q1.h>
#include <deal.II/fe/fe_system.h>
#include <deal.II/fe/mapping_q.h>
#include <deal.II/grid/filtered_iterator.h>
#include <deal.II/grid/grid_generator.h>
#include <deal.II/grid/grid_tools.h>
#include <deal.II/grid/tria_accessor.h>
#include <deal.II/lac/affine_constraints.h>
#include <deal.II/lac/block_indices.h>
#include <deal.II/lac/block_vector_base.h>
#include <deal.II/lac/diagonal_matrix.h>
#include <deal.II/lac/dynamic_sparsity_pattern.h>
#include <deal.II/lac/full_matrix.h>
#include <deal.II/lac/full_matrix.templates.h>
#include <deal.II/lac/la_parallel_block_vector.h>
#include <deal.II/lac/la_parallel_vector.h>
#include <deal.II/lac/precondition.h>
#include <deal.II/lac/solver_bicgstab.h>
#include <deal.II/lac/solver_cg.h>
#include <deal.II/lac/solver_control.h>
#include <deal.II/lac/solver_gmres.h>
#include <deal.II/lac/solver_idr.h>
#include <deal.II/lac/sparsity_pattern.h>
#include <deal.II/lac/sparsity_tools.h>
#include <deal.II/lac/trilinos_precondition.h>
#include <deal.II/lac/trilinos_sparse_matrix.h>
#include <deal.II/lac/trilinos_sparsity_pattern.h>
#include <deal.II/lac/vector.h>
#include <deal.II/lac/vector_memory.templates.h>
#include <deal.II/lac/vector_operation.h>
#include <deal.II/matrix_free/fe_evaluation.h>
#include <deal.II/matrix_free/fe_point_evaluation.h>
#include <deal.II/matrix_free/matrix_free.h>
#include <deal.II/matrix_free/operators.h>
#include <deal.II/matrix_free/tensor_product_kernels.h>
#include <deal.II/matrix_free/tools.h>
#include <deal.II/numerics/data_out.h>
#include <deal.II/numerics/rtree.h>
#include <deal.II/numerics/vector_tools.h>
#include <deal.II/particles/data_out.h>
#include <deal.II/particles/particle_handler.h>
#include <deal.II/physics/transformations.h>
#include <memory>
#include <vector>

namespace dealii
{
  template <int dim, int spacedim = dim>
  struct HvFESystem
  {
    unsigned int comps;
    HvFESystem(const hv::Fe &, unsigned int n)
      : comps(n)
    {}
  };
  template <int dim, int spacedim = dim>
  struct HvDoFHandler
  {
    unsigned int comps = 0;
    HvDoFHandler(const hv::Cells &) {}
    void     distribute_dofs(const HvFESystem<dim> &fe) { comps = fe.comps; }
    IndexSet locally_owned_dofs() const { return {}; }
    MPI_Comm get_mpi_communicator() const { return MPI_COMM_SELF; }
  };
  namespace TrilinosWrappers
  {
    struct HvSparsityPattern
    {
      unsigned int comps = 0;
      const void  *constraints = nullptr;
      bool         compressed  = false;
      HvSparsityPattern() = default;
      HvSparsityPattern(const IndexSet &, MPI_Comm) {}
      void reinit(const IndexSet &, MPI_Comm)
      {
        comps       = 0;
        constraints = nullptr;
        compressed  = false;
      }
      void compress() { compressed = true; }
      std::size_t memory_consumption() const { return 0; }
    };
    struct HvSparseMatrix
    {
      using value_type = double;
      using Row        = std::vector<double>;
      static inline unsigned int unknowns = 0; // of one component
      std::vector<Row>           a;
      const void                *constraints = nullptr;
      bool                       compressed  = true;
      void clear()
      {
        a.clear();
        constraints = nullptr;
      }
      void reinit(const HvSparsityPattern &p)
      {
        hv_check(p.compressed, "pattern is complete before the matrix is set up");
        a.assign(p.comps * unknowns, Row(p.comps * unknowns, 0.));
        constraints = p.constraints;
      }
      std::size_t m() const { return a.size(); }
      std::size_t n() const { return a.size(); }
      std::size_t n_nonzero_elements() const { return a.size() * a.size(); }
      std::size_t memory_consumption() const { return 0; }
      HvSparseMatrix &operator=(double x)
      {
        for (auto &r : a)
          for (auto &e : r)
            e = x;
        return *this;
      }
      double &entry(std::size_t i, std::size_t j) { return a[i - hv_shift()][j - hv_shift()]; }
      std::size_t hv_shift() const { return hv::offset * (a.size() / unknowns); }
      void compress(VectorOperation::values) { compressed = true; }
      void clear_row(std::size_t i, double d)
      {
        for (auto &e : a[i - hv_shift()])
          e = 0;
        entry(i, i) = d;
      }
      template <typename V>
      void vmult(V &dst, const V &src) const
      {
        hv_check(compressed, "contributions of all cells are in the matrix");
        hv_check_ieq(src.size(), a.size(), "size of the vector");
        hv_check_ieq(dst.size(), a.size(), "size of the result");
        for (std::size_t i = 0; i < a.size(); ++i)
          {
            double s = 0;
            for (std::size_t j = 0; j < a.size(); ++j)
              s += a[i][j] * src(j);
            dst(i) = s;
          }
      }
    };
  } // namespace TrilinosWrappers
  template <typename Number = double>
  struct HvAffineConstraints
  {
    std::vector<types::global_dof_index> lines, inhomogeneous; // unknowns held, those of them with a value
    std::vector<double>                  values;
    bool                                 hanging = false, closed = false;
    void clear() { *this = HvAffineConstraints(); }
    void reinit(const IndexSet &, const IndexSet &) { clear(); }
    void close() { closed = true; }
    std::size_t memory_consumption() const { return 0; }
    bool is_constrained(types::global_dof_index i) const
    {
      for (const auto k : lines)
        if (k == i)
          return true;
      return false;
    }
    bool is_inhomogeneously_constrained(types::global_dof_index i) const
    {
      for (const auto k : inhomogeneous)
        if (k == i)
          return true;
      return false;
    }
    Number get_inhomogeneity(types::global_dof_index i) const
    {
      for (unsigned int k = 0; k < inhomogeneous.size(); ++k)
        if (inhomogeneous[k] == i)
          return values[k];
      return 0;
    }
    void
    distribute_local_to_global(const FullMatrix<double> &local, const std::vector<types::global_dof_index> &indices, TrilinosWrappers::HvSparseMatrix &matrix) const
    {
      hv_check(closed, "constraints are complete when a matrix is assembled");
      hv_check(matrix.constraints == this, "matrix has the sparsity pattern of these constraints");
      matrix.compressed = false;
      for (unsigned int i = 0; i < indices.size(); ++i)
        if (is_constrained(indices[i]))
          matrix.entry(indices[i], indices[i]) = 1;
        else
          for (unsigned int j = 0; j < indices.size(); ++j)
            if (!is_constrained(indices[j]))
              matrix.entry(indices[i], indices[j]) += local(i, j);
    }
  };
  namespace DoFTools
  {
    template <int dim>
    IndexSet extract_locally_relevant_dofs(const HvDoFHandler<dim> &)
    {
      return {};
    }
    template <int dim>
    void make_hanging_node_constraints(const HvDoFHandler<dim> &, HvAffineConstraints<double> &c)
    {
      c.hanging = true;
    }
    template <int dim>
    void make_sparsity_pattern(const HvDoFHandler<dim> &d, TrilinosWrappers::HvSparsityPattern &p, const HvAffineConstraints<double> &c, const hv::Quad &)
    {
      p.comps       = d.comps;
      p.constraints = &c;
    }
    inline void make_sparsity_pattern(const hv::Dofs &, TrilinosWrappers::HvSparsityPattern &p, const HvAffineConstraints<double> &c, const hv::Quad &)
    {
      p.comps       = 1;
      p.constraints = &c;
    }
  } // namespace DoFTools
  namespace MatrixFreeTools
  {
    namespace internal
    {
      template <typename M>
      const HvAffineConstraints<double> &
      create_new_affine_constraints_if_needed(const M &, const HvAffineConstraints<double> &c, std::unique_ptr<HvAffineConstraints<double>> &)
      {
        return c;
      }
    } // namespace internal
    // the diagonal of the assembled operator; the vector has the right size, held entries remain zero
    template <typename CLASS, int dim, int n_comp, typename V>
    void
    compute_diagonal(const MatrixFree<dim, double, VectorizedArray<double, HV_LANES>> &mf, V &diagonal,
                     void (CLASS::*f)(FEEvaluation<dim, -1, 0, n_comp, double, VectorizedArray<double, HV_LANES>> &) const, const CLASS *owner, const unsigned int dof_no)
    {
      hv_check_ieq(dof_no, 0, "the unknowns of the operator");
      FEEvaluation<dim, -1, 0, n_comp, double, VectorizedArray<double, HV_LANES>> phi(mf, dof_no), sum(mf, dof_no);
      for (unsigned int c = 0; c < mf.n_cell_batches(); ++c)
        {
          phi.reinit(c);
          sum.reinit(c);
          for (unsigned int i = 0; i < phi.dofs_per_cell; ++i)
            {
              for (unsigned int j = 0; j < phi.dofs_per_cell; ++j)
                phi.begin_dof_values()[j] = i == j ? 1. : 0.;
              (owner->*f)(phi);
              sum.begin_dof_values()[i] = phi.begin_dof_values()[i];
            }
          sum.distribute_local_to_global(diagonal);
        }
    }
  } // namespace MatrixFreeTools
  ConditionalOStream::ConditionalOStream(std::ostream &s, const bool)
    : output_stream(s)
    , active_flag(false)
  {}
  namespace Utilities
  {
    namespace MPI
    {
      unsigned int this_mpi_process(const MPI_Comm) { return 0; }
      unsigned int n_mpi_processes(const MPI_Comm) { return 1; }
    } // namespace MPI
  } // namespace Utilities
} // namespace dealii
#define AffineConstraints HvAffineConstraints
#define Partitioner HvPartitioner
#define SparseMatrix HvSparseMatrix
#define SparsityPattern HvSparsityPattern
#define DoFHandler HvDoFHandler
#define FESystem HvFESystem
