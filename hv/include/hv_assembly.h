// Contracts of assembled matrices: see P31_assembly.cc and P31_lanes.cc.
#pragma once
#define HV_MATRICES
#define HV_PARTITIONER
#ifndef MAX_COMPONENTS
#  define MAX_COMPONENTS 3
#endif
#define HV_NQ 1
// neighbouring cells share an unknown
#define HV_INDEX(cell, i, dofs) ((cell) * ((dofs) - 1) + (i))
#include <hv_matrix.h>
#define MAX_SINTERING_GRAINS 4
#include <pf-applications/lac/dynamic_block_vector.h>
#include <pf-applications/sintering/operator_base.h>
using namespace dealii;
using namespace Sintering;
using VA  = VectorizedArray<double, HV_LANES>;
using BV  = LinearAlgebra::distributed::DynamicBlockVector<double>;
using Flat = LinearAlgebra::distributed::Vector<double>;
static void draw(BV &v, const MatrixFree<2, double, VA> &mf, unsigned int n, const char *name, double lo, double hi)
{
  v.reinit(n);
  for (unsigned int b = 0; b < n; ++b)
    {
      mf.initialize_dof_vector(v.block(b));
      for (auto &x : v.block(b).v)
        x = hv_real(name, lo, hi);
    }
}
static void zero(BV &v, const MatrixFree<2, double, VA> &mf, unsigned int n)
{
  v.reinit(n);
  for (unsigned int b = 0; b < n; ++b)
    mf.initialize_dof_vector(v.block(b));
}

// value and gradient of every component contribute to those of every component
struct Dense : public OperatorBase<2, double, VA, Dense>
{
  using T               = Dense;
  using BlockVectorType = BV;
  unsigned int              n;
  std::vector<double>       scale;            // per cell
  std::vector<unsigned int> held;             // unknowns held in the matrix of the system
  bool                      zero_diagonal = false;
  mutable unsigned int      after = 0;
  double                    small = 1e-9;
  Dense(const MatrixFree<2, double, VA> &mf, const AffineConstraints<double> &ac, unsigned int n, bool matrix_based)
    : OperatorBase<2, double, VA, T>(mf, ac, 0, "dense", matrix_based)
    , n(n)
  {
    for (unsigned int c = 0; c < mf.cells; ++c)
      scale.push_back(hv_real("scale", 0.5, 2));
    for (const double s : scale)
      hv_assume(s > 0);
  }
  unsigned int n_components() const override { return n; }
  void add_matrix_constraints(const HvDoFHandler<2> &d, AffineConstraints<double> &c) const override
  {
    hv_check_ieq(d.comps, n, "constraints are for all components");
    hv_check(c.hanging, "hanging nodes come first");
    for (const auto i : held)
      c.lines.push_back(i);
  }
  void   post_system_matrix_compute() const override { ++after; }
  double entry(unsigned int i, unsigned int k, unsigned int j, unsigned int l) const
  {
    if (zero_diagonal && i == j && k == l)
      return 0;
    if (i == 0 && j == 0 && k == 1 && l == 0)
      return small;
    return (1. + (5 * (i * 3 + k) + 11 * (j * 3 + l)) % 13) / ((i * 3 + k) % 2 ? -4 : 8) + (i == j && k == l ? 3 : 0);
  }
  template <int n_comp, int n_grains, typename FE>
  void do_vmult_kernel(FE &phi) const
  {
    VA s;
    for (unsigned int l = 0; l < HV_LANES; ++l)
      s[l] = phi.get_current_cell_index() * HV_LANES + l < scale.size() ? scale[phi.get_current_cell_index() * HV_LANES + l] : 0.;
    const auto in = [&](unsigned int i, unsigned int k) -> VA {
      if constexpr (n_comp == 1)
        return k == 0 ? phi.get_value(0) : phi.get_gradient(0)[k - 1];
      else
        return k == 0 ? phi.get_value(0)[i] : phi.get_gradient(0)[i][k - 1];
    };
    typename FE::value_type    v;
    typename FE::gradient_type g;
    for (unsigned int i = 0; i < n_comp; ++i)
      for (unsigned int k = 0; k < 3; ++k)
        {
          VA r = 0.;
          for (unsigned int j = 0; j < n_comp; ++j)
            for (unsigned int l = 0; l < 3; ++l)
              r += entry(i, k, j, l) * in(j, l);
          r *= s;
          if constexpr (n_comp == 1)
            {
              if (k == 0)
                v = r;
              else
                g[k - 1] = r;
            }
          else if (k == 0)
            v[i] = r;
          else
            g[i][k - 1] = r;
        }
    phi.submit_value(v, 0);
    phi.submit_gradient(g, 0);
  }
};
static void prepare(const MatrixFree<2, double, VA> &mf, unsigned int n, AffineConstraints<double> &ac)
{
  ac.close();
  TrilinosWrappers::HvSparseMatrix::unknowns         = mf.get_vector_partitioner()->n;
  Flat::partitioned_size                              = n * mf.get_vector_partitioner()->n;
  hv::offset                                         = hv_bool("more processes") ? 7 : 0;
}
static unsigned int number_of_cells() { return HV_LANES == 1 ? 2 : 3; }

// system matrix: unknowns of all components of a point are neighbours
static void compare(const Dense &op, const Dense &free, const MatrixFree<2, double, VA> &mf, unsigned int n)
{
  BV v, d, e;
  draw(v, mf, n, "v", -1, 1);
  draw(d, mf, n, "garbage", -1, 1);
  draw(e, mf, n, "garbage", -1, 1);
  op.vmult(d, v);
  free.vmult(e, v);
  const unsigned int m = v.block(0).size();
  Flat                x(n * m), y(n * m);
  for (unsigned int i = 0; i < m; ++i)
    for (unsigned int b = 0; b < n; ++b)
      {
        x(i * n + b) = v.block(b)(i);
        y(i * n + b) = hv_real("garbage", -1, 1);
      }
  op.vmult(y, x);
  for (unsigned int b = 0; b < n; ++b)
    for (unsigned int i = 0; i < m; ++i)
      {
        hv_check_eq(d.block(b)(i), e.block(b)(i), "system matrix multiplies as the operator");
        hv_check_eq(y(i * n + b), e.block(b)(i), "system matrix multiplies as the operator, one vector");
      }
}
static void assembled_system_matrix()
{
  const unsigned int        n = hv_pick("n", 1, 2);
  MatrixFree<2, double, VA> mf(number_of_cells());
  AffineConstraints<double> ac;
  prepare(mf, n, ac);
  Dense op(mf, ac, n, true), free(mf, ac, n, false);
  if (hv_bool("held"))
    {
      // one point is held
      mf.constrained = {1};
      for (unsigned int b = 0; b < n; ++b)
        op.held.push_back((hv::offset + 1) * n + b);
    }
  free.scale = op.scale;
  if (hv::offset == 0)
    {
      op.initialize_system_matrix(false);
      hv_check_ieq(op.after, 0, "pattern only");
      hv_check_ieq(op.get_system_matrix().m(), n * mf.get_vector_partitioner()->n, "size of the matrix");
    }
  op.do_update();
  hv_check_ieq(op.after, 1, "operators adapt the assembled matrix");
  compare(op, free, mf, n);
  // the operator has changed
  for (auto &s : op.scale)
    {
      s = hv_real("scale", 0.5, 2);
      hv_assume(s > 0);
    }
  free.scale = op.scale;
  op.do_update();
  hv_check_ieq(op.after, 2, "operators adapt the assembled matrix again");
  compare(op, free, mf, n);
  hv_cover("end");
}
// the number of components has changed
static void assembled_more_components()
{
  MatrixFree<2, double, VA> mf(number_of_cells());
  AffineConstraints<double> ac;
  prepare(mf, 1, ac);
  Dense op(mf, ac, 1, true), free(mf, ac, 1, false);
  free.scale = op.scale;
  op.do_update();
  compare(op, free, mf, 1);
  op.initialize_block_system_matrix();
  if (hv_bool("clear all"))
    op.clear();
  else
    op.clear_system_matrix();
  op.n = free.n         = 2;
  Flat::partitioned_size = 2 * mf.get_vector_partitioner()->n;
  op.do_update();
  compare(op, free, mf, 2);
  op.initialize_block_system_matrix();
  hv_check_ieq(op.get_block_system_matrix().size(), 2, "one matrix per component");
  hv_cover("end");
}
// an operator which is applied without matrix does not assemble one
static void assembled_matrix_free()
{
  MatrixFree<2, double, VA> mf(1);
  AffineConstraints<double> ac;
  prepare(mf, 2, ac);
  Dense op(mf, ac, 2, false);
  op.do_update();
  hv_check_ieq(op.get_system_matrix().m(), 0, "no matrix");
  hv_cover("end");
}
// entries which are not noise are kept as they are
static void assembled_small_entries()
{
  MatrixFree<2, double, VA> mf(1);
  AffineConstraints<double> ac;
  prepare(mf, 2, ac);
  Dense op(mf, ac, 2, true);
  op.small = 1e-14;
  op.do_update();
  for (unsigned int b = 0; b < 2; ++b)
    for (unsigned int k = 0; k < 3; ++k)
      for (unsigned int c = 0; c < 2; ++c)
        for (unsigned int l = 0; l < 3; ++l)
          {
            const double a = op.system_matrix.a[2 * k + b][2 * l + c], e = op.scale[0] * op.entry(b, k, c, l);
            if (op.entry(b, k, c, l) != op.small)
              hv_check_eq(a, e, "entries of the matrix");
            else
              {
                hv_check(a <= e, "noise is dropped at most");
                hv_check(a >= 0, "noise does not grow");
              }
          }
  hv_cover("end");
}

static void assembled_block_matrices()
{
  const unsigned int        n = hv_pick("n", 1, MAX_COMPONENTS);
  MatrixFree<2, double, VA> mf(number_of_cells());
  AffineConstraints<double> ac;
  prepare(mf, n, ac);
  Dense op(mf, ac, n, false);
  if (hv_bool("held"))
    {
      mf.constrained = {1};
      ac.lines.push_back(hv::offset + 1);
    }
  if (hv::offset == 0)
    op.initialize_block_system_matrix(false);
  for (int pass = 0; pass < 2; ++pass)
    {
      op.initialize_block_system_matrix();
      const auto &blocks = op.get_block_system_matrix();
      hv_check_ieq(blocks.size(), n, "one matrix per component");
      for (unsigned int b = 0; b < n; ++b)
        {
          BV v, e;
          draw(v, mf, n, "v", -1, 1);
          draw(e, mf, n, "garbage", -1, 1);
          for (unsigned int c = 0; c < n; ++c)
            if (c != b)
              v.block(c) = 0.;
          op.vmult(e, v);
          Flat d(v.block(b).size());
          blocks[b]->vmult(d, v.block(b));
          for (unsigned int i = 0; i < d.size(); ++i)
            hv_check_eq(d(i), e.block(b)(i), "matrix of a component multiplies as the operator on it");
        }
      for (auto &s : op.scale)
        {
          s = hv_real("scale", 0.5, 2);
          hv_assume(s > 0);
        }
    }
  hv_cover("end");
}

static void assembled_inverse_diagonal()
{
  const unsigned int        n = hv_pick("n", 1, MAX_COMPONENTS);
  MatrixFree<2, double, VA> mf(number_of_cells());
  AffineConstraints<double> ac;
  prepare(mf, n, ac);
  Dense op(mf, ac, n, false);
  op.zero_diagonal = hv_bool("zero");
  if (hv_bool("held"))
    mf.constrained = {1};
  for (const double s : op.scale)
    hv_assume(s > 0.01);
  BV d;
  op.compute_inverse_diagonal(d);
  hv_check_ieq(d.n_blocks(), n, "one block per component");
  for (unsigned int b = 0; b < n; ++b)
    for (unsigned int i = 0; i < d.block(b).size(); ++i)
      {
        BV v, e;
        zero(v, mf, n);
        zero(e, mf, n);
        v.block(b)(i) = 1;
        op.vmult(e, v);
        if (op.zero_diagonal)
          hv_check_eq(d.block(b)(i), 1, "a vanishing entry is replaced by one");
        else
          hv_check_eq(d.block(b)(i) * e.block(b)(i), 1, "inverse of the diagonal entry");
      }
  if (n == 1)
    {
      Flat x;
      op.compute_inverse_diagonal(x);
      for (unsigned int i = 0; i < x.size(); ++i)
        hv_check_eq(x(i), d.block(0)(i), "one vector");
    }
  hv_cover("end");
}
