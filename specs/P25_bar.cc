// Elastic body with the linear law: residual against the weak form, operator against the residual, held displacements.
// hv: flags -fno-access-control
// hv: assume doubles are reals
// hv: assume deal.II vectors, matrix-free loops, cell evaluation and matrices behave as the stand-ins of hv_fem.h and hv_matrix.h
// hv: bound two cells which share an unknown, one integration point; held displacements are zero
#define HV_MATRICES
#define HV_PARTITIONER
#define HV_NQ 1
#define HV_INDEX(cell, i, dofs) ((cell) * ((dofs) - 1) + (i))
#include <hv_matrix.h>
#define MAX_SINTERING_GRAINS 4
#include <pf-applications/lac/dynamic_block_vector.h>
#include <pf-applications/structural/operator_elastic_linear.h>
using namespace dealii;
using namespace Structural;
using VA   = VectorizedArray<double, HV_LANES>;
using BV   = LinearAlgebra::distributed::DynamicBlockVector<double>;
using Flat = LinearAlgebra::distributed::Vector<double>;

template <int dim>
struct Body
{
  using Op = LinearElasticOperator<dim, double, VA>;
  MatrixFree<dim, double, VA>           mf;
  AffineConstraints<double>             ac;
  double                                E, nu;
  MaterialPlaneType                     type;
  std::vector<std::array<double, dim>>  load; // per cell
  std::vector<unsigned int>             held[dim];
  Body(const bool concrete)
    : mf(2)
    , E(concrete ? 3. : hv_real("E", 0.1, 5))
    , nu(concrete ? 0.25 : hv_real("nu", -0.4, 0.45))
  {
    hv_assume(E > 0);
    hv_assume(nu > -1);
    hv_assume(2 * nu < 1);
    const int t = dim == 2 ? hv_pick("type", 0, 1) : 0;
    type        = dim == 3 ? MaterialPlaneType::none : t ? MaterialPlaneType::plane_stress : MaterialPlaneType::plane_strain;
    ac.close();
    hv::offset                                 = hv_bool("more processes") ? 5 : 0;
    TrilinosWrappers::HvSparseMatrix::unknowns = mf.get_vector_partitioner()->n;
    Flat::partitioned_size                     = dim * mf.get_vector_partitioner()->n;
  }
  void draw(BV &v, const char *name) const
  {
    v.reinit(dim);
    for (unsigned int d = 0; d < dim; ++d)
      {
        mf.initialize_dof_vector(v.block(d));
        for (auto &x : v.block(d).v)
          x = hv_real(name, -1, 1);
      }
  }
  // integral of the stress of the displacements against the test function (d, i), and of the load
  double stress(const BV &u, unsigned int d, unsigned int i) const
  {
    const double mu     = E / (2 * (1 + nu));
    const double lambda = type == MaterialPlaneType::plane_stress ? E * nu / (1 - nu * nu) : E * nu / ((1 + nu) * (1 - 2 * nu));
    double       r      = 0;
    for (unsigned int c = 0; c < mf.cells; ++c)
      for (unsigned int a = 0; a < dim; ++a)
        if (i == HV_INDEX(c, 1 + a, mf.dofs))
          {
            const auto H = [&](unsigned int p, unsigned int q) { return u.block(p)(HV_INDEX(c, 1 + q, mf.dofs)); };
            double     tr = 0;
            for (unsigned int p = 0; p < dim; ++p)
              tr += H(p, p);
            r += mu * (H(d, a) + H(a, d)) + (a == d ? lambda * tr : 0);
          }
    return r;
  }
  double force(unsigned int d, unsigned int i) const
  {
    double r = 0;
    for (unsigned int c = 0; c < load.size(); ++c)
      if (i == HV_INDEX(c, 0, mf.dofs))
        r += load[c][d];
    return r;
  }
  // attaches supports: some entries in every direction
  void support(Op &op)
  {
    const unsigned int n = mf.get_vector_partitioner()->n;
    for (unsigned int d = 0; d < dim; ++d)
      {
        held[d] = {d};
        if (d == 0)
          held[d].push_back(n - 1);
        if (d + 1 == dim)
          held[d].push_back(hv_pick("support", 2, 3));
        AffineConstraints<double> s;
        for (const auto i : held[d])
          s.lines.push_back(hv::offset + i);
        s.close();
        op.attach_dirichlet_boundary_conditions(s, d);
      }
  }
  bool is_held(unsigned int d, unsigned int i) const
  {
    for (const auto k : held[d])
      if (k == i)
        return true;
    return false;
  }
};

template <int dim>
static void
residual()
{
  using Op = typename Body<dim>::Op;
  Body<dim>                            s(false);
  typename Op::ExternalLoadingCallback loading;
  if (hv_bool("load"))
    {
      for (unsigned int c = 0; c < 2; ++c)
        {
          s.load.push_back({});
          for (auto &x : s.load.back())
            x = hv_real("load", -1, 1);
        }
      loading = [&](auto &phi, const unsigned int) {
        Tensor<1, dim, VA> r;
        for (unsigned int d = 0; d < dim; ++d)
          for (unsigned int l = 0; l < HV_LANES; ++l)
            r[d][l] = s.load[(phi.get_current_cell_index() * HV_LANES + l) % 2][d];
        return r;
      };
    }
  Op op(s.mf, s.ac, false, s.E, s.nu, s.type, {}, loading);
  hv_check_ieq(op.n_components(), dim, "one component per direction");
  if (hv_bool("held"))
    {
      // only the last supports count
      for (unsigned int d = 0; d < dim; ++d)
        {
          AffineConstraints<double> other;
          other.lines = {hv::offset + 1, hv::offset + 3};
          other.close();
          op.attach_dirichlet_boundary_conditions(other, d);
        }
      s.support(op);
    }
  BV u, r;
  s.draw(u, "u");
  s.draw(r, "garbage");
  op.evaluate_nonlinear_residual(r, u);
  for (unsigned int d = 0; d < dim; ++d)
    for (unsigned int i = 0; i < u.block(d).size(); ++i)
      hv_check_eq(r.block(d)(i), s.is_held(d, i) ? 0. : s.stress(u, d, i) + s.force(d, i), "residual of an elastic body");
  hv_cover("end");
}
HV_SPEC(residual_2d) { residual<2>(); }
HV_SPEC(residual_3d) { residual<3>(); }

template <int dim>
static void
apply(const bool matrix)
{
  using Op = typename Body<dim>::Op;
  Body<dim>                        s(matrix);
  typename Op::ConstraintsCallback impose;
  if (hv_bool("fixed"))
    {
      s.mf.constrained = {3};
      impose           = [&](const auto &, auto &c) {
        for (unsigned int d = 0; d < dim; ++d)
          c.lines.push_back((hv::offset + 3) * dim + d);
      };
    }
  Op op(s.mf, s.ac, matrix, s.E, s.nu, s.type, impose);
  s.support(op);
  op.do_update();
  BV v, w, r;
  s.draw(v, "v");
  s.draw(r, "garbage");
  w.reinit(dim);
  for (unsigned int d = 0; d < dim; ++d)
    {
      w.block(d) = v.block(d);
      for (unsigned int i = 0; i < w.block(d).size(); ++i)
        if (s.is_held(d, i) || (!s.mf.constrained.empty() && i == 3))
          w.block(d)(i) = 0;
    }
  const unsigned int n = w.block(0).size();
  const auto         want = [&](unsigned int d, unsigned int i) {
    return s.is_held(d, i) ? 0. : !s.mf.constrained.empty() && i == 3 ? v.block(d)(i) : s.stress(w, d, i);
  };
  if (matrix)
    {
      Flat x(dim * n), y(dim * n);
      for (unsigned int i = 0; i < n; ++i)
        for (unsigned int d = 0; d < dim; ++d)
          {
            x(i * dim + d) = v.block(d)(i);
            y(i * dim + d) = hv_real("garbage", -1, 1);
          }
      op.vmult(y, x);
      for (unsigned int i = 0; i < n; ++i)
        for (unsigned int d = 0; d < dim; ++d)
          hv_check_eq(y(i * dim + d), want(d, i), "operator of an elastic body, one vector");
      // preconditioners are made from the matrix
      for (unsigned int d = 0; d < dim; ++d)
        for (const auto i : s.held[d])
          for (unsigned int j = 0; j < dim * n; ++j)
            hv_check_eq(op.get_system_matrix().a[i * dim + d][j], j == i * dim + d ? 1. : 0., "held unknowns are decoupled in the matrix");
    }
  BV v0 = v;
  op.vmult(r, v0);
  for (unsigned int d = 0; d < dim; ++d)
    for (unsigned int i = 0; i < n; ++i)
      hv_check_eq(r.block(d)(i), want(d, i), "operator of an elastic body is the derivative of its residual");
  hv_cover("end");
}
HV_SPEC(operator_2d) { apply<2>(false); }
HV_SPEC(operator_3d) { apply<3>(false); }
HV_SPEC(matrix_2d) { apply<2>(true); }
HV_SPEC(matrix_3d) { apply<3>(true); }

// values prescribed at supports are those of the given constraints
HV_SPEC(prescribed)
{
  Body<2>     s(false);
  Body<2>::Op op(s.mf, s.ac, false, s.E, s.nu, s.type);
  const double              x = hv_real("value", -1, 1);
  AffineConstraints<double> b;
  b.lines         = {hv::offset + 2};
  b.inhomogeneous = {hv::offset + 2};
  b.values        = {hv_real("value", -1, 1)};
  op.attach_dirichlet_boundary_conditions(b, 1);
  AffineConstraints<double> c;
  c.lines         = {hv::offset + 1, hv::offset + 4};
  c.inhomogeneous = {hv::offset + 4};
  c.values        = {x};
  op.attach_dirichlet_boundary_conditions(c, 1);
  hv_check_ieq(op.dirichlet_constraints_indices[0].size(), 0, "other directions are free");
  hv_check_ieq(op.dirichlet_constraints_indices[1].size(), 2, "held unknowns");
  hv_check_ieq(op.dirichlet_constraints_values[1].size(), 2, "a value for each");
  hv_check_ieq(op.dirichlet_constraints_indices[1][0], 1, "first held unknown");
  hv_check_ieq(op.dirichlet_constraints_indices[1][1], 4, "second held unknown");
  hv_check_eq(op.dirichlet_constraints_values[1][0], 0, "no value given");
  hv_check_eq(op.dirichlet_constraints_values[1][1], x, "value given");
  hv_cover("end");
}
