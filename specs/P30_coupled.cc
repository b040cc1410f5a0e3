// Coupled operators additionally hold displacements at points of vanishing concentration and at chosen supports.
// hv: flags -fno-access-control
// hv: assume doubles are reals
// hv: assume deal.II vectors, matrix-free loops and cell evaluation behave as the stand-ins of hv_fem.h
// hv: bound one cell, one integration point, one or two order parameters, up to two supported and two empty points
#define HV_NQ 1
#define HV_PARTITIONER
#include <hv_dealii.h>
#include <hv_fem.h>
#include <hv_sintering.h>
#include <pf-applications/sintering/operator_sintering_coupled_monolithic.h>
using namespace hvs;
namespace dealii
{
  namespace TrilinosWrappers
  {
    void SparseMatrix::clear() {}
  } // namespace TrilinosWrappers
} // namespace dealii
// any linear operator, see P30_constraints.cc
struct Coupled : public SinteringOperatorCoupledMonolithic<2, double, VA, Coupled>
{
  using T               = Coupled;
  using Base            = SinteringOperatorCoupledMonolithic<2, double, VA, Coupled>;
  using BlockVectorType = BV;
  unsigned int        more;
  std::vector<double> a;
  template <typename... A>
  Coupled(const unsigned int more, A &&...args)
    : Base(args...)
    , more(more)
  {
    for (unsigned int i = 0; i < 2 * n_components() * n_components(); ++i)
      a.push_back(hv_real("a", -1, 1));
  }
  unsigned int n_components() const override { return data.n_components() + more + 2; }
  unsigned int n_additional_components() const override { return more; }
  using Base::vmult_internal;
  // one vector with neighbouring components
  void vmult_internal(VectorType &dst, const VectorType &src) const override
  {
    const unsigned int n = n_components();
    for (unsigned int i = 0; i < src.size() / n; ++i)
      for (unsigned int b = 0; b < n; ++b)
        {
          dst(i * n + b) = 0;
          for (unsigned int c = 0; c < n; ++c)
            dst(i * n + b) += entry(i, b, c) * src(i * n + c);
        }
  }
  double entry(const unsigned int i, const unsigned int b, const unsigned int c) const
  {
    return a[(i % 3 ? n_components() * n_components() : 0) + b * n_components() + c];
  }
  template <int n_comp, int n_grains, typename FE>
  void do_vmult_kernel(FE &phi) const
  {
    for (unsigned int q = 0; q < phi.n_q_points; ++q)
      {
        typename FE::value_type    v;
        typename FE::gradient_type g;
        const auto                 x = phi.get_value(q);
        const auto                 y = phi.get_gradient(q);
        if constexpr (n_comp > 1)
          for (unsigned int i = 0; i < n_comp; ++i)
            for (unsigned int j = 0; j < n_comp; ++j)
              {
                v[i] += entry(0, i, j) * x[j];
                g[i] += entry(1, i, j) * y[j];
              }
        phi.submit_value(v, q);
        phi.submit_gradient(g, q);
      }
  }
};
template <>
void
OperatorBase<2, double, VA, Coupled>::initialize_system_matrix(bool, bool) const
{}
static void apply(const bool one_vector, const bool both)
{
  const unsigned int                   grains = 1, more = hv_pick("more", 0, 1), n = grains + 2 + more + 2;
  MatrixFree<2, double, VA>            mf(1);
  AffineConstraints<double>            ac;
  FreeEnergy<VA>                       fe(hv_real("A", 1, 20), hv_real("B", 0.5, 3));
  SinteringOperatorData<2, VA>         data(hv_real("kappa_c", 0.1, 2), hv_real("kappa_p", 0.1, 2), provider(), time_data(1));
  std::vector<std::shared_ptr<BV>>     old(2);
  for (auto &o : old)
    o = std::make_shared<BV>();
  TimeIntegration::SolutionHistory<BV> history(old);
  data.set_n_components(grains + 2);
  const unsigned int m = mf.dofs;
  mf.constrained       = {2};
  Coupled op(more, mf, ac, fe, data, history, false, 1., 0.25, Structural::MaterialPlaneType::plane_strain, 0.1);
  // supports and empty points, some of them both
  std::vector<unsigned int> held[2];
  op.zero_c_constraints_indices = {0};
  if (both)
    op.zero_c_constraints_indices.push_back(1);
  held[0] = {1};
  held[1] = {(unsigned int)hv_pick("support", 0, 1)};
  for (unsigned int d = 0; d < 2; ++d)
    op.get_zero_constraints_indices()[d] = held[d];
  BV v, w, d;
  draw(v, mf, n, "v", -1, 1);
  draw(d, mf, n, "garbage", -1, 1);
  w.reinit(n);
  const auto is_held = [&](const unsigned int b, const unsigned int i) {
    if (i == 2)
      return true;
    if (b < n - 2)
      return false;
    bool r = false;
    for (const auto k : op.zero_c_constraints_indices)
      r = r || k == i;
    for (const auto k : held[b - (n - 2)])
      r = r || k == i;
    return r;
  };
  for (unsigned int b = 0; b < n; ++b)
    {
      w.block(b) = v.block(b);
      for (unsigned int i = 0; i < m; ++i)
        if (is_held(b, i))
          w.block(b)(i) = 0;
    }
  LinearAlgebra::distributed::Vector<double> v1(n * m), d1(n * m);
  for (unsigned int b = 0; b < n; ++b)
    for (unsigned int i = 0; i < m; ++i)
      {
        v1(i * n + b) = v.block(b)(i);
        d1(i * n + b) = d.block(b)(i);
      }
  const BV v0 = v;
  for (int pass = 0; pass < 2; ++pass)
    {
      if (one_vector)
        op.vmult(d1, v1);
      else
        op.vmult(d, v);
      for (unsigned int b = 0; b < n; ++b)
        for (unsigned int i = 0; i < m; ++i)
          {
            const double in = one_vector ? v1(i * n + b) : v.block(b)(i), out = one_vector ? d1(i * n + b) : d.block(b)(i);
            hv_check_eq(in, v0.block(b)(i), "input is unchanged");
            double r = 0;
            for (unsigned int c = 0; c < n; ++c)
              r += op.entry(i, b, c) * w.block(c)(i);
            hv_check_eq(out, is_held(b, i) ? v0.block(b)(i) : r, is_held(b, i) ? "constrained unknowns are passed through" : "unconstrained unknowns see the operator");
          }
    }
  hv_cover("end");
}
HV_SPEC(coupled_blocks)
{
  apply(false, false);
}
HV_SPEC(coupled_blocks_overlapping)
{
  apply(false, true);
}
HV_SPEC(coupled_vector)
{
  apply(true, false);
}
HV_SPEC(coupled_vector_overlapping)
{
  apply(true, true);
}
