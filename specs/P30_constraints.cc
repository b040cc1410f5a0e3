// Constrained unknowns in operator applications, and transfer between block and interleaved layout.
// hv: flags -fno-access-control
// hv: assume doubles are reals
// hv: assume deal.II vectors, matrix-free loops and cell evaluation behave as the stand-ins of hv_fem.h
// hv: bound one or two cells, one integration point, up to 3 order parameters, two constrained unknowns per block

#define HV_NQ 1
#define HV_PARTITIONER
#include <hv_dealii.h>
#include <hv_fem.h>
#include <hv_sintering.h>
#include <pf-applications/sintering/operator_grain_growth.h>
#include <pf-applications/numerics/vector_tools.h>
using namespace hvs;

// members of deal.II matrices that are not reached with matrix-free operators
namespace dealii
{
  namespace TrilinosWrappers
  {
    void SparseMatrix::clear() {}
  } // namespace TrilinosWrappers
} // namespace dealii

// any linear operator: mixes values and gradients of all components at a point with arbitrary coefficients
template <int dim>
struct Linear : public OperatorBase<dim, double, VA, Linear<dim>>
{
  using T               = Linear<dim>;
  using BlockVectorType = BV;
  unsigned int              n;
  std::vector<double>       a;
  Linear(const MatrixFree<dim, double, VA> &mf, const AffineConstraints<double> &ac, unsigned int n)
    : OperatorBase<dim, double, VA, T>(mf, ac, 0, "linear", false)
    , n(n)
  {
    for (unsigned int i = 0; i < n * n * 2; ++i)
      a.push_back(hv_real("a", -1, 1));
  }
  unsigned int n_components() const override { return n; }
  template <int n_comp, int n_grains, typename FE>
  void do_vmult_kernel(FE &phi) const
  {
    for (unsigned int q = 0; q < phi.n_q_points; ++q)
      {
        typename FE::value_type    v;
        typename FE::gradient_type g;
        const auto                 x = phi.get_value(q);
        const auto                 y = phi.get_gradient(q);
        if constexpr (n_comp == 1)
          {
            v = a[0] * x;
            g = a[1] * y;
          }
        else
          for (unsigned int i = 0; i < n_comp; ++i)
            for (unsigned int j = 0; j < n_comp; ++j)
              {
                v[i] += a[i * n_comp + j] * x[j];
                g[i] += a[n_comp * n_comp + i * n_comp + j] * y[j];
              }
        phi.submit_value(v, q);
        phi.submit_gradient(g, q);
      }
  }
  // result of the operator at one unknown, for a vector that is zero at the constrained ones
  double expected(const BV &v, unsigned int b, unsigned int i, unsigned int dofs) const
  {
    double r = 0;
    for (unsigned int j = 0; j < n; ++j)
      r += a[(i % dofs % (1 + dim) ? n * n : 0) + b * n + j] * v.block(j)(i);
    return r;
  }
};
template <>
void
OperatorBase<2, double, VA, Linear<2>>::initialize_system_matrix(bool, bool) const
{}

static bool
is_in(const std::vector<unsigned int> &v, unsigned int i)
{
  for (const auto x : v)
    if (x == i)
      return true;
  return false;
}

HV_SPEC(block_vectors)
{
  const unsigned int          n = hv_pick("n", 1, 4);
  MatrixFree<2, double, VA>   mf(2);
  AffineConstraints<double>   ac;
  const unsigned int          m = 2 * mf.dofs;
  mf.constrained                = {(unsigned int)hv_pick("first", 0, 2), m - 1 - (unsigned int)hv_pick("second", 0, 2)};
  if (hv_bool("unconstrained"))
    mf.constrained.clear();
  Linear<2> op(mf, ac, n);
  for (int pass = 0; pass < 3; ++pass)
    {
      BV v, d, v0;
      draw(v, mf, n, "v", -1, 1);
      draw(d, mf, n, "garbage", -1, 1);
      v0.reinit(n);
      for (unsigned int b = 0; b < n; ++b)
        v0.block(b) = v.block(b);
      if (pass == 2)
        op.Tvmult(d, v);
      else
        op.vmult(d, v);
      for (unsigned int b = 0; b < n; ++b)
        for (unsigned int i = 0; i < m; ++i)
          {
            hv_check_eq(v.block(b)(i), v0.block(b)(i), "input is unchanged");
            if (is_in(mf.constrained, i))
              hv_check_eq(d.block(b)(i), v.block(b)(i), "constrained unknowns are passed through");
            else
              hv_check_eq(d.block(b)(i), op.expected(v, b, i, mf.dofs), "unconstrained unknowns see the operator");
          }
      if (pass == 1)
        break;
    }
  hv_cover("end");
}

// after the mesh or the number of components has changed
HV_SPEC(after_clear)
{
  MatrixFree<2, double, VA> mf(1);
  AffineConstraints<double> ac;
  mf.constrained = {0, 1};
  Linear<2> op(mf, ac, 3);
  op.n = 1;
  for (int pass = 0; pass < 2; ++pass)
    {
      BV v, d;
      draw(v, mf, op.n, "v", -1, 1);
      draw(d, mf, op.n, "garbage", -1, 1);
      op.vmult(d, v);
      for (unsigned int b = 0; b < op.n; ++b)
        for (unsigned int i = 0; i < mf.dofs; ++i)
          hv_check_eq(d.block(b)(i), is_in(mf.constrained, i) ? v.block(b)(i) : op.expected(v, b, i, mf.dofs),
                      "operator follows the new constraints and components");
      op.clear();
      op.n           = 3;
      mf.constrained = {2};
    }
  hv_cover("end");
}

HV_SPEC(one_vector)
{
  MatrixFree<2, double, VA> mf(2);
  AffineConstraints<double> ac;
  const unsigned int        m = 2 * mf.dofs;
  mf.constrained              = {(unsigned int)hv_pick("first", 0, 2), m - 1 - (unsigned int)hv_pick("second", 0, 2)};
  Linear<2> op(mf, ac, 1);
  BV        v, d, v0;
  draw(v, mf, 1, "v", -1, 1);
  draw(d, mf, 1, "garbage", -1, 1);
  v0.reinit(1);
  v0.block(0) = v.block(0);
  op.vmult(d.block(0), v.block(0));
  for (unsigned int i = 0; i < m; ++i)
    {
      hv_check_eq(v.block(0)(i), v0.block(0)(i), "input is unchanged");
      hv_check_eq(d.block(0)(i), is_in(mf.constrained, i) ? v.block(0)(i) : op.expected(v, 0, i, mf.dofs),
                  "vector variant equals the block variant with one block");
    }
  hv_cover("end");
}

// the components of the unknowns of one point are neighbours in the interleaved layout
struct Interleaved : public OperatorBase<2, double, VA, Interleaved>
{
  using T               = Interleaved;
  using BlockVectorType = BV;
  Interleaved(const MatrixFree<2, double, VA> &mf, const AffineConstraints<double> &ac)
    : OperatorBase<2, double, VA, T>(mf, ac, 0, "interleaved", false)
  {}
  unsigned int n_components() const override { return 2; }
  void vmult_internal(VectorType &dst, const VectorType &src) const override
  {
    for (unsigned int i = 0; i < src.size(); ++i)
      dst(i) = 2 * src(i) + src(i ^ 1);
  }
  template <int n_comp, int n_grains, typename FE>
  void do_vmult_kernel(FE &) const
  {}
};
template <>
void
OperatorBase<2, double, VA, Interleaved>::initialize_system_matrix(bool, bool) const
{}

HV_SPEC(interleaved_vector)
{
  MatrixFree<2, double, VA> mf(1);
  AffineConstraints<double> ac;
  mf.constrained = {(unsigned int)hv_pick("first", 0, 2)};
  Interleaved                               op(mf, ac);
  LinearAlgebra::distributed::Vector<double> v(2 * mf.dofs), d(2 * mf.dofs), v0;
  for (auto &x : v.v)
    x = hv_real("v", -1, 1);
  v0 = v;
  op.vmult(d, v);
  for (unsigned int i = 0; i < 2 * mf.dofs; ++i)
    {
      hv_check_eq(v(i), v0(i), "input is unchanged");
      hv_check_eq(d(i), is_in(mf.constrained, i / 2) ? v0(i) : 2 * v0(i) + v0(i ^ 1), "only the constrained unknowns are passed through");
    }
  hv_cover("end");
}

// dofs are constrained in the real operators as well
template <typename OP>
static void
real_operator(OP &op, OP &free, MatrixFree<2, double, VA> &mf, unsigned int n)
{
  BV v, w, d, e;
  draw(v, mf, n, "v", -1, 1);
  draw(d, mf, n, "garbage", -1, 1);
  draw(e, mf, n, "garbage", -1, 1);
  w.reinit(n);
  for (unsigned int b = 0; b < n; ++b)
    {
      w.block(b) = v.block(b);
      for (const auto i : mf.constrained)
        w.block(b)(i) = 0;
    }
  op.vmult(d, v);
  free.vmult(e, w);
  for (unsigned int b = 0; b < n; ++b)
    for (unsigned int i = 0; i < v.block(b).size(); ++i)
      hv_check_eq(d.block(b)(i), is_in(mf.constrained, i) ? v.block(b)(i) : e.block(b)(i), "constrained operator");
  hv_cover("end");
}
template <>
void
OperatorBase<2, double, VA, SinteringOperatorGeneric<2, double, VA>>::initialize_system_matrix(bool, bool) const
{}
HV_SPEC(sintering_operator)
{
  const unsigned int                  n = hv_pick("n", 1, 2);
  MatrixFree<2, double, VA>           mf(2), mff(2);
  AffineConstraints<double>           ac;
  FreeEnergy<VA>                      fe(hv_real("A", 1, 20), hv_real("B", 0.5, 3));
  SinteringOperatorData<2, VA>        data(hv_real("kappa_c", 0.1, 2), hv_real("kappa_p", 0.1, 2), provider(), time_data(1));
  AdvectionMechanism<2, double, VA>   adv(false, 0, 0);
  BV                                  u;
  std::vector<std::shared_ptr<BV>>    old(2);
  for (auto &o : old)
    o = std::make_shared<BV>();
  TimeIntegration::SolutionHistory<BV> history(old);
  mf.constrained = {1, 2 * mf.dofs - 1};
  data.set_n_components(n + 2);
  draw(u, mf, n + 2, "u", 0, 1);
  if (hv_bool("cut_off"))
    data.set_component_mask(mf, u, false, false, 0.5);
  data.fill_quadrature_point_values(mf, u);
  SinteringOperatorGeneric<2, double, VA> op(mf, ac, fe, data, history, adv, false, false);
  SinteringOperatorGeneric<2, double, VA> free(mff, ac, fe, data, history, adv, false, false);
  real_operator(op, free, mf, n + 2);
}

// several blocks of equal length against one vector with neighbouring components
HV_SPEC(layout)
{
  using V              = LinearAlgebra::distributed::Vector<double>;
  const unsigned int n = hv_pick("n", 1, 3), m = hv_pick("m", 0, 3);
  BV                 v, w, one, one2;
  v.reinit(n);
  w.reinit(n);
  for (unsigned int b = 0; b < n; ++b)
    {
      v.block(b).reinit(m);
      w.block(b).reinit(m);
      for (auto &x : v.block(b).v)
        x = hv_real("v", -1, 1);
    }
  V flat(n * m);
  one.reinit(1);
  one.block(0).reinit(n * m);
  VectorTools::merge_components_fast(v, flat);
  VectorTools::merge_components_fast(v, one);
  for (unsigned int b = 0; b < n; ++b)
    for (unsigned int i = 0; i < m; ++i)
      {
        hv_check_eq(flat(i * n + b), v.block(b)(i), "merging puts the components of an unknown next to each other");
        hv_check_eq(one.block(0)(i * n + b), v.block(b)(i), "merging into a single block does the same");
      }
  VectorTools::split_up_components_fast(flat, w);
  for (unsigned int b = 0; b < n; ++b)
    for (unsigned int i = 0; i < m; ++i)
      {
        hv_check_eq(w.block(b)(i), v.block(b)(i), "splitting reverts merging");
        w.block(b)(i) = 0;
      }
  VectorTools::split_up_components_fast(one, w);
  for (unsigned int b = 0; b < n; ++b)
    for (unsigned int i = 0; i < m; ++i)
      hv_check_eq(w.block(b)(i), v.block(b)(i), "splitting reverts merging into a single block");
  hv_cover("end");
}

// Cahn-Hilliard, Allen-Cahn (and mechanical) parts of an interleaved vector
HV_SPEC(parts)
{
  using V              = LinearAlgebra::distributed::Vector<double>;
  const unsigned int n = hv_pick("n", 0, 3), m = hv_pick("m", 0, 2);
  V                  v((2 + n) * m), a(2 * m), b(n * m), back((2 + n) * m);
  for (auto &x : v.v)
    x = hv_real("v", -1, 1);
  VectorTools::split_up_fast(v, a, b, n);
  for (unsigned int i = 0; i < m; ++i)
    for (unsigned int c = 0; c < n + 2; ++c)
      hv_check_eq(c < 2 ? a(2 * i + c) : b(n * i + c - 2), v(i * (n + 2) + c), "parts keep their components");
  VectorTools::merge_fast(a, b, back, n);
  for (unsigned int i = 0; i < v.size(); ++i)
    hv_check_eq(back(i), v(i), "merging reverts splitting");
  hv_cover("end");
}
HV_SPEC(three_parts)
{
  using V              = LinearAlgebra::distributed::Vector<double>;
  const unsigned int n = hv_pick("n", 0, 3), m = hv_pick("m", 0, 2);
  V                  v((2 + n) * m), a(m), b(m), c(n * m), back((2 + n) * m);
  for (auto &x : v.v)
    x = hv_real("v", -1, 1);
  VectorTools::split_up_fast(v, a, b, c, n);
  for (unsigned int i = 0; i < m; ++i)
    {
      hv_check_eq(a(i), v(i * (n + 2)), "first part");
      hv_check_eq(b(i), v(i * (n + 2) + 1), "second part");
      for (unsigned int k = 0; k < n; ++k)
        hv_check_eq(c(n * i + k), v(i * (n + 2) + 2 + k), "third part");
    }
  VectorTools::merge_fast(a, b, c, back, n);
  for (unsigned int i = 0; i < v.size(); ++i)
    hv_check_eq(back(i), v(i), "merging reverts splitting");
  hv_cover("end");
}
