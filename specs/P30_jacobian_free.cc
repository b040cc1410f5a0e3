// The Jacobian-free operator: for a residual that is linear in the state the finite difference is the
// product with the matrix, its input and the linearisation point stay as they are.
// hv: flags -fno-access-control
// hv: assume doubles are reals
// hv: assume deal.II vectors behave as the stand-ins of hv_fem.h
// hv: bound one or two blocks with two entries, the residual in one or two ranges
#include <hv_dealii.h>
#include <hv_fem.h>
#include <pf-applications/lac/dynamic_block_vector.h>
#include <pf-applications/numerics/vector_tools.h>
#include <pf-applications/lac/jacobian_operator.h>
#include <pf-applications/lac/residual_wrapper.h>
#include <hv.h>
using namespace dealii;
using namespace NonLinearSolvers;
using BV = LinearAlgebra::distributed::DynamicBlockVector<double>;

struct Lin
{
  unsigned int        n; // blocks
  std::vector<double> a, b;
  Lin(unsigned int n) : n(n)
  {
    for (unsigned int i = 0; i < 4 * n * n; ++i)
      a.push_back(hv_real("a", -1, 1));
    for (unsigned int i = 0; i < 2 * n; ++i)
      b.push_back(hv_real("b", -1, 1));
  }
  double row(unsigned int i, const BV &v) const
  {
    double r = 0;
    for (unsigned int j = 0; j < 2 * n; ++j)
      r += a[i * 2 * n + j] * v.block(j / 2)(j % 2);
    return r;
  }
};
using F = std::function<void(const unsigned int, const unsigned int)>;
// with operations around the loop, in one or two ranges, and (as with advection) in two loops
struct PrePost : public ResidualWrapper<double>
{
  const Lin &l;
  bool       split, twice;
  PrePost(const Lin &l, bool split, bool twice) : l(l), split(split), twice(twice) {}
  void evaluate_for_residual(BV &, const BV &, const F, const F) const override { hv_check(false, "the Jacobian's residual is needed"); }
  void run(const F &f) const
  {
    if (!f)
      return;
    if (split)
      f(0, 1), f(1, 2);
    else
      f(0, 2);
  }
  void evaluate_for_jacobian(BV &dst, const BV &src, const F pre, const F post) const override
  {
    if (twice)
      run(pre), run(post);
    run(pre);
    if (!pre)
      dst = 0.;
    for (unsigned int i = 0; i < 2 * l.n; ++i)
      dst.block(i / 2)(i % 2) += l.row(i, src) + l.b[i];
    run(post);
  }
};
// an operator without them
struct Plain
{
  const Lin &l;
  template <int t>
  void evaluate_nonlinear_residual(BV &dst, const BV &src) const
  {
    for (unsigned int i = 0; i < 2 * l.n; ++i)
      dst.block(i / 2)(i % 2) = l.row(i, src) + l.b[i];
  }
};
static void
fill(BV &v, unsigned int n, const char *name)
{
  v.reinit(n);
  for (unsigned int b = 0; b < n; ++b)
    {
      v.block(b).reinit(2);
      for (unsigned int i = 0; i < 2; ++i)
        v.block(b)(i) = hv_real(name, -1, 1);
    }
}
// a difference quotient: exact over the reals, with round-off otherwise (the step length "bs" may be as small
// as 1e-14, so that its compiled version is only run for the side conditions)
static bool
near(double a, double b, double tol)
{
#ifdef HV_SYMBOLIC
  (void)tol;
  return hv_close(a, b);
#else
  return std::abs(a - b) <= tol * (1 + std::abs(b));
#endif
}
template <typename R>
static void
product(const R &r, const Lin &l, const char *algo)
{
  const unsigned int n = l.n;
  BV                 u, x, y;
  fill(u, n, "u");
  fill(x, n, "x");
  fill(y, n, "garbage");
  JacobianFree<double, R> j(r, algo);
  j.reinit(u);
  const BV     &cx = x;
  const BV      x0(cx), u0(u);
  const int     zero = hv_bool("zero input");
  if (zero)
    x = 0.;
  else
    hv_assume(x.block(0)(0) != 0.);
  for (int pass = 0; pass < 2; ++pass)
    {
      j.vmult(y, cx);
      for (unsigned int i = 0; i < 2 * n; ++i)
        {
          hv_check(near(y.block(i / 2)(i % 2), zero ? 0. : l.row(i, x), algo[0] == 'b' ? 1e9 : 1e-4), "product with the derivative of the residual");
          hv_check(near(j.u.block(i / 2)(i % 2), u0.block(i / 2)(i % 2), 1e-9), "linearisation point is kept");
          hv_check(near(x.block(i / 2)(i % 2), zero ? 0. : x0.block(i / 2)(i % 2), 1e-12), "input is kept");
        }
    }
  hv_cover("end");
}
HV_SPEC(jacobian_free_wrapper)
{
  const Lin     l(hv_pick("blocks", 1, 2));
  const PrePost r(l, hv_bool("split"), hv_bool("twice"));
  const ResidualWrapper<double> &w = r;
  product(w, l, hv_bool("bs") ? "bs" : "pw");
}
HV_SPEC(jacobian_free_plain)
{
  const Lin l(hv_pick("blocks", 1, 2));
  Plain     p{l};
  product(p, l, hv_bool("bs") ? "bs" : "pw");
}
