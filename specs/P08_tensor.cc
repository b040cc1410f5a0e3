// Vector algebra helpers obey their definitions.
// hv: assume doubles are reals

#include <deal.II/base/point.h>
#include <deal.II/base/vectorization.h>
#include <pf-applications/base/tensor.h>
#include <hv.h>
using namespace dealii;
using namespace hpsint;

template <int dim>
static Tensor<1, dim>
vec(const char *n)
{
  Tensor<1, dim> t;
  for (int d = 0; d < dim; ++d)
    t[d] = hv_real(n, -3, 3);
  return t;
}

HV_SPEC(cross_product)
{
  const auto a = vec<2>("a"), b = vec<2>("b");
  // counterclockwise rotation from a to b is positive
  hv_check_eq(cross_product(a, b), a[0] * b[1] - a[1] * b[0], "2D cross product is the out of plane component");
  hv_check_eq(cross_product(b, a), -cross_product(a, b), "2D cross product is antisymmetric");
  const double w = hv_real("w", -3, 3);
  const auto   v = cross_product(w, a);
  hv_check_eq(v[0], -w * a[1], "2D angular velocity times arm");
  hv_check_eq(v[1], w * a[0], "2D angular velocity times arm");
  // power balance of the 2D conventions: F . (w x r) = w (r x F)
  hv_check_eq(b * v, w * cross_product(a, b), "rotation and moment use the same sign convention in 2D");
  const auto c = vec<3>("c"), d = vec<3>("d"), e = vec<3>("e");
  const auto x = cross_product(c, d);
  for (int i = 0; i < 3; ++i)
    hv_check_eq(x[i], c[(i + 1) % 3] * d[(i + 2) % 3] - c[(i + 2) % 3] * d[(i + 1) % 3], "3D cross product");
  hv_check_eq(e * cross_product(c, d), c * cross_product(d, e), "scalar triple product");
}
HV_SPEC(skew)
{
  const auto a = vec<3>("a"), b = vec<3>("b");
  const auto s = skew(a) * b, x = cross_product(a, b);
  for (int i = 0; i < 3; ++i)
    hv_check_eq(s[i], x[i], "3D skew matrix applies the cross product");
  const auto c = vec<2>("c"), d = vec<2>("d");
  hv_check_eq(skew(c) * d, cross_product(c, d), "2D skew vector applies the cross product");
}
template <int dim>
static void
projectors()
{
  const auto   a = vec<dim>("a"), b = vec<dim>("b");
  const double f = hv_real("fac", -2, 2), g = hv_real("diag", -2, 2);
  const auto   I = diagonal_matrix<dim, double>(f);
  const auto   P = projector_matrix(a, f, g);
  const auto   Q = projector_matrix(a);
  double       n = 0;
  for (int i = 0; i < dim; ++i)
    n += a[i] * a[i];
  for (int i = 0; i < dim; ++i)
    for (int j = 0; j < dim; ++j)
      {
        hv_check_eq(I[i][j], i == j ? f : 0., "diagonal matrix");
        hv_check_eq(P[i][j], f * ((i == j ? g : 0.) - a[i] * a[j]), "projector is fac (diag I - v v^T)");
        hv_check_eq(Q[i][j], (i == j ? 1. : 0.) - a[i] * a[j], "default projector is I - v v^T");
      }
  const auto p = Q * a;
  for (int i = 0; i < dim; ++i)
    hv_check_eq(p[i], (1 - n) * a[i], "projector annihilates a unit vector");
  Tensor<2, dim> T;
  for (int i = 0; i < dim; ++i)
    T[i] = vec<dim>("t");
  const auto arr  = tensor_to_point_array(T);
  auto       copy = T;
  const auto mov  = tensor_to_point_array(std::move(copy));
  for (int i = 0; i < dim; ++i)
    for (int j = 0; j < dim; ++j)
      {
        hv_check_eq(arr[i][j], T[i][j], "rows of the tensor become points");
        hv_check_eq(mov[i][j], T[i][j], "rows of the tensor become points");
      }
}
HV_SPEC(projectors_2d)
{
  projectors<2>();
}
HV_SPEC(projectors_3d)
{
  projectors<3>();
}
template <int dim>
static void
units()
{
  const auto   a = vec<dim>("a");
  const double t = hv_bool("small") ? 1e-10 : hv_real("tol", 0.001, 0.5);
  hv_assume(t > 0);
  double n = 0;
  for (int i = 0; i < dim; ++i)
    n += a[i] * a[i];
  const auto u = unit_vector(a, t);
  if (n > t * t)
    {
      double l = 0;
      for (int i = 0; i < dim; ++i)
        {
          l += u[i] * u[i];
          for (int j = 0; j < dim; ++j)
            hv_check_eq(u[i] * a[j], u[j] * a[i], "unit vector is parallel");
        }
      hv_check_eq(l, 1, "unit vector has unit length");
      double s = 0;
      for (int i = 0; i < dim; ++i)
        s += u[i] * a[i];
      hv_check(s > 0, "unit vector has the direction of the vector");
    }
  else
    for (int i = 0; i < dim; ++i)
      hv_check_eq(u[i], 0, "vectors below the tolerance have no direction");
  const double f = unit_vector_filter_2(a, t * t);
  if (n > t * t)
    hv_check_eq(f * n, 1, "filter is the inverse squared length");
  else
    hv_check_eq(f, 0, "filter vanishes below the tolerance");
}
HV_SPEC(units_2d)
{
  units<2>();
}
HV_SPEC(units_3d)
{
  units<3>();
}
HV_SPEC(moment_from_buffer)
{
  double b[6];
  for (auto &x : b)
    x = hv_real("b", -1, 1);
  hv_check_eq(create_moment_from_buffer<2>(b + 1), b[1], "2D moment is one number");
  const auto m = create_moment_from_buffer<3>(b + 2);
  for (int i = 0; i < 3; ++i)
    hv_check_eq(m[i], b[2 + i], "3D moment is three numbers");
}
