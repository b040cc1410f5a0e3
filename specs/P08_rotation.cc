// Rotations and moments of inertia of bodies.
// hv: assume doubles are reals
// hv: assume sine and cosine are any functions with sin^2 + cos^2 = 1
#include <hv_dealii.h>
#include <pf-applications/grain_tracker/motion.h>
#include <pf-applications/base/tensor.h>
#include <hv.h>
using namespace dealii;
using namespace GrainTracker;

HV_SPEC(rotation_about_axis)
{
  // a unit vector by its rational parametrisation, any direction but the last axis reversed
  const double         u = hv_real("u", -2, 2), v = hv_real("v", -2, 2), m = 1 + u * u + v * v;
  Tensor<1, 3, double> a;
  a[0] = 2 * u / m;
  a[1] = 2 * v / m;
  a[2] = (1 - u * u - v * v) / m;
  const double angle = hv_real("angle", -3, 3);
  const double c     = std::cos(angle / 2.), s = std::sin(angle / 2.);
  const auto   U     = rotation_via_quaternions(a, angle);
  for (int i = 0; i < 3; ++i)
    {
      double x = 0;
      for (int j = 0; j < 3; ++j)
        x += U[i][j] * a[j];
      hv_check_eq(x, a[i], "the axis is not moved");
      for (int j = 0; j < 3; ++j)
        {
          // turning by an angle: cos I + sin [a]x + (1 - cos) a a^T with twice the half angle
          const int    k    = 3 - i - j;
          const double skew = i == j ? 0. : ((j - i + 3) % 3 == 1 ? -a[k] : a[k]);
          const double e    = (i == j ? c * c - s * s : 0.) + 2 * s * c * skew + 2 * s * s * a[i] * a[j];
          hv_check_eq(U[i][j], e, "rotation about the axis by the angle");
        }
    }
  hv_cover("end");
}
template <int dim>
static void
axes()
{
  std::array<Point<dim, double>, dim> a, a0;
  for (int d = 0; d < dim; ++d)
    for (int i = 0; i < dim; ++i)
      {
        a[d][i]  = hv_real("axis", -1, 1);
        a0[d][i] = hv_real("axis0", -1, 1);
      }
  // the sum of the outer products, for orthonormal axes the rotation that takes them to axes0
  const auto Q = rotation_tensor_from_axes<dim, double>(a, a0);
  const auto G = rotation_tensor_from_axes<dim, double>(a);
  const auto H = rotation_tensor_from_axes<dim, double>(a, true);
  for (int i = 0; i < dim; ++i)
    for (int j = 0; j < dim; ++j)
      {
        double s = 0;
        for (int d = 0; d < dim; ++d)
          s += a0[d][i] * a[d][j];
        hv_check_eq(Q[i][j], s, "tensor between two systems of axes");
        hv_check_eq(G[i][j], a[j][i], "tensor from the global axes has the axes as columns");
        hv_check_eq(H[i][j], a[i][j], "tensor to the global axes is the transposed one");
      }
  hv_cover("end");
}
HV_SPEC(axes_2d)
{
  axes<2>();
}
HV_SPEC(axes_3d)
{
  axes<3>();
}
HV_SPEC(inertia)
{
  const double m = hv_real("measure", 0, 1);
  double       data[6], before[6];
  for (int k = 0; k < 6; ++k)
    data[k] = before[k] = hv_real("sum", -1, 1);
  Point<3, double> r;
  for (int d = 0; d < 3; ++d)
    r[d] = hv_real("r", -1, 1);
  Point<2, double> r2(r[0], r[1]);
  double           data2[3] = {data[0], data[1], data[2]};
  evaluate_inertia_properties(r, m, data);
  evaluate_inertia_properties(r2, m, data2);
  for (int d = 0; d < 3; ++d)
    hv_check_eq(data[d], before[d] + m * (r.square() - r[d] * r[d]), "moments add up");
  hv_check_eq(data[3], before[3] - m * r[0] * r[1], "products add up");
  hv_check_eq(data[4], before[4] - m * r[0] * r[2], "products add up");
  hv_check_eq(data[5], before[5] - m * r[1] * r[2], "products add up");
  hv_check_eq(data2[0], before[0] + m * r[1] * r[1], "moments add up");
  hv_check_eq(data2[1], before[1] + m * r[0] * r[0], "moments add up");
  hv_check_eq(data2[2], before[2] - m * r[0] * r[1], "products add up");
  hv_cover("end");
}
