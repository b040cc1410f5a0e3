// Contracts of the ellipsoid geometry: every orthonormal frame is covered by its rational
// parametrisation (half angle in 2D, quaternion in 3D) with an optional mirror image.
// hv: assume doubles are reals
// hv: assume dealii::eigenvectors returns orthogonal eigenpairs in descending order; FullMatrix::invert and vmult are the mathematical ones (2D)
#include <hv_dealii.h>
#include <deal.II/base/symmetric_tensor.h>
#include <deal.II/lac/full_matrix.h>
#include <deal.II/lac/vector.h>
#include <algorithm>
#include <hv.h>

namespace ghost
{
  bool   known = false; // the product is replaced by this value once it is proved equal to it
  double sol[3];
} // namespace ghost

#ifdef HV_SYMBOLIC
// library contracts (the compiled runs use the library itself)
namespace dealii
{
  template <> FullMatrix<double>::FullMatrix(const size_type r, const size_type c)
    : Table<2, double>(r, c)
  {}
  template <> void Vector<double>::reinit(const size_type n, const bool)
  {
    values.resize(n, 0.);
  }
  template <> template <> void FullMatrix<double>::invert(const FullMatrix<double> &M)
  {
    const unsigned int n = M.m();
    if (n == 2)
      {
        const double det = M(0, 0) * M(1, 1) - M(0, 1) * M(1, 0);
        (*this)(0, 0)    = M(1, 1) / det;
        (*this)(1, 1)    = M(0, 0) / det;
        (*this)(0, 1)    = -M(0, 1) / det;
        (*this)(1, 0)    = -M(1, 0) / det;
      }
    else
      {
        double det = 0;
        for (unsigned int j = 0; j < 3; ++j)
          det += M(0, j) * (M(1, (j + 1) % 3) * M(2, (j + 2) % 3) - M(1, (j + 2) % 3) * M(2, (j + 1) % 3));
        for (unsigned int i = 0; i < 3; ++i)
          for (unsigned int j = 0; j < 3; ++j)
            (*this)(j, i) = (M((i + 1) % 3, (j + 1) % 3) * M((i + 2) % 3, (j + 2) % 3) - M((i + 1) % 3, (j + 2) % 3) * M((i + 2) % 3, (j + 1) % 3)) / det;
      }
  }
  template <> template <> void FullMatrix<double>::vmult(Vector<double> &w, const Vector<double> &v, const bool adding) const
  {
    for (unsigned int i = 0; i < m(); ++i)
      {
        double s = adding ? w[i] : 0.;
        for (unsigned int j = 0; j < n(); ++j)
          s += (*this)(i, j) * v[j];
        if (ghost::known)
          {
            hv_check_eq(s, ghost::sol[i], "inverse times right hand side");
            s = ghost::sol[i];
          }
        w[i] = s;
      }
  }
} // namespace dealii
#endif

namespace ghost
{
  // decomposition of the matrix that the library is asked to decompose
  double lam[3];
  double len[3];
  double ax[3][3];
  double scale;
  double T[3][3]; // or, if set, the matrix itself
  bool   direct = false;

  template <int dim>
  std::array<std::pair<double, dealii::Tensor<1, dim, double>>, dim>
  eig(const dealii::SymmetricTensor<2, dim, double> &T)
  {
    using namespace dealii;
    // T has to be the matrix with these eigenpairs, up to the factor the caller uses
    for (unsigned int i = 0; i < dim; ++i)
      for (unsigned int j = i; j < dim; ++j)
        {
          double s = 0;
          for (unsigned int d = 0; d < dim; ++d)
            s += lam[d] * ax[d][i] * ax[d][j];
          hv_check_eq(T[i][j], direct ? ghost::T[i][j] : scale * s, "matrix handed to the eigenvalue solver");
        }
    unsigned int o[3] = {0, 1, 2};
    for (unsigned int a = 0; a < dim; ++a)
      for (unsigned int b = a + 1; b < dim; ++b)
        if (scale * lam[o[a]] < scale * lam[o[b]])
          std::swap(o[a], o[b]);
    std::array<std::pair<double, Tensor<1, dim, double>>, dim> r;
    for (unsigned int d = 0; d < dim; ++d)
      {
        r[d].first = scale * lam[o[d]];
        for (unsigned int i = 0; i < dim; ++i)
          r[d].second[i] = ax[o[d]][i] * len[o[d]];
      }
    return r;
  }
} // namespace ghost

namespace dealii
{
  inline std::array<std::pair<double, Tensor<1, 2, double>>, 2>
  eigenvectors(const SymmetricTensor<2, 2, double> &T)
  {
    return ghost::eig<2>(T);
  }
  inline std::array<std::pair<double, Tensor<1, 3, double>>, 3>
  eigenvectors(const SymmetricTensor<2, 3, double> &T)
  {
    return ghost::eig<3>(T);
  }
} // namespace dealii
#include <pf-applications/grain_tracker/elliptical_helpers.h>
#include <pf-applications/grain_tracker/representation.h>

using namespace dealii;
using namespace GrainTracker;

static double R(const char *n)
{
  return hv_real(n, -3., 3.);
}
static double Pos(const char *n)
{
  const double x = hv_real(n, 0.2, 3.);
  hv_assume(x > 0);
  return x;
}

template <int dim>
static Point<dim> point(const char *const *n)
{
  Point<dim> p;
  for (unsigned int d = 0; d < dim; ++d)
    p[d] = R(n[d]);
  return p;
}
static const char *NC[] = {"c0", "c1", "c2"};
static const char *NP[] = {"p0", "p1", "p2"};
static const char *NQ[] = {"q0", "q1", "q2"};

// arbitrary orthonormal frame
template <int dim>
static std::array<Point<dim>, dim> frame()
{
  std::array<Point<dim>, dim> a;
  const double                m = hv_pick("mirror", 0, 1) ? -1. : 1.;
  if constexpr (dim == 2)
    {
      const double w = R("w"), x = R("x");
      const double n = w * w + x * x;
      hv_assume(n > 0);
      const double c = (w * w - x * x) / n, s = 2 * w * x / n;
      a[0] = Point<2>(c, s);
      a[1] = Point<2>(-m * s, m * c);
    }
  else
    {
      const double w = R("w"), x = R("x"), y = R("y"), z = R("z");
      const double n = w * w + x * x + y * y + z * z;
      hv_assume(n > 0);
      a[0] = Point<3>((w * w + x * x - y * y - z * z) / n, 2 * (x * y + w * z) / n, 2 * (x * z - w * y) / n);
      a[1] = Point<3>(2 * (x * y - w * z) / n, (w * w - x * x + y * y - z * z) / n, 2 * (y * z + w * x) / n);
      a[2] = Point<3>(m * 2 * (x * z + w * y) / n, m * 2 * (y * z - w * x) / n, m * (w * w - x * x - y * y + z * z) / n);
    }
  return a;
}

template <int dim>
static double
dotp(const Point<dim> &a, const Point<dim> &x, const Point<dim> &c)
{
  double s = 0;
  for (unsigned int d = 0; d < dim; ++d)
    s += a[d] * (x[d] - c[d]);
  return s;
}

template <int dim>
static double form(const Ellipsoid<dim> &E, const Point<dim> &x)
{
  double s = E.get_alpha();
  for (unsigned int i = 0; i < dim; ++i)
    {
      s += E.get_b()[i] * x[i];
      for (unsigned int j = 0; j < dim; ++j)
        s += 0.5 * x[i] * E.get_A()[i][j] * x[j];
    }
  return s;
}

// the quadratic form is the one of the ellipsoid with this centre, these axes and these radii
template <int dim>
static void reproduces(const Ellipsoid<dim>             &E,
                       const Point<dim>                 &c,
                       const std::array<Point<dim>, dim> &a,
                       const std::array<double, dim>     &r)
{
  const Point<dim> p = point<dim>(NP);
  double           s = -1;
  for (unsigned int d = 0; d < dim; ++d)
    {
      const double t = dotp<dim>(a[d], p, c);
      s += t * t / (r[d] * r[d]);
    }
  const double f = form(E, p);
  hv_check_eq(2 * f, s, "quadratic form");
  for (unsigned int d = 0; d < dim; ++d)
    {
      hv_check_eq(E.get_center()[d], c[d], "centre");
      hv_check_eq(E.get_radii()[d], r[d], "radii");
      for (unsigned int i = 0; i < dim; ++i)
        {
          hv_check_eq(E.get_axes()[d][i], a[d][i], "axes");
          hv_check_eq(E.get_A()[d][i], E.get_A()[i][d], "matrix is symmetric");
        }
    }
  double n2 = 0;
  for (unsigned int i = 0; i < dim; ++i)
    for (unsigned int j = 0; j < dim; ++j)
      n2 += E.get_A()[i][j] * E.get_A()[i][j];
  hv_check_eq(E.get_norm() * E.get_norm(), n2, "norm of the matrix");
  hv_check_le(0, E.get_norm(), "norm is not negative");
}

template <int dim>
static void minmax(const Ellipsoid<dim> &E, const std::array<double, dim> &r)
{
  bool mn = false, mx = false;
  for (unsigned int d = 0; d < dim; ++d)
    {
      hv_check(E.get_r_min() <= r[d], "smallest radius");
      hv_check(E.get_r_max() >= r[d], "largest radius");
      mn |= E.get_r_min() == r[d];
      mx |= E.get_r_max() == r[d];
    }
  hv_check(mn, "smallest radius is one of the radii");
  hv_check(mx, "largest radius is one of the radii");
  hv_check_eq(E.get_spectral(), E.get_r_min() * E.get_r_min(), "spectral radius");
}

static const char *NR[] = {"r0", "r1", "r2"};
template <int dim>
static std::array<double, dim> radii()
{
  std::array<double, dim> r;
  for (unsigned int d = 0; d < dim; ++d)
    r[d] = Pos(NR[d]);
  return r;
}

template <int dim>
static void from_radii()
{
  const auto           c = point<dim>(NC);
  const auto           r = radii<dim>();
  const auto           a = frame<dim>();
  const Ellipsoid<dim> E(c, r, a);
  reproduces<dim>(E, c, a, r);
  minmax<dim>(E, r);
}
HV_SPEC(from_radii_2d)
{
  from_radii<2>();
}
HV_SPEC(from_radii_3d)
{
  from_radii<3>();
}

// a point is inside exactly when the form says so, up to the tolerance
template <int dim>
static void inside()
{
  const auto           c = point<dim>(NC);
  const auto           r = radii<dim>();
  const auto           a = frame<dim>();
  const Ellipsoid<dim> E(c, r, a);
  const Point<dim>     p   = point<dim>(NP);
  const double         tol = hv_real("tol", 0, 0.1);
  hv_check(E.point_inside(p, tol) == (form(E, p) <= tol), "point test");
  hv_check(E.point_inside(p) == (form(E, p) <= 1e-9), "point test with the default tolerance");
  hv_check(E.point_inside(c), "the centre is inside");
}
HV_SPEC(inside_2d)
{
  inside<2>();
}
HV_SPEC(inside_3d)
{
  inside<3>();
}

template <int dim>
static void scaled()
{
  const auto           c = point<dim>(NC);
  const auto           r = radii<dim>();
  const auto           a = frame<dim>();
  const double         k = Pos("scale");
  const Ellipsoid<dim> E0(c, r, a);
  const Ellipsoid<dim> E(E0, k);
  auto                 rs = r;
  for (auto &x : rs)
    x *= k;
  reproduces<dim>(E, c, a, rs);
  minmax<dim>(E, rs);
}
HV_SPEC(scaled_2d)
{
  scaled<2>();
}
HV_SPEC(scaled_3d)
{
  scaled<3>();
}

// a homogeneous body of elliptic shape has these moments; they give the shape back
HV_SPEC(from_moments_2d)
{
  const auto           c = point<2>(NC);
  const auto           r = radii<2>();
  const auto           a = frame<2>();
  const double         M = Pos("measure");
  const Ellipsoid<2>   E(c, std::array<double, 2>{{M * r[1] * r[1] / 4, M * r[0] * r[0] / 4}}, a, M);
  reproduces<2>(E, c, a, r);
}
HV_SPEC(from_moments_3d)
{
  const auto           c = point<3>(NC);
  const auto           r = radii<3>();
  const auto           a = frame<3>();
  const double         M = Pos("measure");
  const double         A = r[0] * r[0], B = r[1] * r[1], C = r[2] * r[2];
  const Ellipsoid<3>   E(c, std::array<double, 3>{{M * (B + C) / 5, M * (A + C) / 5, M * (A + B) / 5}}, a, M);
  reproduces<3>(E, c, a, r);
}

// moments of inertia of a set of points
HV_SPEC(inertia_2d)
{
  const Point<2> r = point<2>(NP);
  const double   m = Pos("m");
  double         d[3] = {R("d0"), R("d1"), R("d2")};
  const double   d0[3] = {d[0], d[1], d[2]};
  evaluate_inertia_properties(r, m, d);
  const SymmetricTensor<2, 2> I(d), I0(d0);
  for (unsigned int i = 0; i < 2; ++i)
    for (unsigned int j = 0; j < 2; ++j)
      hv_check_eq(I[i][j] - I0[i][j], m * ((i == j ? r * r : 0.) - r[i] * r[j]), "inertia of a point mass");
}
HV_SPEC(inertia_3d)
{
  const Point<3> r = point<3>(NP);
  const double   m = Pos("m");
  double         d[6] = {R("d0"), R("d1"), R("d2"), R("d3"), R("d4"), R("d5")};
  double         d0[6];
  std::copy_n(d, 6, d0);
  evaluate_inertia_properties(r, m, d);
  const SymmetricTensor<2, 3> I(d), I0(d0);
  for (unsigned int i = 0; i < 3; ++i)
    for (unsigned int j = 0; j < 3; ++j)
      hv_check_eq(I[i][j] - I0[i][j], m * ((i == j ? r * r : 0.) - r[i] * r[j]), "inertia of a point mass");
}

// local frames
template <int dim>
static void rotation()
{
  const auto a = frame<dim>();
  const auto Q  = rotation_tensor_from_axes<dim, double>(a);
  const auto QT = rotation_tensor_from_axes<dim, double>(a, true);
  for (unsigned int i = 0; i < dim; ++i)
    for (unsigned int j = 0; j < dim; ++j)
      {
        double s = 0;
        for (unsigned int k = 0; k < dim; ++k)
          s += QT[i][k] * Q[k][j];
        hv_check_eq(s, i == j ? 1. : 0., "there and back");
        hv_check_eq(Q[i][j], QT[j][i], "transpose");
      }
  for (unsigned int d = 0; d < dim; ++d)
    {
      // one of them maps the unit vectors to the axes
      for (unsigned int i = 0; i < dim; ++i)
        hv_check_eq(Q[i][d], a[d][i], "unit vectors are mapped to the axes");
    }
}
HV_SPEC(rotation_2d)
{
  rotation<2>();
}
HV_SPEC(rotation_3d)
{
  rotation<3>();
}

// ellipsoid given by its coefficients: A = sum_d 2K/r_d^2 a_d a_d^T, b = -A c, alpha = c^T A c / 2 - K
template <int dim>
static void from_coefficients()
{
  const auto              c = point<dim>(NC);
  const auto              r = radii<dim>();
  const auto              a = frame<dim>();
  const double            K = Pos("K");
  SymmetricTensor<2, dim> A;
  for (unsigned int i = 0; i < dim; ++i)
    for (unsigned int j = i; j < dim; ++j)
      for (unsigned int d = 0; d < dim; ++d)
        A[i][j] += 2 * K / (r[d] * r[d]) * a[d][i] * a[d][j];
  const Tensor<1, dim> b     = -1. * (A * c);
  const double         alpha = 0.5 * ((A * c) * c) - K;
  static const char   *NL[]  = {"len0", "len1", "len2"};
  for (unsigned int d = 0; d < dim; ++d)
    {
      ghost::lam[d] = 2 * K / (r[d] * r[d]);
      ghost::len[d] = Pos(NL[d]);
      for (unsigned int i = 0; i < dim; ++i)
        ghost::ax[d][i] = a[d][i];
    }
  ghost::scale = 1 / (2 * K);
  const Ellipsoid<dim> E(A, b, alpha);
  for (unsigned int d = 0; d < dim; ++d)
    {
      hv_check_eq(E.get_center()[d], c[d], "centre");
      hv_check_eq(E.get_b()[d], b[d], "linear coefficients");
      // every axis comes with its radius
      bool found = false;
      for (unsigned int e = 0; e < dim && !found; ++e)
        {
          bool same = hv_close(E.get_radii()[d], r[e]);
          for (unsigned int i = 0; i < dim; ++i)
            same = same && hv_close(E.get_axes()[d][i], a[e][i]);
          found = found || same;
        }
      hv_check(found, "axes with their radii");
      for (unsigned int i = 0; i < dim; ++i)
        hv_check_eq(E.get_A()[d][i], A[d][i], "matrix");
      if (d > 0)
        hv_check(E.get_radii()[d - 1] >= E.get_radii()[d], "radii in descending order");
    }
  hv_check_eq(E.get_alpha(), alpha, "constant");
  minmax<dim>(E, E.get_radii());
}
HV_SPEC(from_coefficients_2d)
{
  from_coefficients<2>();
}

// 3D: the matrix handed to the eigenvalue solver is A / 2K, and its eigenpairs (arbitrary here)
// become the axes and radii
HV_SPEC(from_coefficients_3d)
{
  const auto            c = point<3>(NC);
  const double          K = Pos("K");
  SymmetricTensor<2, 3> A;
  static const char    *NA[] = {"A00", "A11", "A22", "A01", "A02", "A12"};
  // sampling: diagonally dominant
  for (unsigned int i = 0; i < 6; ++i)
    A.access_raw_entry(i) = hv_real(NA[i], i < 3 ? 2. : -0.9, i < 3 ? 4. : 0.9);
  hv_assume(determinant(A) > 0);
  const Tensor<1, 3> b     = -1. * (A * c);
  const double       alpha = 0.5 * ((A * c) * c) - K;
  ghost::direct = ghost::known = true;
  const auto         a     = frame<3>();
  static const char *NL[]  = {"len0", "len1", "len2"};
  static const char *NM[]  = {"mu0", "mu1", "mu2"};
  for (unsigned int d = 0; d < 3; ++d)
    {
      ghost::sol[d] = -c[d];
      ghost::lam[d] = Pos(NM[d]);
      ghost::len[d] = Pos(NL[d]);
      for (unsigned int i = 0; i < 3; ++i)
        {
          ghost::ax[d][i]   = a[d][i];
          ghost::T[d][i]    = A[d][i] / (2 * K);
        }
    }
  ghost::scale = 1;
  hv_assume(ghost::lam[0] > ghost::lam[1]);
  hv_assume(ghost::lam[1] > ghost::lam[2]);
  const Ellipsoid<3> E(A, b, alpha);
  for (unsigned int d = 0; d < 3; ++d)
    {
      hv_check_eq(E.get_center()[d], c[d], "centre");
      hv_check_eq(E.get_b()[d], b[d], "linear coefficients");
      const unsigned int e = 2 - d;
      hv_check_eq(E.get_radii()[d] * E.get_radii()[d] * ghost::lam[e], 1, "radii");
      for (unsigned int i = 0; i < 3; ++i)
        hv_check_eq(E.get_axes()[d][i], a[e][i], "axes with their radii");
      hv_check(E.get_radii()[d] > 0, "radii are positive");
      for (unsigned int i = 0; i < 3; ++i)
        hv_check_eq(E.get_A()[d][i], A[d][i], "matrix");
      if (d > 0)
        hv_check(E.get_radii()[d - 1] >= E.get_radii()[d], "radii in descending order");
    }
  hv_check_eq(E.get_alpha(), alpha, "constant");
  minmax<3>(E, E.get_radii());
}

// a grain representation made from the inertia tensor of a homogeneous body of elliptic shape
template <int dim>
static void representation()
{
  const auto   c = point<dim>(NC);
  const auto   r = radii<dim>();
  const auto   a = frame<dim>();
  const double M = Pos("measure");
  double       mom[3];
  if (dim == 2)
    {
      mom[0] = M * r[1] * r[1] / 4;
      mom[1] = M * r[0] * r[0] / 4;
    }
  else
    {
      const double A = r[0] * r[0], B = r[1] * r[1], C = r[dim - 1] * r[dim - 1];
      mom[0]         = M * (B + C) / 5;
      mom[1]         = M * (A + C) / 5;
      mom[2]         = M * (A + B) / 5;
    }
  static const char      *NL[] = {"len0", "len1", "len2"};
  SymmetricTensor<2, dim> I;
  for (unsigned int d = 0; d < dim; ++d)
    {
      ghost::lam[d] = mom[d];
      ghost::len[d] = Pos(NL[d]);
      for (unsigned int i = 0; i < dim; ++i)
        ghost::ax[d][i] = a[d][i];
      for (unsigned int i = 0; i < dim; ++i)
        for (unsigned int j = i; j < dim; ++j)
          I[i][j] += mom[d] * a[d][i] * a[d][j];
    }
  ghost::scale = 1;
  std::unique_ptr<RepresentationElliptical<dim>> rep;
  if (hv_pick("buffer", 0, 1))
    {
      double data[6];
      for (unsigned int i = 0; i < I.n_independent_components; ++i)
        data[i] = I.access_raw_entry(i);
      rep = std::make_unique<RepresentationElliptical<dim>>(c, M, data);
    }
  else
    rep = std::make_unique<RepresentationElliptical<dim>>(c, M, I);
  // up to the order of the axes this is the body
  const auto &E = rep->ellipsoid;
  const auto  p = point<dim>(NP);
  double      s = -1;
  for (unsigned int d = 0; d < dim; ++d)
    {
      const double t = dotp<dim>(a[d], p, c);
      s += t * t / (r[d] * r[d]);
      hv_check_eq(E.get_center()[d], c[d], "centre");
    }
  hv_check_eq(2 * form(E, p), s, "quadratic form");
  hv_check(!rep->trivial(), "not a sphere");
}
HV_SPEC(representation_2d)
{
  representation<2>();
}
HV_SPEC(representation_3d)
{
  representation<3>();
}

