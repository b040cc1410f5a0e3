// Contracts of the elastic material law and of the strain notation.
// hv: flags -fno-access-control
// hv: assume doubles are reals
#include <deal.II/base/vectorization.h>
#include <array>
#include <pf-applications/structural/tools.h>
#include <pf-applications/structural/stvenantkirchhoff.h>
#include <hv.h>
using namespace dealii;
using namespace Structural;
using VA = VectorizedArray<double, 1>;

template <int dim>
static void
law(MaterialPlaneType type)
{
  const double E = hv_real("E", 0.1, 5), nu = hv_real("nu", -0.4, 0.45);
  hv_assume(E > 0);
  hv_assume(nu > -1);
  hv_assume(2 * nu < 1);
  const StVenantKirchhoff<dim, double, VA> m(E, nu, type);
  Tensor<2, dim, VA>                       H;
  for (int i = 0; i < dim; ++i)
    for (int j = 0; j < dim; ++j)
      H[i][j] = hv_real("H", -1, 1);
  const auto S = m.get_S(H);
  // Hooke's law with the Lame constants of the chosen plane state
  const double mu     = E / (2 * (1 + nu));
  const double lambda = dim == 3 || type == MaterialPlaneType::plane_strain ? E * nu / ((1 + nu) * (1 - 2 * nu)) : E * nu / (1 - nu * nu);
  double       tr = 0, en = 0, want = 0;
  for (int i = 0; i < dim; ++i)
    tr += H[i][i][0];
  for (int i = 0; i < dim; ++i)
    for (int j = 0; j < dim; ++j)
      {
        const double e = (H[i][j][0] + H[j][i][0]) / 2;
        hv_check_eq(S[i][j][0], 2 * mu * e + (i == j ? lambda * tr : 0), "isotropic stress of the symmetric strain");
        hv_check_eq(S[i][j][0], S[j][i][0], "stress is symmetric");
        en += S[i][j][0] * H[i][j][0] / 2;
        want += mu * e * e;
        for (int k = 0; k < dim; ++k)
          for (int l = 0; l < dim; ++l)
            hv_check_eq(hv_diff(S[i][j][0], H[k][l][0]), hv_diff(S[k][l][0], H[i][j][0]), "tangent has the major symmetry of a stored energy");
      }
  hv_check_eq(en, want + lambda * tr * tr / 2, "stored energy");
  for (int i = 0; i < dim; ++i)
    for (int j = 0; j < dim; ++j)
      hv_check_eq(hv_diff(en, H[i][j][0]), S[i][j][0], "stress is the derivative of the stored energy");
  // infinitesimal rigid rotation
  Tensor<2, dim, VA> W;
  for (int i = 0; i < dim; ++i)
    for (int j = 0; j < i; ++j)
      {
        W[i][j] = hv_real("W", -1, 1);
        W[j][i] = -W[i][j];
      }
  const auto R = m.get_S(W);
  for (int i = 0; i < dim; ++i)
    for (int j = 0; j < dim; ++j)
      hv_check_eq(R[i][j][0], 0, "a rigid rotation produces no stress");
  hv_cover("end");
}
HV_SPEC(law_2d) { law<2>(hv_pick("type", 0, 1) ? MaterialPlaneType::plane_stress : MaterialPlaneType::none); }
HV_SPEC(law_plane_strain) { law<2>(MaterialPlaneType::plane_strain); }
HV_SPEC(law_3d) { law<3>(MaterialPlaneType::none); }
// a plane setting given for a three-dimensional body is ignored
HV_SPEC(law_3d_plane) { law<3>(hv_pick("type", 0, 1) ? MaterialPlaneType::plane_stress : MaterialPlaneType::plane_strain); }

template <int dim>
static void
notation()
{
  constexpr unsigned int    n = voigt_size<dim>;
  Tensor<2, dim, VA>        H, G;
  Tensor<1, n, VA>          s;
  for (int i = 0; i < dim; ++i)
    for (int j = 0; j < dim; ++j)
      H[i][j] = hv_real("H", -1, 1);
  for (unsigned int i = 0; i < n; ++i)
    s[i] = hv_real("s", -1, 1);
  hv_check_ieq(n, dim * (dim + 1) / 2, "number of strain components");
  const auto e = apply_l(H);
  const auto T = apply_l_transposed<dim>(s);
  double     a = 0, b = 0;
  for (unsigned int i = 0; i < n; ++i)
    a += s[i][0] * e[i][0];
  for (int i = 0; i < dim; ++i)
    for (int j = 0; j < dim; ++j)
      {
        b += T[i][j][0] * H[i][j][0];
        hv_check_eq(T[i][j][0], T[j][i][0], "stress tensor of a stress vector is symmetric");
      }
  hv_check_eq(a, b, "stress power agrees in vector and tensor notation");
  // the components are the ones their names say
  for (unsigned int k = 0; k < n; ++k)
    {
      const char *name = voigt_indices<dim>[k];
      const int   i = name[4] - 'x', j = name[5] - 'x';
      hv_check_eq(e[k][0], i == j ? H[i][i][0] : H[i][j][0] + H[j][i][0], "strain component belongs to its name");
    }
  const auto P = add_identity(H), M = sub_identity(H), Z = sub_identity(P);
  for (int i = 0; i < dim; ++i)
    for (int j = 0; j < dim; ++j)
      {
        hv_check_eq(P[i][j][0], H[i][j][0] + (i == j), "deformation gradient of a displacement gradient");
        hv_check_eq(M[i][j][0], H[i][j][0] - (i == j), "displacement gradient of a deformation gradient");
        hv_check_eq(Z[i][j][0], H[i][j][0], "adding and removing the identity cancel");
      }
  hv_cover("end");
}
HV_SPEC(notation_2d) { notation<2>(); }
HV_SPEC(notation_3d) { notation<3>(); }
