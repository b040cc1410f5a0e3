// Contracts of compute_energy_params: the energies of a free surface and of a grain boundary in equilibrium under the
// real free energy are those the coefficients were derived from.
// hv: assume doubles are reals; the energy of a planar interface with f = m g(c)^2 and gradient coefficient k is the integral of sqrt(2 k m) g over the profile (equipartition)
#include <hv_dealii.h>
#include <hv.h>
#include <pf-applications/sintering/free_energy.h>
#include <applications/sintering/src/tools.cc>
using namespace dealii;
using namespace Sintering;
using VA = VectorizedArray<double, 1>;

struct In
{
  double             surface, boundary, width, length, energy;
  EnergyCoefficients k;
};
static In inputs()
{
  const double surface = hv_real("surface energy", 0.1, 5), boundary = hv_real("grain boundary energy", 0.1, 5), width = hv_real("width", 0.1, 5),
               length = hv_real("length scale", 0.1, 5), energy = hv_real("energy scale", 0.1, 5);
  hv_assume(surface > 0);
  hv_assume(boundary > 0);
  hv_assume(width > 0);
  hv_assume(length > 0);
  hv_assume(energy > 0);
  return {surface, boundary, width, length, energy, compute_energy_params(surface, boundary, width, length, energy)};
}
static double f(const EnergyCoefficients &k, const double c, const std::vector<double> &eta)
{
  std::vector<VA> state;
  state.push_back(VA(c));
  state.push_back(VA(0.));
  for (const double e : eta)
    state.push_back(VA(e));
  const FreeEnergy<VA> fe(k.A, k.B);
  return fe.template eval<EnergyAll>(state.data(), eta.size()).f()[0];
}
HV_SPEC(surface_energy)
{
  const In     i = inputs();
  const double c = hv_real("c", 0, 1);
  // grain next to void: c = eta
  const double m = i.k.A + 7 * i.k.B, k = i.k.kappa_c + i.k.kappa_p;
  hv_check_eq(f(i.k, c, {c}), m * c * c * (1 - c) * (1 - c), "energy across a free surface");
  // the integral of c (1 - c) over the profile is 1 / 6
  const double gamma = i.surface * i.length * i.length / i.energy;
  hv_check_eq(2 * k * m, 36 * gamma * gamma, "surface energy");
  // the profile c' = sqrt(2 m / k) c (1 - c) falls over the given width: slope at the middle
  hv_check_eq(2 * m * i.width * i.width, 16 * k, "width of a free surface");
}
HV_SPEC(grain_boundary_energy)
{
  const In     i = inputs();
  const double e = hv_real("eta", 0, 1), q = e * (1 - e);
  // two grains: eta_1 + eta_2 = 1, c = 1
  hv_check_eq(f(i.k, 1., {e, 1 - e}), 12 * i.k.B * q * q, "energy across a grain boundary");
  const double gamma = i.boundary * i.length * i.length / i.energy;
  // both order parameters contribute to the gradient energy: 2 sqrt(12 B kappa) / 6
  hv_check_eq(12 * i.k.B * i.k.kappa_p, 9 * gamma * gamma, "grain boundary energy");
  hv_check_eq(12 * i.k.B * i.width * i.width, 16 * i.k.kappa_p, "width of a grain boundary");
}
HV_SPEC(admissible)
{
  const In i = inputs();
  hv_assume(12 * i.surface > 7 * i.boundary);
  hv_check(i.k.A > 0, "barrier against mixtures");
  hv_check(i.k.B > 0, "barrier between grains");
  hv_check(i.k.kappa_p > 0, "gradient coefficient of the order parameters");
  // every other term is linear in the energies: no other dependence
  const EnergyCoefficients one = compute_energy_params(1., 1., 1., 1., 1.);
  hv_check_eq(one.A, 5, "reference values");
  hv_check_eq(one.B, 1, "reference values");
  hv_check_eq(one.kappa_c, 0.75, "reference values");
  hv_check_eq(one.kappa_p, 0.75, "reference values");
}
