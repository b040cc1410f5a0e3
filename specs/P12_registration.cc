// Every class of grain descriptions is registered for restarts: the registrations of the program (inst.cc)
// are read as declarations, its explicit instantiations of library templates are left out.
// hv: assume boost archives write and read registered classes only
#include <hv_dealii.h>
#include <boost/serialization/export.hpp>
std::false_type hv_registered(const void *);
#undef BOOST_CLASS_EXPORT
#undef BOOST_CLASS_EXPORT_KEY
#undef BOOST_CLASS_EXPORT_KEY2
#undef BOOST_CLASS_EXPORT_GUID
#undef BOOST_CLASS_EXPORT_IMPLEMENT
#define BOOST_CLASS_EXPORT(...) std::true_type hv_registered(const __VA_ARGS__ *);
#define BOOST_CLASS_EXPORT_KEY(...) BOOST_CLASS_EXPORT(__VA_ARGS__)
#define BOOST_CLASS_EXPORT_KEY2(T, K) BOOST_CLASS_EXPORT(T)
#define BOOST_CLASS_EXPORT_GUID(T, K) BOOST_CLASS_EXPORT(T)
#define BOOST_CLASS_EXPORT_IMPLEMENT(...)
#include <deal.II/lac/affine_constraints.h>
#include <deal.II/lac/affine_constraints.templates.h>
#ifdef DEAL_II_WITH_SUNDIALS
#  include <deal.II/sundials/arkode.h>
#  include <deal.II/sundials/arkode.templates.h>
#  include <deal.II/sundials/arkode_stepper.h>
#  include <deal.II/sundials/arkode_stepper.templates.h>
#  include <deal.II/sundials/n_vector.h>
#  include <deal.II/sundials/n_vector.templates.h>
#  include <deal.II/sundials/sunlinsol_wrapper.h>
#  include <deal.II/sundials/sunlinsol_wrapper.templates.h>
#endif
#include <deal.II/trilinos/nox.h>
#include <deal.II/trilinos/nox.templates.h>
#include <pf-applications/lac/dynamic_block_vector.h>
#include <pf-applications/grain_tracker/grain.h>
#define template extern template
#include <inst.cc>
#undef template
#include <hv.h>
using namespace GrainTracker;
template <typename T>
static constexpr bool is_registered = decltype(hv_registered(static_cast<const T *>(nullptr)))::value;
HV_SPEC(registered)
{
  hv_check(is_registered<RepresentationSpherical<2>>, "spheres are registered");
  hv_check(is_registered<RepresentationSpherical<3>>, "spheres are registered");
  hv_check(is_registered<RepresentationElliptical<2>>, "ellipsoids are registered");
  hv_check(is_registered<RepresentationElliptical<3>>, "ellipsoids are registered");
  hv_check(is_registered<RepresentationWavefront<2>>, "wavefronts are registered");
  hv_check(is_registered<RepresentationWavefront<3>>, "wavefronts are registered");
}
