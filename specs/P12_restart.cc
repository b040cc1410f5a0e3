// Contracts of the restart data of the grain tracker: whatever is written is read back, nothing is
// left over. The archive is a ghost tape that keeps every number (contract of boost's archives);
// objects stored through a base pointer are restored as the class they were (all classes are
// registered, see P12_registration.cc).
// hv: flags -fno-access-control
// hv: assume boost archives keep every number and restore registered classes
// hv: bound containers with up to three entries
#include <hv_dealii.h>
#include <deal.II/base/point.h>
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/export.hpp>
#include <boost/serialization/nvp.hpp>
// the base class of an object is the object itself (the library also registers the pair of classes)
#undef BOOST_SERIALIZATION_BASE_OBJECT_NVP
#define BOOST_SERIALIZATION_BASE_OBJECT_NVP(name) static_cast<name &>(*this)
#include <hv_archive.h>
#include <pf-applications/grain_tracker/cell.h>
#include <pf-applications/grain_tracker/grain.h>
#include <hv.h>
#include <string>
using namespace dealii;
using namespace GrainTracker;

template <>
struct HvPolymorphic<Representation>
{
  static constexpr bool value = true;
  template <typename Archive, typename T>
  static void one(Archive &ar, std::unique_ptr<Representation> &p, long &type, long me)
  {
    if (Archive::is_saving::value)
      {
        T *t = dynamic_cast<T *>(p.get());
        if (t == nullptr)
          return;
        ar.put(me);
        ar.put(*t);
        type = me;
      }
    else if (type == me)
      {
        auto t = std::make_unique<T>();
        ar.put(*t);
        p = std::move(t);
      }
  }
  template <typename Archive>
  static void put(Archive &ar, std::unique_ptr<Representation> &p)
  {
    long type = -1;
    if (Archive::is_loading::value)
      ar.put(type);
    one<Archive, RepresentationSpherical<2>>(ar, p, type, 0);
    one<Archive, RepresentationSpherical<3>>(ar, p, type, 1);
    one<Archive, RepresentationElliptical<2>>(ar, p, type, 2);
    one<Archive, RepresentationElliptical<3>>(ar, p, type, 3);
    one<Archive, RepresentationWavefront<2>>(ar, p, type, 4);
    one<Archive, RepresentationWavefront<3>>(ar, p, type, 5);
    if (Archive::is_saving::value)
      hv_check(type >= 0, "every class of description can be saved");
  }
};

static double R(const std::string &n)
{
  return hv_real(n.c_str(), -3, 3);
}
static std::string num(int i)
{
  return std::string(1, char('0' + i));
}
template <int dim>
static Point<dim> point(const std::string &n)
{
  Point<dim> p;
  for (unsigned int d = 0; d < dim; ++d)
    p[d] = R(n + num(d));
  return p;
}
// write to and read from the same tape
template <typename T>
static void round(const T &a, T &b)
{
  HvTape t;
  HvSave save(t);
  save << a;
  HvLoad load(t);
  load >> b;
  hv_check(t.ok, "numbers are read as what they were written");
  hv_check_ieq(t.pk, t.kind.size(), "everything written is read");
}
template <int dim>
static void same(const Point<dim> &a, const Point<dim> &b, const char *l)
{
  for (unsigned int d = 0; d < dim; ++d)
    hv_check_eq(a[d], b[d], l);
}

template <int dim>
static void same(const Ellipsoid<dim> &a, const Ellipsoid<dim> &b)
{
  same<dim>(a.get_center(), b.get_center(), "centre of an ellipsoid");
  hv_check_eq(a.get_r_min(), b.get_r_min(), "smallest radius");
  hv_check_eq(a.get_r_max(), b.get_r_max(), "largest radius");
  hv_check_eq(a.get_norm(), b.get_norm(), "norm of the quadratic form");
  hv_check_eq(a.get_alpha(), b.get_alpha(), "constant of the quadratic form");
  for (unsigned int i = 0; i < dim; ++i)
    {
      hv_check_eq(a.get_radii()[i], b.get_radii()[i], "radii of an ellipsoid");
      same<dim>(a.get_axes()[i], b.get_axes()[i], "axes of an ellipsoid");
      hv_check_eq(a.get_b()[i], b.get_b()[i], "linear part of the quadratic form");
      for (unsigned int j = 0; j < dim; ++j)
        hv_check_eq(a.get_A()[i][j], b.get_A()[i][j], "matrix of the quadratic form");
    }
}
template <int dim>
static Ellipsoid<dim> ellipsoid(const std::string &n)
{
  std::array<double, dim>     radii;
  std::array<Point<dim>, dim> axes;
  for (unsigned int i = 0; i < dim; ++i)
    {
      radii[i] = hv_real((n + "r" + num(i)).c_str(), 0.1, 2);
      hv_assume(radii[i] > 0);
      if (i > 0) // the order of the radii plays no role here
        hv_assume(radii[i] < radii[i - 1]);
      axes[i] = point<dim>(n + "a" + num(i));
    }
  return Ellipsoid<dim>(point<dim>(n + "c"), radii, axes);
}
HV_SPEC(ellipsoid_2d)
{
  const auto   a = ellipsoid<2>("e");
  Ellipsoid<2> b;
  round(a, b);
  same(a, b);
}
HV_SPEC(ellipsoid_3d)
{
  const auto   a = ellipsoid<3>("e");
  Ellipsoid<3> b;
  round(a, b);
  same(a, b);
}

// kind 0: none, 1: sphere, 2: ellipsoid, 3: distances
template <int dim>
static std::unique_ptr<Representation> representation(const std::string &n, int kind, int neighbours)
{
  if (kind == 1)
    return std::make_unique<RepresentationSpherical<dim>>(point<dim>(n + "c"), R(n + "r"));
  if (kind == 2)
    return std::make_unique<RepresentationElliptical<dim>>(ellipsoid<dim>(n));
  if (kind == 3)
    {
      std::map<std::pair<unsigned int, unsigned int>, double> d;
      for (int i = 0; i < neighbours; ++i)
        d[{(unsigned int)(i / 2), (unsigned int)(3 * i)}] = R(n + "d" + num(i));
      return std::make_unique<RepresentationWavefront<dim>>(hv_int((n + "op").c_str(), 0, 4000000000l), hv_int((n + "ix").c_str(), 0, 4000000000l), point<dim>(n + "c"), d);
    }
  return nullptr;
}
// the same class with the same content
template <int dim>
static void same(const Representation &a, const Representation &b)
{
  const auto *sa = dynamic_cast<const RepresentationSpherical<dim> *>(&a);
  const auto *sb = dynamic_cast<const RepresentationSpherical<dim> *>(&b);
  const auto *ea = dynamic_cast<const RepresentationElliptical<dim> *>(&a);
  const auto *eb = dynamic_cast<const RepresentationElliptical<dim> *>(&b);
  const auto *wa = dynamic_cast<const RepresentationWavefront<dim> *>(&a);
  const auto *wb = dynamic_cast<const RepresentationWavefront<dim> *>(&b);
  hv_check((sa == nullptr) == (sb == nullptr), "kind of description");
  hv_check((ea == nullptr) == (eb == nullptr), "kind of description");
  hv_check((wa == nullptr) == (wb == nullptr), "kind of description");
  hv_check(a.trivial() == b.trivial(), "kind of description");
  if (sa && sb)
    {
      same<dim>(sa->center, sb->center, "centre of a sphere");
      hv_check_eq(sa->radius, sb->radius, "radius of a sphere");
    }
  if (ea && eb)
    same<dim>(ea->ellipsoid, eb->ellipsoid);
  if (wa && wb)
    {
      same<dim>(wa->center, wb->center, "centre of a wavefront");
      hv_check_ieq(wa->op_and_index.first, wb->op_and_index.first, "order parameter of a wavefront");
      hv_check_ieq(wa->op_and_index.second, wb->op_and_index.second, "index of a wavefront");
      hv_check_ieq(wa->distances.size(), wb->distances.size(), "number of neighbours");
      for (const auto &[k, v] : wa->distances)
        {
          const auto it = wb->distances.find(k);
          hv_check(it != wb->distances.end(), "neighbours of a wavefront");
          if (it != wb->distances.end())
            hv_check_eq(v, it->second, "distances to neighbours");
        }
    }
  // what is written for output
  std::vector<double> oa, ob;
  a.save(oa);
  b.save(ob);
  hv_check_ieq(oa.size(), ob.size(), "size of the output");
  for (unsigned int i = 0; i < oa.size() && i < ob.size(); ++i)
    hv_check_eq(oa[i], ob[i], "output");
  if (sa || ea)
    {
      // the class, then everything that defines the shape
      std::vector<double> x{sa ? 1. : 2.};
      for (unsigned int i = 0; i < dim; ++i)
        x.push_back(sa ? sa->center[i] : ea->ellipsoid.get_center()[i]);
      for (unsigned int k = 0; ea && k < dim; ++k)
        for (unsigned int i = 0; i < dim; ++i)
          x.push_back(ea->ellipsoid.get_axes()[k][i]);
      if (sa)
        x.push_back(sa->radius);
      for (unsigned int i = 0; ea && i < dim; ++i)
        x.push_back(ea->ellipsoid.get_radii()[i]);
      hv_check_ieq(oa.size(), x.size(), "size of the output");
      for (unsigned int i = 0; i < oa.size() && i < x.size(); ++i)
        hv_check_eq(oa[i], x[i], "shape in the output");
    }
}
template <int dim>
static void same(const Segment<dim> &a, const Segment<dim> &b)
{
  same<dim>(a.get_center(), b.get_center(), "centre of a segment");
  hv_check_eq(a.get_radius(), b.get_radius(), "radius of a segment");
  hv_check_eq(a.get_measure(), b.get_measure(), "measure of a segment");
  hv_check_eq(a.get_max_value(), b.get_max_value(), "value of a segment");
  hv_check(a.trivial() == b.trivial(), "kind of description");
  hv_check((a.representation == nullptr) == (b.representation == nullptr), "a segment with a description has one afterwards");
  if (a.representation && b.representation)
    same<dim>(*a.representation, *b.representation);
}
template <int dim>
static Segment<dim> segment(const std::string &n, int kind, int neighbours)
{
  return Segment<dim>(point<dim>(n + "s"), R(n + "R"), R(n + "m"), R(n + "v"), representation<dim>(n, kind, neighbours));
}
template <int dim>
static void segments(int kind, int neighbours)
{
  const auto   a = segment<dim>("s", kind, neighbours);
  Segment<dim> b;
  round(a, b);
  same<dim>(a, b);
  // a copy is as good as the original
  const Segment<dim> c(a);
  same<dim>(a, c);
}
HV_SPEC(segments_2d)
{
  const int kind = hv_pick("kind", 0, 3);
  segments<2>(kind, kind == 3 ? hv_pick("neighbours", 0, 3) : 0);
}
HV_SPEC(segments_3d)
{
  const int kind = hv_pick("kind", 0, 3);
  segments<3>(kind, kind == 3 ? hv_pick("neighbours", 0, 3) : 0);
}
// what a segment held before does not matter
HV_SPEC(segments_over_others)
{
  const auto a = segment<2>("a", hv_pick("kind", 0, 3), 1);
  auto       b = segment<2>("b", hv_pick("before", 0, 3), 2);
  round(a, b);
  same<2>(a, b);
}

template <int dim>
static void same(const Grain<dim> &a, const Grain<dim> &b, const Grain<dim> &probe)
{
  hv_check_ieq(a.get_grain_id(), b.get_grain_id(), "grain id");
  hv_check_ieq(a.get_order_parameter_id(), b.get_order_parameter_id(), "order parameter");
  hv_check_ieq(a.get_old_order_parameter_id(), b.get_old_order_parameter_id(), "old order parameter");
  hv_check_ieq(a.get_dynamics(), b.get_dynamics(), "dynamics");
  hv_check_eq(a.get_max_radius(), b.get_max_radius(), "largest radius");
  hv_check_eq(a.get_max_value(), b.get_max_value(), "largest value");
  hv_check_eq(a.get_measure(), b.get_measure(), "total measure");
  hv_check_eq(a.transfer_buffer(), b.transfer_buffer(), "transfer buffer");
  hv_check_ieq(a.n_segments(), b.n_segments(), "number of segments");
  for (unsigned int i = 0; i < a.n_segments() && i < b.n_segments(); ++i)
    same<dim>(a.get_segments()[i], b.get_segments()[i]);
}
static unsigned int U(const std::string &n)
{
  return hv_int(n.c_str(), 0, 4294967295l);
}
template <int dim>
static Grain<dim> grain(const std::string &t, int n, int kind, long dyn = 2)
{
  Grain<dim> g(U(t + "id"), U(t + "op"), U(t + "old"));
  for (int i = 0; i < n; ++i)
    g.add_segment(segment<dim>(t + num(i), kind == 4 ? i : kind, 1));
  g.set_order_parameter_id(U(t + "new"));
  const long d = dyn < 2 ? dyn : hv_pick((t + "dyn").c_str(), -1, 1);
  g.set_dynamics(d < 0 ? Grain<dim>::Shrinking : d > 0 ? Grain<dim>::Growing : Grain<dim>::None);
  // any distance to the nearest neighbour
  g.distance_to_nearest_neighbor = R(t + "near");
  return g;
}
template <int dim>
static void grains(int n, int kind)
{
  const auto a = grain<dim>("g", n, kind);
  Grain<dim> b;
  round(a, b);
  same<dim>(a, b, a);
}
HV_SPEC(grains_2d)
{
  const int n = hv_pick("n", 0, 2), kind = n == 0 ? 0 : hv_pick("kind", 0, 4);
  grains<2>(n, kind);
}
HV_SPEC(grains_3d)
{
  const int n = hv_pick("n", 0, 2), kind = n == 0 ? 0 : hv_pick("kind", 0, 3);
  if (n == 2 && kind == 2)
    return; // see the case n = 1
  grains<3>(n, kind);
}
HV_SPEC(grains_without_neighbour)
{
  Grain<2> a(U("id"), U("op")), b(1, 2);
  b.distance_to_nearest_neighbor = 1.;
  a.add_segment(segment<2>("s", 1, 0));
  round(a, b);
  same<2>(a, b, a);
}
// the list of grains a tracker stores
HV_SPEC(grain_lists)
{
  const int             n = hv_pick("n", 0, 3);
  std::vector<Grain<2>> a, b;
  for (int i = 0; i < n; ++i)
    a.emplace_back(grain<2>(std::string(1, char('a' + i)), (i + 1) % 2, 1, i - 1));
  round(a, b);
  hv_check_ieq(b.size(), n, "number of grains");
  for (int i = 0; i < n && i < (int)b.size(); ++i)
    same<2>(a[i], b[i], a[i]);
}
template <int dim>
static void cells(int n)
{
  Cell<dim> a, b;
  a.point_center     = point<dim>("c");
  a.point_barycenter = point<dim>("b");
  a.spatial_measure  = R("m");
  a.spatial_diameter = R("d");
  for (int i = 0; i < n; ++i)
    a.vertices.push_back(point<dim>("v" + num(i)));
  round(a, b);
  same<dim>(a.center(), b.center(), "cell centre");
  same<dim>(a.barycenter(), b.barycenter(), "cell barycentre");
  hv_check_eq(a.measure(), b.measure(), "cell measure");
  hv_check_eq(a.diameter(), b.diameter(), "cell diameter");
  hv_check_ieq(b.get_vertices().size(), n, "number of vertices");
  for (int i = 0; i < n && i < (int)b.get_vertices().size(); ++i)
    same<dim>(a.get_vertices()[i], b.get_vertices()[i], "cell vertices");
}
HV_SPEC(cells_2d)
{
  cells<2>(hv_pick("n", 0, 4));
}
HV_SPEC(cells_3d)
{
  cells<3>(hv_pick("half", 0, 1) * 8);
}
