// Contracts of the bounding box filter.  BoundingBox itself is a library class: its out-of-line
// members are given by their documented meaning.
// hv: assume dealii::BoundingBox members (point_inside, point_on_boundary, corners) behave as documented
#include <hv_dealii.h>
#include <deal.II/base/bounding_box.h>
#include <deal.II/base/vectorization.h>
#include <deal.II/grid/tria_accessor.h>
#include <tuple>
#include <hv.h>

namespace dealii
{
  // library contracts
#define BOX(dim)                                                                                   \
  template <> bool BoundingBox<dim, double>::point_inside(const Point<dim> &p, const double tol) const \
  {                                                                                                \
    for (unsigned int d = 0; d < dim; ++d)                                                         \
      {                                                                                            \
        const double a = boundary_points.first[d], b = boundary_points.second[d];                  \
        if (p[d] < a - tol * (b - a) || p[d] > b + tol * (b - a))                                  \
          return false;                                                                            \
      }                                                                                            \
    return true;                                                                                   \
  }                                                                                                \
  template <> double BoundingBox<dim, double>::lower_bound(const unsigned int d) const             \
  {                                                                                                \
    return boundary_points.first[d];                                                               \
  }                                                                                                \
  template <> double BoundingBox<dim, double>::upper_bound(const unsigned int d) const             \
  {                                                                                                \
    return boundary_points.second[d];                                                              \
  }                                                                                                \
  template <> double BoundingBox<dim, double>::side_length(const unsigned int d) const             \
  {                                                                                                \
    return boundary_points.second[d] - boundary_points.first[d];                                   \
  }
  BOX(2)
  BOX(3)

  // a cell given by its vertices
  static Point<2> vertices2[4];
  static Point<3> vertices3[8];
#define CELL(dim)                                                                        \
  template <> Point<dim> &TriaAccessor<dim, dim, dim>::vertex(const unsigned int i) const \
  {                                                                                      \
    hv_check(i < (1 << dim), "vertex index");                                            \
    return vertices##dim[i];                                                             \
  }                                                                                      \
  template <> unsigned int TriaAccessor<dim, dim, dim>::n_vertices() const               \
  {                                                                                      \
    return 1 << dim;                                                                     \
  }
  CELL(2)
  CELL(3)
} // namespace dealii
#include <pf-applications/grid/bounding_box_filter.h>
using namespace dealii;

template <int dim>
struct Setup
{
  Point<dim>         a, b;
  BoundingBox<dim>   box;
  Setup()
    : box()
  {
    for (int d = 0; d < dim; ++d)
      {
        a[d] = hv_real("lower", -2, 0);
        b[d] = hv_real("upper", 0.1, 2);
        hv_assume(a[d] + 1e-3 < b[d] && b[d] - a[d] < 1e6);
      }
    box = BoundingBox<dim>(std::make_pair(a, b));
  }
};

// margin around the planes inside which either answer is acceptable
template <int dim>
static bool
strictly_inside(const Setup<dim> &s, const Point<dim> &p, double m)
{
  for (int d = 0; d < dim; ++d)
    if (!(p[d] > s.a[d] + m && p[d] < s.b[d] - m))
      return false;
  return true;
}
template <int dim>
static bool
strictly_outside(const Setup<dim> &s, const Point<dim> &p, double m)
{
  for (int d = 0; d < dim; ++d)
    {
      const double t = m * (1 + s.b[d] - s.a[d]);
      if (p[d] < s.a[d] - t || p[d] > s.b[d] + t)
        return true;
    }
  return false;
}
template <int dim>
static bool
on_boundary(const Setup<dim> &s, const Point<dim> &p)
{
  bool on = false;
  for (int d = 0; d < dim; ++d)
    {
      if (p[d] < s.a[d] || p[d] > s.b[d])
        return false;
      on = on || p[d] == s.a[d] || p[d] == s.b[d];
    }
  return on;
}

template <int dim>
static Point<dim>
point(const Setup<dim> &s)
{
  Point<dim> p;
  for (int d = 0; d < dim; ++d)
    {
      const long k = hv_pick("where", 0, 2);
      p[d]         = k == 0 ? s.a[d] : k == 1 ? s.b[d] : hv_real("p", -2.5, 2.5);
    }
  return p;
}

template <int dim>
static void
position()
{
  const Setup<dim>             s;
  const BoundingBoxFilter<dim> f(s.box);
  const Point<dim>             p   = point(s);
  using P                          = typename BoundingBoxFilter<dim>::Position;
  const auto                   pos = f.position(p);
  if (strictly_inside(s, p, 1e-12))
    {
      hv_check(pos == P::Inside, "points inside are kept");
      hv_cover("inside");
    }
  if (strictly_outside(s, p, 1e-12))
    {
      hv_check(pos == P::Outside, "points outside are dropped");
      hv_cover("outside");
    }
  if (on_boundary(s, p))
    {
      hv_check(pos == P::Boundary, "points on the faces are boundary points");
      hv_cover("boundary");
    }
  hv_check(f.point_inside(p) == (pos == P::Inside), "predicates agree with the position");
  hv_check(f.point_outside(p) == (pos == P::Outside), "predicates agree with the position");
  hv_check(f.point_boundary(p) == (pos == P::Boundary), "predicates agree with the position");
  hv_check(f.point_inside_or_boundary(p) == (pos != P::Outside), "predicates agree with the position");
  hv_check(f.point_outside_or_boundary(p) == (pos != P::Inside), "predicates agree with the position");
  for (int d = 0; d < dim; ++d)
    {
      hv_check_eq(f.get_bounding_box().get_boundary_points().first[d], s.a[d], "the box is kept");
      hv_check_eq(f.get_bounding_box().get_boundary_points().second[d], s.b[d], "the box is kept");
    }
  // every face of the box is the plane through its origin with its normal
  const auto &planes = f.get_planes();
  hv_check_ieq(planes.size(), 2 * dim, "one plane per face");
  for (int k = 0; k < 2 * dim; ++k)
    {
      const int    d    = k % dim;
      const double face = k < dim ? s.a[d] : s.b[d];
      hv_check_eq(planes[k].origin[d], face, "the plane contains the face");
      for (int e = 0; e < dim; ++e)
        hv_check_eq(planes[k].normal[e] * planes[k].normal[e], e == d ? 1. : 0., "the normal is the unit normal of the face");
    }
}

HV_SPEC(position_2d)
{
  position<2>();
}
HV_SPEC(position_3d)
{
  position<3>();
}

template <int dim>
static void
mask()
{
  const Setup<dim>                          s;
  const BoundingBoxFilter<dim>              f(s.box);
  const Point<dim>                          p = point(s);
  Point<dim, VectorizedArray<double, 1>>    q;
  for (int d = 0; d < dim; ++d)
    q[d] = p[d];
  const auto v = f.filter(q);
  hv_check_eq(v[0], strictly_inside(s, p, 0) ? 1. : 0., "the mask is one exactly inside the box");
  hv_check_ieq(v.size(), 1, "lanes");
}

HV_SPEC(mask_2d)
{
  mask<2>();
}
HV_SPEC(mask_3d)
{
  mask<3>();
}

// cells are cut by the box unless all their vertices are on one side
template <int dim>
static void
cell(Point<dim> *vertices)
{
  const Setup<dim>             s;
  const BoundingBoxFilter<dim> f(s.box);
  using P       = typename BoundingBoxFilter<dim>::Position;
  long n_in = 0, n_out = 0;
  for (int v = 0; v < (1 << dim); ++v)
    {
      // 0: inside, 1: outside, 2: on a face
      const long k = dim == 3 && v >= 4 ? (v * 7) % 3 == hv_pick("shift", 0, 1) ? 1 : 0 : hv_pick("vertex", 0, 2);
      for (int d = 0; d < dim; ++d)
        vertices[v][d] = (s.a[d] + s.b[d]) / 2;
      if (k == 1)
        vertices[v][0] = s.b[0] + 1;
      if (k == 2)
        vertices[v][1] = s.a[1];
      n_in += k == 0;
      n_out += k == 1;
    }
  alignas(16) static char                      place[256];
  const auto &c = *reinterpret_cast<const TriaAccessor<dim, dim, dim> *>(place);
  hv_check(f.intersects(c) == (n_in < (1 << dim) && n_out < (1 << dim)), "a cell is cut unless all vertices are strictly on one side");
  (void)sizeof(P);
}

HV_SPEC(cell_2d)
{
  cell<2>(vertices2);
}
HV_SPEC(cell_3d)
{
  cell<3>(vertices3);
}

// the intersection lies on the line and on the plane, and the factor locates it
template <int dim>
static void
intersection()
{
  Point<dim> p0, p1, o, n;
  for (int d = 0; d < dim; ++d)
    {
      p0[d] = hv_real("p0", -2, 2);
      p1[d] = hv_real("p1", -2, 2);
      o[d]  = hv_real("origin", -2, 2);
      n[d]  = hv_real("normal", -1, 1);
    }
  const auto [hit, fac, p] = intersect_line_plane(p0, p1, o, n);
  double dot = 0;
  for (int d = 0; d < dim; ++d)
    dot += n[d] * (p1[d] - p0[d]);
  if (hit)
    {
      double on = 0;
      for (int d = 0; d < dim; ++d)
        {
          on += n[d] * (p[d] - o[d]);
          hv_check_eq(p[d], p0[d] + fac * (p0[d] - p1[d]), "the point lies on the line at the reported factor");
        }
      hv_check_eq(on, 0., "the point lies on the plane");
      hv_check(dot * dot > 1e-14, "parallel lines do not intersect");
      hv_cover("hit");
    }
  else
    {
      hv_check(dot * dot <= 1e-10, "lines across the plane intersect it");
      hv_cover("parallel");
    }
}

HV_SPEC(intersection_2d)
{
  intersection<2>();
}
HV_SPEC(intersection_3d)
{
  intersection<3>();
}
