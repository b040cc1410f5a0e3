// Stand-ins for deal.II's contour extraction (after hv_mesh.h): the facets in a cell are whatever the specification
// says; a facet mesh consists of exactly the facets it is created from; the reference coordinates of a point are its
// real ones; an element with two unknowns is linear in the first coordinate.
#pragma once
#include <pf-applications/lac/dynamic_block_vector.h>
#include <map>
namespace hvm
{
  struct Facet
  {
    dealii::Point<2> vertex[2];
    // any function of the vertices can stand for the measure
    double measure() const { return (vertex[1] - vertex[0]) * (vertex[1] - vertex[0]); }
  };
  static std::map<std::pair<const void *, int>, std::vector<Facet>> contour; // of a field in an active cell
  static double                                                     contour_level;
  struct FacetAccessor
  {
    const Facet *f;
    bool             is_locally_owned() const { return true; }
    dealii::Point<2> center() const { return dealii::Point<2>((f->vertex[0] + f->vertex[1]) / 2.); }
    double           measure() const { return f->measure(); }
  };
  struct FacetIter
  {
    FacetAccessor        a;
    const FacetIter     &operator*() const { return *this; }
    const FacetAccessor *operator->() const { return &a; }
    FacetIter           &operator++()
    {
      ++a.f;
      return *this;
    }
    bool operator!=(const FacetIter &o) const { return a.f != o.a.f; }
  };
  struct FacetRange
  {
    const std::vector<Facet> &f;
    FacetIter                 begin() const { return {{f.data()}}; }
    FacetIter                 end() const { return {{f.data() + f.size()}}; }
  };
} // namespace hvm
namespace dealii
{
  template <>
  class HvTriangulation<1, 2>
  {
  public:
    std::vector<hvm::Facet> facets;
    void create_triangulation(const std::vector<Point<2>> &v, const std::vector<CellData<1>> &cells, const SubCellData &)
    {
      hv_check(facets.empty(), "a facet mesh is created once");
      hv_check(!cells.empty(), "a facet mesh needs facets");
      for (const auto &c : cells)
        {
          hvm::Facet f;
          hv_check_ieq(c.vertices.size(), 2, "two vertices per facet");
          for (int k = 0; k < 2; ++k)
            {
              hv_check(c.vertices[k] < v.size(), "facets refer to vertices of the mesh");
              f.vertex[k] = v[c.vertices[k]];
            }
          facets.push_back(f);
        }
    }
    hvm::FacetRange active_cell_iterators() const { return {facets}; }
  };
  template <int dim, int spacedim = dim>
  class HvMapping
  {
  public:
    void transform_points_real_to_unit_cell(const hvm::Iter<dim> &, const std::vector<Point<dim>> &real, std::vector<Point<dim>> &unit) const
    {
      hv_check_ieq(unit.size(), real.size(), "one reference point per point");
      for (unsigned int i = 0; i < real.size(); ++i)
        unit[i] = real[i];
    }
  };
  template <int n_components, int dim, int spacedim = dim, typename Number = double>
  class HvFEPointEvaluation
  {
  public:
    std::vector<Point<dim>> p;
    std::vector<double>     v;
    template <typename FE>
    HvFEPointEvaluation(const HvMapping<dim> &, const FE &, const UpdateFlags)
    {}
    void reinit(const hvm::Iter<dim> &, const std::vector<Point<dim>> &x) { p = x; }
    template <typename View>
    void evaluate(const View &x, const EvaluationFlags::EvaluationFlags)
    {
      v.clear();
      hv_check_ieq(x.size(), 2, "an element with two unknowns");
      for (const auto &q : p)
        v.push_back(x[0] * (1 - q[0]) + x[1] * q[0]);
    }
    double get_value(const unsigned int i) const { return v[i]; }
  };
  namespace GridTools
  {
    template <int dim, typename V>
    class HvMarchingCubeAlgorithm
    {
    public:
      template <typename FE>
      HvMarchingCubeAlgorithm(const HvMapping<dim> &, const FE &, const unsigned int, const double)
      {}
      template <typename F>
      void process_cell(const hvm::Iter<dim> &cell, const V &v, const double level, std::vector<Point<dim>> &vertices, std::vector<F> &cells) const
      {
        hv_check_eq(level, hvm::contour_level, "contours are extracted at the level requested");
        hv_check(cell->is_locally_owned(), "contours are extracted in own cells");
        for (const auto &f : hvm::contour[{&v, cell->active_cell_index()}])
          {
            F c;
            c.vertices.resize(2);
            for (int k = 0; k < 2; ++k)
              {
                c.vertices[k] = vertices.size();
                vertices.push_back(f.vertex[k]);
              }
            cells.push_back(c);
          }
      }
    };
  } // namespace GridTools
  // coarsening of the background mesh is not covered
  inline void
  coarsen_triangulation(HvTriangulation<2> &, const HvDoFHandler<2> &, HvDoFHandler<2> &, const LinearAlgebra::distributed::DynamicBlockVector<double> &,
                        LinearAlgebra::distributed::DynamicBlockVector<double> &, const unsigned int)
  {
    hv_check(false, "coarsening is not used for areas");
  }
  template <int dim, typename Number>
  class BoundingBoxFilter;
  inline void
  filter_mesh_withing_bounding_box(const HvDoFHandler<2> &, LinearAlgebra::distributed::DynamicBlockVector<double> &, const double,
                                   const std::shared_ptr<const BoundingBoxFilter<2, double>> &)
  {
    hv_check(false, "the field is not restricted for areas");
  }
} // namespace dealii
#ifdef HV_SYMBOLIC
namespace dealii
{
  template <>
  CellData<1>::CellData(const unsigned int n)
    : vertices(n, numbers::invalid_unsigned_int)
    , material_id(0)
    , manifold_id(numbers::flat_manifold_id)
  {}
  template <>
  Vector<double>::real_type Vector<double>::linfty_norm() const
  {
    double r = 0;
    for (size_type i = 0; i < size(); ++i)
      r = std::max(r, std::abs((*this)(i)));
    return r;
  }
  template <>
  double BoundingBox<2, double>::lower_bound(const unsigned int d) const
  {
    return boundary_points.first[d];
  }
  template <>
  double BoundingBox<2, double>::upper_bound(const unsigned int d) const
  {
    return boundary_points.second[d];
  }
  template <>
  bool BoundingBox<2, double>::point_inside(const Point<2> &p, const double tolerance) const
  {
    bool inside = true;
    for (int d = 0; d < 2; ++d)
      {
        const double t = tolerance * (boundary_points.second[d] - boundary_points.first[d]);
        inside &= (p[d] >= boundary_points.first[d] - t) & (p[d] <= boundary_points.second[d] + t);
      }
    return inside;
  }
} // namespace dealii
#endif
#define Mapping HvMapping
#define FEPointEvaluation HvFEPointEvaluation
#define MarchingCubeAlgorithm HvMarchingCubeAlgorithm
