// A ghost mesh in place of the distributed mesh library. Repository headers included after this one see
// it wherever they name DoFHandler, DoFCellAccessor, Triangulation or TriangulationBase; everything
// deal.II itself declares keeps its own classes.
//   The mesh is a forest of cells; faces are numbered in deal.II's order (x-, x+, y-, y+), a neighbour is
// the cell of the same or a coarser level behind a face (possibly with children).
//   Several processes are executed one after the other: a process sees the owner of every cell, cells
// next to own ones are ghosts, all others artificial.
#pragma once
#include <hv_dealii.h>
#include <hv_fem.h>
#include <hv_mpi.h>
#include <deal.II/base/conditional_ostream.h>
#include <deal.II/base/geometry_info.h>
#include <deal.II/base/mpi.h>
#include <deal.II/base/mpi_consensus_algorithms.h>
#include <deal.II/dofs/dof_handler.h>
#include <deal.II/dofs/dof_tools.h>
#include <deal.II/fe/mapping.h>
#include <deal.II/grid/filtered_iterator.h>
#include <deal.II/grid/grid_tools.h>
#include <deal.II/grid/tria_accessor.h>
#include <deal.II/lac/block_vector_base.h>
#include <deal.II/lac/dynamic_sparsity_pattern.h>
#include <deal.II/lac/full_matrix.h>
#include <deal.II/lac/la_parallel_block_vector.h>
#include <deal.II/lac/la_parallel_vector.h>
#include <deal.II/lac/sparsity_pattern.h>
#include <deal.II/lac/sparsity_tools.h>
#include <deal.II/lac/vector.h>
#include <deal.II/lac/vector_memory.templates.h>
#include <deal.II/numerics/data_out.h>
#include <deal.II/numerics/rtree.h>
#include <deal.II/particles/data_out.h>
#include <deal.II/particles/particle_handler.h>
#include <deal.II/physics/transformations.h>
#include <array>
#include <vector>

namespace hvm
{
  struct Cell
  {
    int              parent = -1, level = 0, owner = 0;
    int              active = -1; // number of the active cell
    std::vector<int> children;
    int              neighbor[6] = {-1, -1, -1, -1, -1, -1};
    int              periodic[6] = {-1, -1, -1, -1, -1, -1};
    double           center[3] = {0, 0, 0}, size = 1, measure = 1;
    std::vector<int> dofs;
  };
  struct Mesh
  {
    std::vector<Cell> cells;
    std::vector<int>  coarse; // coarse cells
    std::vector<int>  active; // active cells
    int               n_dofs_per_cell = 1, n_dofs = 0;
  };
  static Mesh mesh;
  using hvp::n_ranks;
  using hvp::rank;

  template <int dim>
  struct Iter;
  template <int dim>
  bool adjacent(int a, int b) // active cells sharing a face
  {
    const auto below = [](int c, int p) {
      for (; c >= 0; c = mesh.cells[c].parent)
        if (c == p)
          return true;
      return false;
    };
    for (int f = 0; f < 2 * dim; ++f)
      {
        const int n = mesh.cells[a].neighbor[f], m = mesh.cells[b].neighbor[f];
        const int pn = mesh.cells[a].periodic[f], pm = mesh.cells[b].periodic[f];
        if ((n >= 0 && n == b) || (m >= 0 && m == a) || (pn >= 0 && pn == b) || (pm >= 0 && pm == a))
          return true;
        (void)below;
      }
    return false;
  }
} // namespace hvm

namespace dealii
{
  template <int dim, int spacedim = dim, bool lda = false>
  class HvDoFCellAccessor
  {
  public:
    int i = -1;
    HvDoFCellAccessor() = default;
    HvDoFCellAccessor(int i)
      : i(i)
    {}
    const hvm::Cell &c() const
    {
      return hvm::mesh.cells[i];
    }
    bool has_children() const
    {
      return !c().children.empty();
    }
    bool is_active() const
    {
      return c().children.empty();
    }
    bool is_locally_owned() const
    {
      return is_active() && c().owner == hvm::rank;
    }
    bool is_ghost() const
    {
      if (!is_active() || is_locally_owned())
        return false;
      for (const int j : hvm::mesh.active)
        if (hvm::mesh.cells[j].owner == hvm::rank && hvm::adjacent<dim>(i, j))
          return true;
      return false;
    }
    bool is_artificial() const
    {
      return is_active() && !is_locally_owned() && !is_ghost();
    }
    bool is_locally_owned_on_level() const
    {
      return c().owner == hvm::rank;
    }
    unsigned int subdomain_id() const
    {
      return c().owner;
    }
    int level() const
    {
      return c().level;
    }
    int id() const
    {
      return i;
    }
    int index() const
    {
      return i;
    }
    types::global_cell_index global_active_cell_index() const
    {
      return c().active;
    }
    unsigned int active_cell_index() const
    {
      return c().active;
    }
    struct FE
    {
      unsigned int n_dofs_per_cell() const
      {
        return hvm::mesh.n_dofs_per_cell;
      }
      const unsigned int dofs_per_cell = hvm::mesh.n_dofs_per_cell;
    };
    FE get_fe() const
    {
      return {};
    }
    auto face_indices() const
    {
      return std_cxx20::ranges::iota_view<unsigned int, unsigned int>(0u, 2u * dim);
    }
    unsigned int n_faces() const
    {
      return 2 * dim;
    }
    bool at_boundary(unsigned int f) const
    {
      return c().neighbor[f] < 0;
    }
    bool at_boundary() const
    {
      for (unsigned int f = 0; f < 2 * dim; ++f)
        if (at_boundary(f))
          return true;
      return false;
    }
    struct Face
    {
      bool boundary;
      bool at_boundary() const
      {
        return boundary;
      }
      const Face *operator->() const
      {
        return this;
      }
    };
    Face face(unsigned int f) const
    {
      return {at_boundary(f)};
    }
    int neighbor_index(unsigned int f) const
    {
      return c().neighbor[f];
    }
    int neighbor_level(unsigned int f) const
    {
      return hvm::mesh.cells[c().neighbor[f]].level;
    }
    bool neighbor_is_coarser(unsigned int f) const
    {
      return neighbor_level(f) < level();
    }
    bool periodic_neighbor_is_coarser(unsigned int f) const
    {
      return hvm::mesh.cells[c().periodic[f]].level < level();
    }
    hvm::Iter<dim> neighbor_or_periodic_neighbor(unsigned int f) const;
    bool has_periodic_neighbor(unsigned int f) const
    {
      return c().periodic[f] >= 0;
    }
    hvm::Iter<dim>              neighbor(unsigned int f) const;
    hvm::Iter<dim>              periodic_neighbor(unsigned int f) const;
    hvm::Iter<dim>              neighbor_child_on_subface(unsigned int f, unsigned int s) const;
    hvm::Iter<dim>              periodic_neighbor_child_on_subface(unsigned int f, unsigned int s) const;
    hvm::Iter<dim>              child(unsigned int k) const;
    hvm::Iter<dim>              parent() const;
    std::vector<hvm::Iter<dim>> child_iterators() const;
    unsigned int                n_children() const
    {
      return c().children.size();
    }
    Point<dim> center() const
    {
      Point<dim> p;
      for (int d = 0; d < dim; ++d)
        p[d] = c().center[d];
      return p;
    }
    Point<dim> barycenter() const
    {
      return center();
    }
    double measure() const
    {
      return c().measure;
    }
    double diameter() const
    {
      return c().size;
    }
    double minimum_vertex_distance() const
    {
      return c().size;
    }
    template <typename V>
    void get_dof_values(const V &v, Vector<double> &x) const
    {
      hv_check(x.size() == c().dofs.size(), "one number per unknown of the cell");
      for (unsigned int k = 0; k < c().dofs.size(); ++k)
        x[k] = v(c().dofs[k]);
    }
    template <typename V>
    void set_dof_values(const Vector<double> &x, V &v) const
    {
      hv_check(x.size() == c().dofs.size(), "one number per unknown of the cell");
      for (unsigned int k = 0; k < c().dofs.size(); ++k)
        v(c().dofs[k]) = x[k];
    }
    void get_dof_indices(std::vector<types::global_dof_index> &x) const
    {
      for (unsigned int k = 0; k < c().dofs.size(); ++k)
        x[k] = c().dofs[k];
    }
    bool operator==(const HvDoFCellAccessor &o) const
    {
      return i == o.i;
    }
    bool operator!=(const HvDoFCellAccessor &o) const
    {
      return i != o.i;
    }
  };
} // namespace dealii

namespace hvm
{
  // iterates over the active cells; also the handle of any cell
  template <int dim>
  struct Iter
  {
    using iterator_category = std::forward_iterator_tag;
    using value_type        = dealii::HvDoFCellAccessor<dim, dim, false>;
    using difference_type   = int;
    using pointer           = const value_type *;
    using reference         = const value_type &;
    value_type              a;
    Iter(int i = -1)
      : a(i)
    {}
    const value_type &operator*() const
    {
      return a;
    }
    const value_type *operator->() const
    {
      return &a;
    }
    Iter &operator++()
    {
      const unsigned int n = mesh.cells[a.i].active + 1;
      a.i                  = n < mesh.active.size() ? mesh.active[n] : -1;
      return *this;
    }
    Iter operator++(int)
    {
      const Iter old = *this;
      ++*this;
      return old;
    }
    bool operator==(const Iter &o) const
    {
      return a.i == o.a.i;
    }
    bool operator!=(const Iter &o) const
    {
      return a.i != o.a.i;
    }
    bool operator<(const Iter &o) const
    {
      return a.i < o.a.i;
    }
  };
  // a range of cells yields handles of cells, as the library does
  template <int dim>
  struct Position
  {
    Iter<dim>  i;
    Iter<dim> &operator*()
    {
      return i;
    }
    Position &operator++()
    {
      ++i;
      return *this;
    }
    bool operator!=(const Position &o) const
    {
      return i != o.i;
    }
    bool operator==(const Position &o) const
    {
      return i == o.i;
    }
  };
  template <int dim>
  struct Range
  {
    Position<dim> begin() const
    {
      return {Iter<dim>(mesh.active.empty() ? -1 : mesh.active[0])};
    }
    Position<dim> end() const
    {
      return {Iter<dim>(-1)};
    }
  };
  // children of c that touch its neighbour behind face f: those on the side of the face
  template <int dim>
  int on_face(int c, int f, int s)
  {
    int k = 0;
    for (unsigned int j = 0; j < mesh.cells[c].children.size(); ++j)
      if (((j >> (f / 2)) & 1) == (unsigned)(f % 2))
        if (k++ == s)
          return mesh.cells[c].children[j];
    return -1;
  }
} // namespace hvm

namespace dealii
{
  template <int dim, int s, bool l>
  hvm::Iter<dim> HvDoFCellAccessor<dim, s, l>::neighbor(unsigned int f) const
  {
    return hvm::Iter<dim>(c().neighbor[f]);
  }
  template <int dim, int s, bool l>
  hvm::Iter<dim> HvDoFCellAccessor<dim, s, l>::neighbor_or_periodic_neighbor(unsigned int f) const
  {
    return hvm::Iter<dim>(has_periodic_neighbor(f) ? c().periodic[f] : c().neighbor[f]);
  }
  template <int dim, int s, bool l>
  hvm::Iter<dim> HvDoFCellAccessor<dim, s, l>::periodic_neighbor(unsigned int f) const
  {
    return hvm::Iter<dim>(c().periodic[f]);
  }
  template <int dim, int s, bool l>
  hvm::Iter<dim> HvDoFCellAccessor<dim, s, l>::neighbor_child_on_subface(unsigned int f, unsigned int k) const
  {
    return hvm::Iter<dim>(hvm::on_face<dim>(c().neighbor[f], f ^ 1, k));
  }
  template <int dim, int s, bool l>
  hvm::Iter<dim> HvDoFCellAccessor<dim, s, l>::periodic_neighbor_child_on_subface(unsigned int f, unsigned int k) const
  {
    return hvm::Iter<dim>(hvm::on_face<dim>(c().periodic[f], f ^ 1, k));
  }
  template <int dim, int s, bool l>
  hvm::Iter<dim> HvDoFCellAccessor<dim, s, l>::child(unsigned int k) const
  {
    return hvm::Iter<dim>(c().children[k]);
  }
  template <int dim, int s, bool l>
  hvm::Iter<dim> HvDoFCellAccessor<dim, s, l>::parent() const
  {
    return hvm::Iter<dim>(c().parent);
  }
  template <int dim, int s, bool l>
  std::vector<hvm::Iter<dim>> HvDoFCellAccessor<dim, s, l>::child_iterators() const
  {
    std::vector<hvm::Iter<dim>> r;
    for (const int j : c().children)
      r.push_back(hvm::Iter<dim>(j));
    return r;
  }
  template <int dim, int spacedim = dim>
  class HvTriangulation
  {
  public:
    HvTriangulation() = default;
    explicit HvTriangulation(const MPI_Comm) {}
    using cell_iterator        = hvm::Iter<dim>;
    using active_cell_iterator = hvm::Iter<dim>;
    hvm::Range<dim> active_cell_iterators() const
    {
      return {};
    }
    hvm::Iter<dim> begin_active() const
    {
      return hvm::Iter<dim>(hvm::mesh.active.empty() ? -1 : hvm::mesh.active[0]);
    }
    hvm::Iter<dim> end() const
    {
      return hvm::Iter<dim>(-1);
    }
    unsigned int n_locally_owned_active_cells() const
    {
      unsigned int n = 0;
      for (const int i : hvm::mesh.active)
        n += hvm::mesh.cells[i].owner == hvm::rank;
      return n;
    }
    unsigned int n_levels() const
    {
      int l = 0;
      for (const auto &c : hvm::mesh.cells)
        l = std::max(l, c.level);
      return l + 1;
    }
    unsigned int n_global_levels() const
    {
      return n_levels();
    }
    unsigned int n_active_cells() const
    {
      return hvm::mesh.active.size();
    }
    types::global_cell_index n_global_active_cells() const
    {
      return hvm::mesh.active.size();
    }
    std::weak_ptr<const Utilities::MPI::Partitioner> global_active_cell_index_partitioner() const
    {
      return {};
    }
    MPI_Comm get_mpi_communicator() const
    {
      return MPI_COMM_SELF;
    }
    MPI_Comm get_communicator() const
    {
      return MPI_COMM_SELF;
    }
  };
  template <int dim, int spacedim = dim>
  class HvDoFHandler
  {
  public:
    using cell_iterator        = hvm::Iter<dim>;
    using active_cell_iterator = hvm::Iter<dim>;
    HvTriangulation<dim, spacedim> tria;
    hvm::Range<dim> active_cell_iterators() const
    {
      return {};
    }
    hvm::Iter<dim> end() const
    {
      return hvm::Iter<dim>(-1);
    }
    hvm::Iter<dim> begin_active() const
    {
      return tria.begin_active();
    }
    hvm::Iter<dim> begin_active(unsigned int l) const
    {
      for (const int i : hvm::mesh.active)
        if (hvm::mesh.cells[i].level == (int)l)
          return hvm::Iter<dim>(i);
      return hvm::Iter<dim>(-1);
    }
    typename HvDoFCellAccessor<dim>::FE get_fe(unsigned int = 0) const
    {
      return {};
    }
    const HvTriangulation<dim, spacedim> &get_triangulation() const
    {
      return tria;
    }
    MPI_Comm get_mpi_communicator() const
    {
      return MPI_COMM_SELF;
    }
    MPI_Comm get_communicator() const
    {
      return MPI_COMM_SELF;
    }
    types::global_dof_index n_dofs() const
    {
      return hvm::mesh.n_dofs;
    }
    const IndexSet &locally_owned_dofs() const
    {
      static IndexSet s;
      return s;
    }
  };
  namespace parallel
  {
    template <int dim, int spacedim = dim>
    using HvTriangulationBase = HvTriangulation<dim, spacedim>;
    namespace distributed
    {
      template <int dim, int spacedim = dim>
      using HvTriangulation = dealii::HvTriangulation<dim, spacedim>;
    }
    namespace shared
    {
      template <int dim, int spacedim = dim>
      using HvTriangulation = dealii::HvTriangulation<dim, spacedim>;
    }
  }
  namespace DoFTools
  {
    template <int dim>
    IndexSet extract_locally_relevant_dofs(const HvDoFHandler<dim> &)
    {
      return {};
    }
  } // namespace DoFTools
} // namespace dealii

#ifdef HV_DISTRIBUTED
// vectors with one entry per active cell, spread over the processes as the cells are: numbers of cells ascend with
// their owner
namespace hvm
{
  inline bool readable(dealii::types::global_dof_index i)
  {
    const dealii::HvDoFCellAccessor<2> c(mesh.active[i]);
    return c.is_locally_owned() || c.is_ghost();
  }
  inline unsigned int process()
  {
    return rank;
  }
  using CellVector = dealii::LinearAlgebra::distributed::Vector<double>;
  inline void collect(std::vector<double> &v)
  {
    const auto a = hvp::exchange<std::vector<double>>(hvp::k_ghosts, v);
    for (unsigned int i = 0; i < v.size(); ++i)
      v[i] = (*a[mesh.cells[mesh.active[i]].owner])[i];
  }
  // process r owns n_cells[r] cells
  inline void distribute(const std::vector<int> &n_cells)
  {
    unsigned int k = 0;
    for (unsigned int r = 0; r < n_cells.size(); ++r)
      {
        CellVector::first[r] = k;
        for (int i = 0; i < n_cells[r]; ++i, ++k)
          mesh.cells[mesh.active[k]].owner = r;
      }
    CellVector::first[n_cells.size()] = k;
    hv_check(k == mesh.active.size(), "every cell has an owner");
    CellVector::partitioned_size = k;
    CellVector::readable         = &readable;
    CellVector::rank             = &process;
    CellVector::collect          = &collect;
  }
  // nx times ny coarse cells of size 2, some of them refined
  inline void grid(const int nx, const int ny, const std::vector<int> refined = {}, const bool periodic_x = false, const int n_dofs = 1)
  {
    mesh                 = Mesh();
    mesh.n_dofs_per_cell = n_dofs;
    for (int y = 0; y < ny; ++y)
      for (int x = 0; x < nx; ++x)
        {
          Cell c;
          const int i   = mesh.cells.size();
          c.neighbor[0] = x > 0 ? i - 1 : -1;
          c.neighbor[1] = x + 1 < nx ? i + 1 : -1;
          c.neighbor[2] = y > 0 ? i - nx : -1;
          c.neighbor[3] = y + 1 < ny ? i + nx : -1;
          if (periodic_x && x == 0)
            c.periodic[0] = i + nx - 1;
          if (periodic_x && x + 1 == nx)
            c.periodic[1] = i - nx + 1;
          c.center[0] = 2 * x + 1;
          c.center[1] = 2 * y + 1;
          c.size      = 2;
          c.measure   = 4;
          mesh.coarse.push_back(i);
          mesh.cells.push_back(c);
        }
    for (const int i : refined)
      for (int k = 0; k < 4; ++k)
        {
          Cell      c;
          const int j = mesh.cells.size();
          c.parent    = i;
          c.level     = 1;
          c.size      = 1;
          c.measure   = 1;
          c.center[0] = mesh.cells[i].center[0] + (k % 2 == 0 ? -0.5 : 0.5);
          c.center[1] = mesh.cells[i].center[1] + (k / 2 == 0 ? -0.5 : 0.5);
          mesh.cells[i].children.push_back(j);
          mesh.cells.push_back(c);
        }
    for (const int i : refined)
      for (int k = 0; k < 4; ++k)
        for (int f = 0; f < 4; ++f)
          {
            const int d = f / 2, other = k ^ (1 << d);
            Cell     &c = mesh.cells[mesh.cells[i].children[k]];
            // on the side of the face: outside the parent
            const bool outside = ((k >> d) & 1) == f % 2;
            const auto across  = [&](const int n) {
              return n >= 0 && !mesh.cells[n].children.empty() ? mesh.cells[n].children[other] : n;
            };
            c.neighbor[f] = outside ? across(mesh.cells[i].neighbor[f]) : mesh.cells[i].children[other];
            c.periodic[f] = outside ? across(mesh.cells[i].periodic[f]) : -1;
          }
    const auto add = [&](const int i) {
      Cell &c  = mesh.cells[i];
      c.active = mesh.active.size();
      for (int k = 0; k < n_dofs; ++k)
        c.dofs.push_back(mesh.n_dofs++);
      mesh.active.push_back(i);
    };
    for (const int i : mesh.coarse)
      if (mesh.cells[i].children.empty())
        add(i);
      else
        for (const int j : mesh.cells[i].children)
          add(j);
  }
  // active cells a and b share a (periodic) face; coordinates decide
  inline bool touch(const int a, const int b, const double period_x = 0)
  {
    const Cell &s = mesh.cells[mesh.active[a]], &t = mesh.cells[mesh.active[b]];
    const double h = (s.size + t.size) / 2;
    double       x = s.center[0] - t.center[0], y = s.center[1] - t.center[1];
    x = x < 0 ? -x : x;
    y = y < 0 ? -y : y;
    if (period_x > 0)
      x = period_x - x;
    return (x == h && y < h) || (y == h && x < h && period_x == 0);
  }
} // namespace hvm
#endif

#ifdef HV_SYMBOLIC
namespace dealii
{
  ConditionalOStream::ConditionalOStream(std::ostream &s, const bool)
    : output_stream(s)
    , active_flag(false)
  {}
} // namespace dealii
// vectors of the numbers of a cell: library contract (the compiled runs use the library itself)
namespace dealii
{
  template <> void Vector<double>::reinit(const size_type n, const bool)
  {
    values.resize(0);
    values.resize(n, 0.);
  }
  namespace Utilities
  {
    namespace MPI
    {
      Partitioner::Partitioner(const IndexSet &, const IndexSet &, const MPI_Comm) {}
      void Partitioner::reinit(const IndexSet &, const IndexSet &, const MPI_Comm) {}
    } // namespace MPI
  }   // namespace Utilities
  template <> Vector<double> &Vector<double>::operator=(const double s)
  {
    for (size_type i = 0; i < values.size(); ++i)
      values[i] = s;
    return *this;
  }
  template <> Vector<double> &Vector<double>::operator=(const Vector<double> &o)
  {
    values = o.values;
    return *this;
  }
  template <> Vector<double> &Vector<double>::operator+=(const Vector<double> &o)
  {
    for (size_type i = 0; i < values.size(); ++i)
      values[i] += o.values[i];
    return *this;
  }
  template <> Vector<double> &Vector<double>::operator-=(const Vector<double> &o)
  {
    for (size_type i = 0; i < values.size(); ++i)
      values[i] -= o.values[i];
    return *this;
  }
  template <> Vector<double> &Vector<double>::operator*=(const double s)
  {
    for (size_type i = 0; i < values.size(); ++i)
      values[i] *= s;
    return *this;
  }
  template <> Vector<double> &Vector<double>::operator/=(const double s)
  {
    for (size_type i = 0; i < values.size(); ++i)
      values[i] /= s;
    return *this;
  }
  template <> void Vector<double>::add(const double a, const Vector<double> &o)
  {
    for (size_type i = 0; i < values.size(); ++i)
      values[i] += a * o.values[i];
  }
  template <> void Vector<double>::scale(const Vector<double> &o)
  {
    for (size_type i = 0; i < values.size(); ++i)
      values[i] *= o.values[i];
  }
  template <> Vector<double>::Vector(const Vector<double> &o)
    : Subscriptor()
    , values(o.values)
  {}
} // namespace dealii
#endif
#ifdef HV_SYMBOLIC
// the text of messages is of no interest
#include <iomanip>
#include <iostream>
#include <sstream>
#include <boost/archive/text_iarchive.hpp>
namespace std
{
  struct hv_ostringstream
  {
    template <typename T>
    hv_ostringstream &operator<<(const T &)
    {
      return *this;
    }
    hv_ostringstream &operator<<(std::ostream &(*)(std::ostream &))
    {
      return *this;
    }
    std::string str() const
    {
      return std::string();
    }
  };
} // namespace std
#  define ostringstream hv_ostringstream
#endif
#define DoFHandler HvDoFHandler
#define DoFCellAccessor HvDoFCellAccessor
#define Triangulation HvTriangulation
#define TriangulationBase HvTriangulationBase
#include <hv_mpi_names.h>
