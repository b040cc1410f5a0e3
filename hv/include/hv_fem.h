// Stand-ins (assumed contracts) for the deal.II classes the operators are written against.
//
// Every finite element operator evaluates its input by a linear map E (values and gradients at
// the integration points), applies a pointwise function and tests with the transposed map.  The
// stand-in element uses E = identity: a cell has one degree of freedom per value and per gradient
// component at each integration point.  Whatever holds for this element at the integration points
// holds for any element, since R(u) = E^T r(E u) and J = E^T j E.
// The vector stand-in is the plain mathematical vector with a recorded ghost state.
#pragma once
#include <hv.h>
#include <deal.II/lac/la_parallel_vector.h>
#include <deal.II/lac/vector.h>
#include <deal.II/lac/vector_operation.h>
#include <deal.II/base/partitioner.h>
#include <deal.II/matrix_free/evaluation_flags.h>
#include <cmath>
#include <functional>
#include <vector>

namespace hv
{
  static int n_cells = 1;
  static int n_q     = 2;
  static int n_lanes_filled = 1;
  static std::vector<unsigned int> constrained;
} // namespace hv

namespace dealii
{
#ifdef HV_MATRICES
  namespace Utilities
  {
    namespace MPI
    {
      // of the system: only the size it gives to vectors matters
      struct HvPartitioner
      {
        HvPartitioner(const IndexSet &, const IndexSet &, MPI_Comm) {}
      };
    } // namespace MPI
  } // namespace Utilities
#endif
  namespace LinearAlgebra
  {
    namespace distributed
    {
      template <>
      class Vector<double, MemorySpace::Host>
      {
      public:
        using value_type = double;
        using size_type  = types::global_dof_index;
        using real_type  = double;
        using reference = double &;
        using const_reference = const double &;
        using pointer = double *;
        using const_pointer = const double *;
        using iterator = double *;
        using const_iterator = const double *;
        std::vector<double> v;
        mutable bool        ghosted = false;

        Vector() = default;
        explicit Vector(size_type n) : v(n, 0.) {}
#ifdef HV_DISTRIBUTED
        // vectors set up from a partitioner are spread over the processes: a process owns the entries
        // first[rank] ... first[rank + 1] - 1, may read those `readable` says and sees others as zero or,
        // after update_ghost_values, as their owner has them
        bool spread = false;
        static inline unsigned int first[6];
        static inline bool (*readable)(size_type)                      = nullptr;
        static inline unsigned int (*rank)()                           = nullptr;
        static inline void (*collect)(std::vector<double> &everything) = nullptr;
        Vector(const Vector &o) : v(o.v), spread(o.spread) {}
#else
        Vector(const Vector &o) : v(o.v) {}
#endif
        explicit Vector(const std::shared_ptr<const Utilities::MPI::Partitioner> &p) { reinit(p); }
#ifdef HV_DISTRIBUTED
        Vector &operator=(const Vector &o) { v = o.v; spread = o.spread; return *this; }
        Vector &operator=(double s)
        {
          for (double *x = begin(); x != end(); ++x)
            *x = s;
          if (s == 0)
            zero_out_ghost_values();
          return *this;
        }
#else
        Vector &operator=(const Vector &o) { v = o.v; return *this; }
        Vector &operator=(double s) { for (auto &x : v) x = s; return *this; }
#endif
        void reinit(const Vector &o, bool omit = false)
        {
          v.resize(o.v.size());
          if (!omit)
            for (auto &x : v)
              x = 0;
          ghosted = false;
#ifdef HV_DISTRIBUTED
          spread = o.spread;
#endif
        }
        void reinit(size_type n, bool omit = false)
        {
          v.resize(n);
          if (!omit)
            for (auto &x : v)
              x = 0;
          ghosted = false;
#ifdef HV_DISTRIBUTED
          spread = false;
#endif
        }
        static inline size_type partitioned_size = 0; // size given by every partitioner
        void reinit(const std::shared_ptr<const Utilities::MPI::Partitioner> &, bool = false)
        {
          v.assign(partitioned_size, 0.);
          ghosted = false;
#ifdef HV_DISTRIBUTED
          spread = true;
#endif
        }
#ifdef HV_MATRICES
        void reinit(const std::shared_ptr<const Utilities::MPI::HvPartitioner> &, bool = false) { v.assign(partitioned_size, 0.); }
        void reinit(const std::shared_ptr<Utilities::MPI::HvPartitioner> &, bool = false) { v.assign(partitioned_size, 0.); }
#endif
        void swap(Vector &o)
        {
          v.swap(o.v);
          std::swap(ghosted, o.ghosted);
#ifdef HV_DISTRIBUTED
          std::swap(spread, o.spread);
#endif
        }
        size_type size() const { return v.size(); }
#ifdef HV_DISTRIBUTED
        size_type locally_owned_size() const { return end() - begin(); }
        double *begin() { return v.data() + (spread ? first[rank()] : 0); }
        double *end() { return spread ? v.data() + first[rank() + 1] : v.data() + v.size(); }
        const double *begin() const { return v.data() + (spread ? first[rank()] : 0); }
        const double *end() const { return spread ? v.data() + first[rank() + 1] : v.data() + v.size(); }
        void look(size_type i) const
        {
          hv_check(i < v.size(), "entries of the vector only");
          if (spread)
            hv_check(readable(i), "only own entries and those next to them are used");
        }
        double operator()(size_type i) const { look(i); return v[i]; }
        double &operator()(size_type i) { look(i); return v[i]; }
        double operator[](size_type i) const { look(i); return v[i]; }
        double &operator[](size_type i) { look(i); return v[i]; }
        void update_ghost_values() const
        {
          ghosted = true;
          if (!spread)
            return;
          std::vector<double> all = v;
          collect(all);
          for (size_type i = 0; i < v.size(); ++i)
            if (i < first[rank()] || i >= first[rank() + 1])
              const_cast<Vector *>(this)->v[i] = readable(i) ? all[i] : 0.;
        }
        void zero_out_ghost_values() const
        {
          ghosted = false;
          if (spread)
            for (size_type i = 0; i < v.size(); ++i)
              if (i < first[rank()] || i >= first[rank() + 1])
                const_cast<Vector *>(this)->v[i] = 0.;
        }
#else
        size_type locally_owned_size() const { return v.size(); }
        double *begin() { return v.data(); }
        double *end() { return v.data() + v.size(); }
        const double *begin() const { return v.data(); }
        const double *end() const { return v.data() + v.size(); }
        double operator()(size_type i) const { return v[i]; }
        double &operator()(size_type i) { return v[i]; }
        double operator[](size_type i) const { return v[i]; }
        double &operator[](size_type i) { return v[i]; }
        void update_ghost_values() const { ghosted = true; }
        void zero_out_ghost_values() const { ghosted = false; }
#endif
        double local_element(size_type i) const { return v[i]; }
        double &local_element(size_type i) { return v[i]; }
        bool has_ghost_elements() const { return ghosted; }
        void set_ghost_state(bool g) const { ghosted = g; }
        void compress(VectorOperation::values) {}
        void copy_locally_owned_data_from(const Vector &o) { v = o.v; }
#ifdef HV_PARTITIONER
        // only the range of locally owned entries of a partitioner is used
        std::shared_ptr<const Utilities::MPI::Partitioner> get_partitioner() const
        {
          static std::uint64_t buffer[8][sizeof(Utilities::MPI::Partitioner) / 8 + 1];
          static int           next = 0;
          auto                *p    = reinterpret_cast<Utilities::MPI::Partitioner *>(buffer[next]);
          next                      = (next + 1) % 8;
          p->local_range_data       = {0, v.size()};
          return std::shared_ptr<const Utilities::MPI::Partitioner>(std::shared_ptr<int>(), p);
        }
#else
        const std::shared_ptr<const Utilities::MPI::Partitioner> &get_partitioner() const
        {
          static std::shared_ptr<const Utilities::MPI::Partitioner> p;
          return p;
        }
#endif
        MPI_Comm get_mpi_communicator() const { return MPI_COMM_SELF; }
        IndexSet locally_owned_elements() const { return IndexSet(v.size()); }
        double l2_norm() const
        {
          double s = 0;
          for (double x : v)
            s += x * x;
          return std::sqrt(s);
        }
        double norm_sqr() const
        {
          double s = 0;
          for (double x : v)
            s += x * x;
          return s;
        }
        double l1_norm() const
        {
          double s = 0;
          for (double x : v)
            s += std::fabs(x);
          return s;
        }
        double linfty_norm() const
        {
          double s = 0;
          for (double x : v)
            s = std::max(s, std::fabs(x));
          return s;
        }
        double mean_value() const
        {
          double s = 0;
          for (double x : v)
            s += x;
          return s / v.size();
        }
        bool all_zero() const { return linfty_norm() == 0; }
        void add(double a) { for (auto &x : v) x += a; }
        void add(double a, const Vector &o) { for (std::size_t i = 0; i < v.size(); ++i) v[i] += a * o.v[i]; }
        void add(double a, const Vector &o, double b, const Vector &w)
        {
          for (std::size_t i = 0; i < v.size(); ++i)
            v[i] += a * o.v[i] + b * w.v[i];
        }
        void sadd(double s, const Vector &o) { for (std::size_t i = 0; i < v.size(); ++i) v[i] = s * v[i] + o.v[i]; }
        void sadd(double s, double a, const Vector &o) { for (std::size_t i = 0; i < v.size(); ++i) v[i] = s * v[i] + a * o.v[i]; }
        void scale(const Vector &o) { for (std::size_t i = 0; i < v.size(); ++i) v[i] *= o.v[i]; }
        void equ(double a, const Vector &o) { for (std::size_t i = 0; i < v.size(); ++i) v[i] = a * o.v[i]; }
        Vector &operator*=(double s) { for (auto &x : v) x *= s; return *this; }
        Vector &operator/=(double s) { for (auto &x : v) x /= s; return *this; }
        Vector &operator+=(const Vector &o) { for (std::size_t i = 0; i < v.size(); ++i) v[i] += o.v[i]; return *this; }
        Vector &operator-=(const Vector &o) { for (std::size_t i = 0; i < v.size(); ++i) v[i] -= o.v[i]; return *this; }
        double operator*(const Vector &o) const
        {
          double s = 0;
          for (std::size_t i = 0; i < v.size(); ++i)
            s += v[i] * o.v[i];
          return s;
        }
        double add_and_dot(double a, const Vector &o, const Vector &w)
        {
          add(a, o);
          return *this * w;
        }
        std::size_t memory_consumption() const { return 0; }
      };
    } // namespace distributed
  } // namespace LinearAlgebra

  // the cell vector of degrees of freedom is dealii::Vector<double>; its out-of-line members
  // that the code uses are given here
} // namespace dealii

#include <deal.II/base/point.h>
#include <deal.II/base/tensor.h>
#include <hv_lanes.h>
#include <deal.II/matrix_free/fe_evaluation.h>
#include <deal.II/matrix_free/matrix_free.h>
#include <array>
#include <memory>
#include <type_traits>

#ifndef HV_NQ
#  define HV_NQ 2
#endif
// number of the i-th unknown of a cell
#ifndef HV_INDEX
#  define HV_INDEX(cell, i, dofs) ((cell) * (dofs) + (i))
#endif

namespace hv
{
  // one cell batch with one lane per cell
  constexpr unsigned int NQ = HV_NQ;
  static std::vector<std::array<std::array<double, 3>, NQ>> points;  // per cell
  static std::vector<std::array<double, NQ>>                weights; // per cell, one if empty

  static std::vector<double>                                diameters; // per cell

  struct Fe
  {
    unsigned int comps = 1, dofs = 0;
    unsigned int n_components() const { return comps; }
    unsigned int n_dofs_per_cell() const { return dofs; }
  };
  struct Cells
  {
    unsigned int n = 1;
    unsigned int n_active_cells() const { return n; }
  };
  struct Dofs
  {
    Fe                           fe;
    Cells                        cells;
    const Cells                 &get_triangulation() const { return cells; }
    const Fe                    &get_fe() const { return fe; }
    MPI_Comm                     get_mpi_communicator() const { return MPI_COMM_SELF; }
    dealii::types::global_dof_index n_dofs() const { return 0; }
#ifdef HV_MATRICES
    dealii::IndexSet                locally_owned_dofs() const { return {}; }
#endif
  };
#ifdef HV_MATRICES
  // a process owns the unknowns `offset` ... of all processes
  static unsigned int offset = 0;
  struct Part
  {
    unsigned int n = 0;
    struct Range : public std::vector<dealii::types::global_dof_index>
    {
      dealii::IndexSet tensor_product(const dealii::IndexSet &) const { return {}; }
    };
    Range locally_owned_range() const
    {
      Range r;
      for (unsigned int i = 0; i < n; ++i)
        r.push_back(offset + i);
      return r;
    }
    Range                           ghost_indices() const { return {}; }
    MPI_Comm                        get_mpi_communicator() const { return MPI_COMM_SELF; }
    dealii::types::global_dof_index local_to_global(unsigned int i) const { return offset + i; }
    unsigned int                    global_to_local(dealii::types::global_dof_index i) const { return i - offset; }
  };
  struct ShapeInfo
  {
    std::vector<unsigned int> lexicographic_numbering;
  };
#endif
  struct Quad
  {
    unsigned int size() const { return NQ; }
  };
  struct Cell
  {
    unsigned int cell, dofs;
    // the values of a field on this cell
    template <typename V, typename W>
    void
    get_dof_values(const V &v, W &values) const
    {
      for (unsigned int i = 0; i < dofs; ++i)
        values[i] = v(cell * dofs + i);
    }
#ifdef HV_MATRICES
    // the i-th unknown of the matrix-free loops is number numbering(i) of the cell
    template <typename V>
    void
    get_dof_indices(V &indices) const
    {
      for (unsigned int i = 0; i < dofs; ++i)
        indices[(i + 1) % dofs] = offset + HV_INDEX(cell, i, dofs);
    }
    template <typename V>
    void
    get_mg_dof_indices(V &indices) const
    {
      get_dof_indices(indices);
    }
#endif
    unsigned int global_active_cell_index() const { return cell; }
    unsigned int active_cell_index() const { return cell; }
    double       diameter() const { return diameters[cell]; }
    const Cell  *operator->() const { return this; }
  };
} // namespace hv

namespace dealii
{
  template <int dim>
  class MatrixFree<dim, double, VectorizedArray<double, HV_LANES>>
  {
  public:
    using VA         = VectorizedArray<double, HV_LANES>;
    using value_type = double;
    using vectorized_value_type = VA;
    static constexpr unsigned int dimension = dim;
    static constexpr unsigned int dofs = hv::NQ * (1 + dim);
    unsigned int              cells = 1;
    mutable hv::Dofs          dh;
    hv::Quad                  quad;
    std::vector<unsigned int> constrained;
    // only for the on-the-fly gradient, which is compiled but not reached here
    struct MapData
    {
      std::vector<unsigned int>                                     data_index_offsets;
      std::array<AlignedVector<Tensor<2, dim, VectorizedArray<double, HV_LANES>>>, 1> jacobians;
    };
    struct MapInfo
    {
      std::vector<MapData> cell_data;
    };
    MapInfo        map_info;
    const MapInfo &get_mapping_info() const { return map_info; }
    MatrixFree(unsigned int c = 1)
      : cells(c)
    {
      dh.fe.dofs = dofs;
#ifdef HV_MATRICES
      for (unsigned int i = 0; i < dofs; ++i)
        shape.lexicographic_numbering.push_back((i + 1) % dofs);
#endif
      dh.cells.n = c;
    }
    unsigned int n_cell_batches() const { return (cells + HV_LANES - 1) / HV_LANES; }
    unsigned int n_physical_cells() const { return cells; }
    unsigned int n_active_entries_per_cell_batch(unsigned int b) const { return std::min<unsigned int>(HV_LANES, cells - b * HV_LANES); }
    const hv::Dofs &get_dof_handler(unsigned int = 0) const { return dh; }
    const hv::Quad &get_quadrature() const { return quad; }
    hv::Cell get_cell_iterator(unsigned int cell, unsigned int lane, unsigned int = 0) const { return hv::Cell{cell * HV_LANES + lane, dofs}; }
    const std::vector<unsigned int> &get_constrained_dofs(unsigned int = 0) const { return constrained; }
#ifdef HV_MATRICES
    hv::ShapeInfo shape;
    std::shared_ptr<const hv::Part> get_vector_partitioner(unsigned int = 0) const
    {
      auto p = std::make_shared<hv::Part>();
      p->n   = HV_INDEX(cells - 1, dofs - 1, dofs) + 1;
      return p;
    }
    unsigned int get_mg_level() const { return numbers::invalid_unsigned_int; }
    const hv::ShapeInfo &get_shape_info(unsigned int, unsigned int, unsigned int, unsigned int, unsigned int) const { return shape; }
    template <typename V>
    void initialize_dof_vector(V &v, unsigned int = 0) const { v.reinit(HV_INDEX(cells - 1, dofs - 1, dofs) + 1); }
#else
    std::shared_ptr<const Utilities::MPI::Partitioner> get_vector_partitioner(unsigned int = 0) const { return {}; }
    template <typename V>
    void initialize_dof_vector(V &v, unsigned int = 0) const { v.reinit(cells * dofs); }
#endif

    template <typename CLASS, typename Out, typename In>
    void
    cell_loop(void (CLASS::*f)(const MatrixFree &, Out &, const In &, const std::pair<unsigned int, unsigned int> &) const,
              const CLASS *owner, Out &dst, const In &src, const bool zero = false) const
    {
      if (zero)
        dst = 0.0;
      if (cells > 0)
        (owner->*f)(*this, dst, src, std::pair<unsigned int, unsigned int>(0, n_cell_batches()));
    }
    template <typename CLASS, typename Out, typename In>
    void
    cell_loop(void (CLASS::*f)(const MatrixFree &, Out &, const In &, const std::pair<unsigned int, unsigned int> &) const,
              const CLASS *owner, Out &dst, const In &src,
              const std::function<void(const unsigned int, const unsigned int)> &before,
              const std::function<void(const unsigned int, const unsigned int)> &after, const unsigned int = 0) const
    {
      if (before)
        before(0, cells * dofs);
      (owner->*f)(*this, dst, src, std::pair<unsigned int, unsigned int>(0, n_cell_batches()));
      if (after)
        after(0, cells * dofs);
    }
    template <typename CLASS, typename Out, typename In>
    void
    cell_loop(void (CLASS::*f)(const MatrixFree &, Out &, const In &, const std::pair<unsigned int, unsigned int> &),
              CLASS *owner, Out &dst, const In &src, const bool zero = false) const
    {
      if (zero)
        dst = 0.0;
      if (cells > 0)
        (owner->*f)(*this, dst, src, std::pair<unsigned int, unsigned int>(0, n_cell_batches()));
    }
    template <typename Out, typename In, typename F>
    void
    cell_loop(const F &f, Out &dst, const In &src, const bool zero = false) const
    {
      if (zero)
        dst = 0.0;
      f(*this, dst, src, std::pair<unsigned int, unsigned int>(0, n_cell_batches()));
    }
  };

  template <int dim>
  class FEEvaluationData<dim, VectorizedArray<double, HV_LANES>, false>
  {
  public:
    virtual ~FEEvaluationData() = default;
  };

  template <int dim, int n_comp>
  class FEEvaluation<dim, -1, 0, n_comp, double, VectorizedArray<double, HV_LANES>>
    : public FEEvaluationData<dim, VectorizedArray<double, HV_LANES>, false>
  {
  public:
    using VA           = VectorizedArray<double, HV_LANES>;
    using MF           = MatrixFree<dim, double, VA>;
    using number_type  = double;
    using NumberType   = VA;
    using value_type   = std::conditional_t<n_comp == 1, VA, Tensor<1, n_comp, VA>>;
    using gradient_type =
      std::conditional_t<n_comp == 1, Tensor<1, dim, VA>, std::conditional_t<n_comp == dim, Tensor<2, dim, VA>, Tensor<1, n_comp, Tensor<1, dim, VA>>>>;
    static constexpr unsigned int dimension         = dim;
    static constexpr unsigned int n_components      = n_comp;
    static constexpr unsigned int static_n_q_points = hv::NQ;
    static constexpr unsigned int n_q_points        = hv::NQ;
    static constexpr unsigned int dofs_per_component = MF::dofs;
    static constexpr unsigned int dofs_per_cell      = MF::dofs * n_comp;

    const MF &mf;
    int       cell = -1;
    VA        dof[dofs_per_cell];
    VA        val[n_comp * hv::NQ];         // component major, as in deal.II
    VA        gra[n_comp][hv::NQ][dim];
    bool      have_val = false, have_gra = false, sub_val = false, sub_gra = false;

    FEEvaluation(const MF &mf, unsigned int = 0, unsigned int = 0, unsigned int = 0)
      : mf(mf)
    {}
#ifdef HV_MATRICES
    template <typename R>
    FEEvaluation(const MF &mf, const R &, unsigned int, unsigned int, unsigned int)
      : mf(mf)
    {}
    unsigned int get_active_fe_index() const { return 0; }
    unsigned int get_active_quadrature_index() const { return 0; }
#endif
    void reinit(unsigned int c)
    {
      cell     = c;
      have_val = have_gra = sub_val = sub_gra = false;
    }
    unsigned int get_current_cell_index() const { return cell; }
    const MF &get_matrix_free() const { return mf; }
    auto quadrature_point_indices() const { return std_cxx20::ranges::iota_view<unsigned int, unsigned int>(0U, n_q_points); }

    VA       *begin_dof_values() { return dof; }
    const VA *begin_dof_values() const { return dof; }
    VA       *begin_values() { return val; }
    const VA *begin_values() const { return val; }

    template <typename V>
    static double get(const V &v, unsigned int comp, unsigned int i)
    {
      if constexpr (std::is_same_v<V, LinearAlgebra::distributed::Vector<double>>)
        return v(i);
      else if constexpr (std::is_same_v<V, std::vector<const LinearAlgebra::distributed::Vector<double> *>> ||
                         std::is_same_v<V, std::vector<LinearAlgebra::distributed::Vector<double> *>>)
        return (*v[comp])(i);
      else
        return v.block(comp)(i);
    }
    template <typename V>
    void read_dof_values(const V &v, unsigned int first = 0)
    {
      read_dof_values_plain(v, first);
      // homogeneous constraints are resolved on reading: a constrained entry reads as zero
      for (unsigned int k : mf.constrained)
        for (unsigned int l = 0; l < HV_LANES; ++l)
          for (unsigned int i = 0; i < MF::dofs; ++i)
            if (k == HV_INDEX(cell * HV_LANES + l, i, MF::dofs))
              for (unsigned int c = 0; c < n_comp; ++c)
                dof[c * MF::dofs + i][l] = 0;
    }
    template <typename V>
    void read_dof_values_plain(const V &v, unsigned int first = 0)
    {
      for (unsigned int c = 0; c < n_comp; ++c)
        for (unsigned int i = 0; i < MF::dofs; ++i)
          for (unsigned int l = 0; l < HV_LANES; ++l)
            dof[c * MF::dofs + i][l] = cell * HV_LANES + l < mf.cells ? get(v, first + c, HV_INDEX(cell * HV_LANES + l, i, MF::dofs)) : 0.;
      have_val = have_gra = false;
    }
    void evaluate(const VA *d, EvaluationFlags::EvaluationFlags f)
    {
      if (f & EvaluationFlags::values)
        {
          for (unsigned int c = 0; c < n_comp; ++c)
            for (unsigned int q = 0; q < hv::NQ; ++q)
              val[c * hv::NQ + q] = d[c * MF::dofs + q * (1 + dim)];
          have_val = true;
        }
      if (f & EvaluationFlags::gradients)
        {
          for (unsigned int c = 0; c < n_comp; ++c)
            for (unsigned int q = 0; q < hv::NQ; ++q)
              for (unsigned int a = 0; a < dim; ++a)
                gra[c][q][a] = d[c * MF::dofs + q * (1 + dim) + 1 + a];
          have_gra = true;
        }
    }
    void evaluate(EvaluationFlags::EvaluationFlags f) { evaluate(dof, f); }
    template <typename V>
    void gather_evaluate(const V &v, EvaluationFlags::EvaluationFlags f)
    {
      read_dof_values(v);
      evaluate(f);
    }
    value_type get_value(unsigned int q) const
    {
      value_type r;
      if constexpr (n_comp == 1)
        r = val[q];
      else
        for (unsigned int c = 0; c < n_comp; ++c)
          r[c] = val[c * hv::NQ + q];
      return r;
    }
    gradient_type get_gradient(unsigned int q) const
    {
      gradient_type r;
      for (unsigned int c = 0; c < n_comp; ++c)
        for (unsigned int a = 0; a < dim; ++a)
          if constexpr (n_comp == 1)
            r[a] = gra[c][q][a];
          else
            r[c][a] = gra[c][q][a];
      return r;
    }
    SymmetricTensor<2, dim, VA> get_symmetric_gradient(unsigned int q) const
    {
      SymmetricTensor<2, dim, VA> r;
      for (unsigned int a = 0; a < dim; ++a)
        for (unsigned int b = a; b < dim; ++b)
          r[a][b] = VA(0.5) * (gra[a][q][b] + gra[b][q][a]);
      return r;
    }
    VA get_divergence(unsigned int q) const
    {
      VA r = gra[0][q][0];
      for (unsigned int a = 1; a < dim; ++a)
        r += gra[a][q][a];
      return r;
    }
    void submit_value(const value_type &r, unsigned int q)
    {
      if constexpr (n_comp == 1)
        val[q] = r;
      else
        for (unsigned int c = 0; c < n_comp; ++c)
          val[c * hv::NQ + q] = r[c];
    }
    template <typename T = int>
    std::enable_if_t<n_comp == 1 && sizeof(T) != 0>
    submit_value(const Tensor<1, 1, VA> &r, unsigned int q)
    {
      val[q] = r[0];
    }
    void submit_gradient(const gradient_type &r, unsigned int q)
    {
      for (unsigned int c = 0; c < n_comp; ++c)
        for (unsigned int a = 0; a < dim; ++a)
          if constexpr (n_comp == 1)
            gra[c][q][a] = r[a];
          else
            gra[c][q][a] = r[c][a];
    }
    void submit_divergence(const VA &r, unsigned int q)
    {
      for (unsigned int c = 0; c < n_comp; ++c)
        for (unsigned int a = 0; a < dim; ++a)
          gra[c][q][a] = c == a ? r : VA(0.);
    }
    value_type get_dof_value(unsigned int i) const
    {
      value_type r;
      if constexpr (n_comp == 1)
        r = dof[i];
      else
        for (unsigned int c = 0; c < n_comp; ++c)
          r[c] = dof[c * MF::dofs + i];
      return r;
    }
    void submit_dof_value(const value_type &r, unsigned int i)
    {
      if constexpr (n_comp == 1)
        dof[i] = r;
      else
        for (unsigned int c = 0; c < n_comp; ++c)
          dof[c * MF::dofs + i] = r[c];
    }
    auto dof_indices() const { return std_cxx20::ranges::iota_view<unsigned int, unsigned int>(0U, dofs_per_cell); }
    template <typename V>
    void set_dof_values(V &v, unsigned int first = 0) const { set_dof_values_plain(v, first); }
    void submit_symmetric_gradient(const SymmetricTensor<2, dim, VA> &r, unsigned int q)
    {
      for (unsigned int c = 0; c < dim; ++c)
        for (unsigned int a = 0; a < dim; ++a)
          gra[c][q][a] = r[c][a];
    }
    void integrate(EvaluationFlags::EvaluationFlags f)
    {
      for (unsigned int c = 0; c < n_comp; ++c)
        for (unsigned int q = 0; q < hv::NQ; ++q)
          {
            dof[c * MF::dofs + q * (1 + dim)] = (f & EvaluationFlags::values) ? val[c * hv::NQ + q] : VA(0.);
            for (unsigned int a = 0; a < dim; ++a)
              dof[c * MF::dofs + q * (1 + dim) + 1 + a] = (f & EvaluationFlags::gradients) ? gra[c][q][a] : VA(0.);
          }
    }
    template <typename V>
    static double &ref(V &v, unsigned int comp, unsigned int i)
    {
      if constexpr (std::is_same_v<V, LinearAlgebra::distributed::Vector<double>>)
        return v(i);
      else if constexpr (std::is_same_v<V, std::vector<LinearAlgebra::distributed::Vector<double> *>>)
        return (*v[comp])(i);
      else
        return v.block(comp)(i);
    }
    template <typename V>
    void distribute_local_to_global(V &v, unsigned int first = 0) const
    {
      for (unsigned int c = 0; c < n_comp; ++c)
        for (unsigned int i = 0; i < MF::dofs; ++i)
          for (unsigned int l = 0; l < mf.n_active_entries_per_cell_batch(cell); ++l)
            {
              const unsigned int n   = HV_INDEX(cell * HV_LANES + l, i, MF::dofs);
              bool               con = false;
              for (unsigned int k : mf.constrained)
                con = con || k == n;
              if (!con)
                ref(v, first + c, n) += dof[c * MF::dofs + i][l];
            }
    }
    // every entry, the constrained ones too
    template <typename V>
    void set_dof_values_plain(V &v, unsigned int first = 0) const
    {
      for (unsigned int c = 0; c < n_comp; ++c)
        for (unsigned int i = 0; i < MF::dofs; ++i)
          for (unsigned int l = 0; l < mf.n_active_entries_per_cell_batch(cell); ++l)
            ref(v, first + c, HV_INDEX(cell * HV_LANES + l, i, MF::dofs)) = dof[c * MF::dofs + i][l];
    }
    template <typename V>
    void integrate_scatter(EvaluationFlags::EvaluationFlags f, V &v)
    {
      integrate(f);
      distribute_local_to_global(v);
    }
    Point<dim, VA> quadrature_point(unsigned int q) const
    {
      Point<dim, VA> p;
      for (unsigned int a = 0; a < dim; ++a)
        for (unsigned int l = 0; l < HV_LANES; ++l)
          p[a][l] = cell * HV_LANES + l < mf.cells ? hv::points[cell * HV_LANES + l][q][a] : 0.;
      return p;
    }
    VA JxW(unsigned int q) const
    {
      VA r;
      for (unsigned int l = 0; l < HV_LANES; ++l)
        r[l] = !hv::weights.empty() && cell * HV_LANES + l < mf.cells ? hv::weights[cell * HV_LANES + l][q] : 1.;
      return r;
    }
    value_type integrate_value() const
    {
      value_type r{};
      for (unsigned int c = 0; c < n_comp; ++c)
        for (unsigned int q = 0; q < hv::NQ; ++q)
          if constexpr (n_comp == 1)
            r += val[q] * JxW(q);
          else
            r[c] += val[c * hv::NQ + q] * JxW(q);
      return r;
    }
    struct ShapeData
    {
      AlignedVector<VA> shape_gradients_collocation;
    };
    struct Shape
    {
      std::vector<ShapeData> data;
    };
    const Shape &get_shape_info() const
    {
      static Shape s;
      return s;
    }
  };
} // namespace dealii
