// Contracts of the storage of solution vectors for restarts: for every partition of the cells among
// processes and every local numbering at the time of writing and (independently) of reading, each
// unknown gets its value back. The mesh library and the parallel file are ghost ones: a process knows
// the cells on the path to its own cells, an unknown belongs to the lowest process touching it, and
// the numbers of a process are contiguous.
// hv: assume MPI files keep what is written, MPI_Exscan sums over lower ranks
// hv: bound five cells on three levels, six unknowns, up to three processes and three vectors
#include <hv_dealii.h>
#include <deal.II/base/exceptions.h>
#include <deal.II/base/types.h>
#include <mpi.h>
#include <string>
#include <vector>
#include <hv.h>

namespace ghost
{
  struct Node
  {
    int              leaf = -1; // number of the active cell
    int              first, last; // active cells below
    std::vector<int> children;
  };
  static std::vector<Node> tree;  // cells
  static std::vector<int>  roots; // coarse cells
  static const int         n_cells = 5, n_dofs = 6;
  // unknowns of the active cells (in the order the element lists them)
  static int dofs[2][n_cells][3] = {{{0, 1, -1}, {1, 2, -1}, {3, 2, -1}, {3, 4, -1}, {5, 4, -1}}, {{0, 1, 2}, {1, 3, 2}, {2, 0, 4}, {4, 3, 5}, {5, 0, 1}}};

  struct Partition
  {
    int n_ranks, first_cell[5]; // rank r owns the cells first_cell[r] .. first_cell[r+1]-1
    int owner[n_dofs], number[n_dofs], lo[5];
    int rank_of(int cell) const
    {
      for (int r = 0; r < n_ranks; ++r)
        if (cell < first_cell[r + 1])
          return r;
      return -1;
    }
  };
  static void renumber(Partition &p, int mesh, bool reverse)
  {
    for (int i = 0; i < n_dofs; ++i)
      p.owner[i] = 100;
    for (int c = 0; c < n_cells; ++c)
      for (int k = 0; k < 3; ++k)
        if (dofs[mesh][c][k] >= 0 && p.rank_of(c) < p.owner[dofs[mesh][c][k]])
          p.owner[dofs[mesh][c][k]] = p.rank_of(c);
    int n = 0;
    for (int r = 0; r < p.n_ranks; ++r)
      {
        p.lo[r] = n;
        for (int k = 0; k < n_dofs; ++k)
          {
            const int i = reverse ? n_dofs - 1 - k : k;
            if (p.owner[i] == r)
              p.number[i] = n++;
          }
      }
    p.lo[p.n_ranks] = n;
  }

  // the parallel file and the collective prefix sum; processes run one after the other
  static double file[64];
  static unsigned long       sum;
  static unsigned long       disp;
  static int                 open = 0;
  static bool                reading;
  static int                 rank;
} // namespace ghost

extern "C"
{
  int MPI_Exscan(const void *in, void *out, int n, MPI_Datatype, MPI_Op, MPI_Comm)
  {
    hv_check_ieq(n, 1, "one number per process");
    if (ghost::rank > 0) // the result of the first process is not defined, i.e. left alone
      *static_cast<unsigned int *>(out) = ghost::sum;
    ghost::sum += *static_cast<const unsigned int *>(in);
    return 0;
  }
  int MPI_File_open(MPI_Comm, const char *, int mode, MPI_Info, MPI_File *f)
  {
    hv_check(ghost::open == 0, "one file at a time");
    ghost::reading = (mode & MPI_MODE_RDONLY) != 0;
    ghost::open    = 1;
    *f             = nullptr;
    return 0;
  }
  int MPI_File_set_view(MPI_File, MPI_Offset d, MPI_Datatype, MPI_Datatype, const char *, MPI_Info)
  {
    ghost::disp = d;
    return 0;
  }
  int MPI_File_read_all(MPI_File, void *p, int n, MPI_Datatype, MPI_Status *)
  {
    hv_check(ghost::open == 1 && ghost::reading, "the file is open for reading");
    for (int i = 0; i < n; ++i)
      static_cast<double *>(p)[i] = ghost::file[ghost::disp / sizeof(double) + i];
    return 0;
  }
  int MPI_File_write_all(MPI_File, const void *p, int n, MPI_Datatype, MPI_Status *)
  {
    hv_check(ghost::open == 1 && !ghost::reading, "the file is open for writing");
    for (int i = 0; i < n; ++i)
      ghost::file[ghost::disp / sizeof(double) + i] = static_cast<const double *>(p)[i];
    return 0;
  }
  int MPI_File_close(MPI_File *)
  {
    ghost::open = 0;
    return 0;
  }
}

namespace dealii
{
  namespace Utilities
  {
    namespace MPI
    {
      template <typename T>
      static constexpr MPI_Datatype mpi_type_id_for_type = nullptr;
    }
  } // namespace Utilities
  struct IndexSet
  {
    types::global_dof_index lo, hi;
    bool is_element(types::global_dof_index i) const
    {
      return i >= lo && i < hi;
    }
    types::global_dof_index index_within_set(types::global_dof_index i) const
    {
      return i - lo;
    }
    types::global_dof_index n_elements() const
    {
      return hi - lo;
    }
    types::global_dof_index size() const
    {
      return ghost::n_dofs;
    }
  };
  template <int dim, int spacedim = dim>
  class DoFHandler
  {
  public:
    const ghost::Partition &part;
    int                     rank, mesh;
    IndexSet                owned;
    DoFHandler(const ghost::Partition &p, int rank, int mesh)
      : part(p)
      , rank(rank)
      , mesh(mesh)
      , owned{(types::global_dof_index)p.lo[rank], (types::global_dof_index)p.lo[rank + 1]}
    {}
    struct FE
    {
      unsigned int n;
      unsigned int n_dofs_per_cell() const
      {
        return n;
      }
    };
    struct cell_iterator;
    struct Cell
    {
      const DoFHandler *dh;
      int               node;
      bool own_below() const
      {
        const auto &t = ghost::tree[node];
        for (int c = t.first; c <= t.last; ++c)
          if (dh->part.rank_of(c) == dh->rank)
            return true;
        return false;
      }
      bool is_active() const // cells without own ones below are not refined on this process
      {
        return ghost::tree[node].leaf >= 0 || !own_below();
      }
      bool is_locally_owned() const
      {
        hv_check(is_active(), "only active cells have an owner");
        return ghost::tree[node].leaf >= 0 && own_below();
      }
      bool is_locally_owned_on_level() const
      {
        return own_below();
      }
      bool has_children() const
      {
        return !is_active();
      }
      FE get_fe() const
      {
        return {dh->mesh == 0 ? 2u : 3u};
      }
      void get_dof_indices(std::vector<types::global_dof_index> &v) const
      {
        hv_check(is_locally_owned(), "unknowns of own cells only");
        hv_check_ieq(v.size(), dh->mesh == 0 ? 2 : 3, "all unknowns of the cell");
        for (unsigned int i = 0; i < v.size(); ++i)
          v[i] = dh->part.number[ghost::dofs[dh->mesh][ghost::tree[node].leaf][i]];
      }
      std::vector<cell_iterator> child_iterators() const
      {
        std::vector<cell_iterator> r;
        for (const int n : ghost::tree[node].children)
          r.push_back(cell_iterator{Cell{dh, n}});
        return r;
      }
    };
    struct cell_iterator
    {
      Cell        c;
      const Cell *operator->() const
      {
        return &c;
      }
    };
    MPI_Comm get_mpi_communicator() const
    {
      return nullptr;
    }
    MPI_Comm get_communicator() const
    {
      return nullptr;
    }
    types::global_dof_index n_locally_owned_dofs() const
    {
      return owned.n_elements();
    }
    const IndexSet &locally_owned_dofs() const
    {
      return owned;
    }
    std::vector<cell_iterator> cell_iterators_on_level(unsigned int l) const
    {
      hv_check_ieq(l, 0, "coarse cells");
      std::vector<cell_iterator> r;
      for (const int n : ghost::roots)
        r.push_back({{this, n}});
      return r;
    }
  };
} // namespace dealii

#include <pf-applications/base/solution_serialization.h>
using namespace dealii;

struct Vec
{
  using value_type = double;
  std::vector<double> x;
  Vec(unsigned int n)
    : x(n, -1.)
  {}
  double &local_element(unsigned int i)
  {
    return x[i];
  }
  double local_element(unsigned int i) const
  {
    return x[i];
  }
};

static void cells(int shape)
{
  ghost::tree.clear();
  ghost::roots.clear();
  const auto leaf = [](int c) {
    ghost::Node n;
    n.leaf = n.first = n.last = c;
    ghost::tree.push_back(n);
    return (int)ghost::tree.size() - 1;
  };
  const auto inner = [](std::vector<int> ch) {
    ghost::Node n;
    n.first    = ghost::tree[ch.front()].first;
    n.last     = ghost::tree[ch.back()].last;
    n.children = ch;
    ghost::tree.push_back(n);
    return (int)ghost::tree.size() - 1;
  };
  if (shape == 0) // two coarse cells, the second refined twice
    {
      ghost::roots.push_back(leaf(0));
      const int a = leaf(1), b = inner({leaf(2), leaf(3)});
      ghost::roots.push_back(inner({a, b, leaf(4)}));
    }
  else if (shape == 1)
    for (int c = 0; c < ghost::n_cells; ++c)
      ghost::roots.push_back(leaf(c));
  else
    {
      const int a = inner({leaf(0), leaf(1)});
      ghost::roots.push_back(inner({a, leaf(2)}));
      ghost::roots.push_back(inner({leaf(3), leaf(4)}));
    }
}
// any contiguous partition into n parts, possibly empty ones
static ghost::Partition partition(const std::string &t, int mesh)
{
  ghost::Partition p;
  p.n_ranks = hv_pick((t + "ranks").c_str(), 1, 3);
  const int a = p.n_ranks > 1 ? hv_pick((t + "a").c_str(), 0, ghost::n_cells) : ghost::n_cells;
  const int b = p.n_ranks > 2 ? hv_pick((t + "b").c_str(), a, ghost::n_cells) : ghost::n_cells;
  p.first_cell[0] = 0;
  p.first_cell[1] = a;
  p.first_cell[2] = b;
  p.first_cell[p.n_ranks] = ghost::n_cells;
  ghost::renumber(p, mesh, hv_pick((t + "numbering").c_str(), 0, 1));
  return p;
}
static void io(const ghost::Partition &p, int mesh, bool read, int n_vec, double (*v)[ghost::n_dofs], bool split)
{
  ghost::sum = 0;
  for (int r = 0; r < p.n_ranks; ++r)
    {
      ghost::rank = r;
      DoFHandler<2>     dh(p, r, mesh);
      std::vector<Vec>  vec(n_vec, Vec(dh.n_locally_owned_dofs()));
      std::vector<Vec *> ptr, ptr2;
      for (int k = 0; k < n_vec; ++k)
        (split && k > 0 ? ptr2 : ptr).push_back(&vec[k]);
      if (!read)
        for (int k = 0; k < n_vec; ++k)
          for (int i = 0; i < ghost::n_dofs; ++i)
            if (p.owner[i] == r)
              vec[k].x[p.number[i] - p.lo[r]] = v[k][i];
      parallel::distributed::SolutionSerialization<2, Vec> s(dh);
      s.add_vectors(ptr);
      if (!read)
        s.add_vectors(std::vector<const Vec *>(ptr2.begin(), ptr2.end()));
      else
        s.add_vectors(ptr2);
      if (read)
        s.load("name");
      else
        s.save("name");
      for (int k = 0; k < n_vec; ++k)
        for (int i = 0; i < ghost::n_dofs; ++i)
          if (p.owner[i] == r)
            hv_check_eq(vec[k].x[p.number[i] - p.lo[r]], v[k][i], read ? "each unknown gets its value back" : "writing changes nothing");
      hv_check(ghost::open == 0, "the file is closed");
    }
}
static void values(int n_vec, double (*v)[ghost::n_dofs])
{
  for (int k = 0; k < n_vec; ++k)
    for (int i = 0; i < ghost::n_dofs; ++i)
      v[k][i] = hv_real((std::string("v") + char('0' + k) + char('0' + i)).c_str(), -3, 3);
}
// read back by the same number of processes (the program demands it), any numbering
static void same_partition(int shape, int mesh)
{
  cells(shape);
  double    v[3][ghost::n_dofs];
  const int n_vec = hv_pick("vectors", 2, 3);
  values(n_vec, v);
  auto p = partition("w", mesh);
  io(p, mesh, false, n_vec, v, true);
  ghost::renumber(p, mesh, hv_pick("numbering", 0, 1));
  io(p, mesh, true, n_vec, v, false);
}
HV_SPEC(same_partition_chain)
{
  same_partition(hv_pick("shape", 0, 2), 0);
}
HV_SPEC(same_partition_ring)
{
  same_partition(hv_pick("shape", 0, 2), 1);
}
// one vector does not depend on the partition at all
HV_SPEC(other_partition)
{
  const int mesh = hv_pick("mesh", 0, 1);
  cells(0);
  double v[1][ghost::n_dofs];
  values(1, v);
  // compare the file with the one of a single process
  ghost::Partition s;
  s.n_ranks       = 1;
  s.first_cell[0] = 0;
  s.first_cell[1] = ghost::n_cells;
  ghost::renumber(s, mesh, false);
  const auto p     = partition("p", mesh);
  const bool write = hv_pick("write", 0, 1);
  io(write ? p : s, mesh, false, 1, v, false);
  io(write ? s : p, mesh, true, 1, v, false);
}
