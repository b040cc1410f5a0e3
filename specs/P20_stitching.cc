// Contracts of merging pieces of grains: connected_components, PeriodicityGraph and both ways of stitching pieces
// found by several processes, for every graph of contacts.
// hv: flags -D_GLIBCXX_ASSERTIONS
// hv: bound up to three processes with up to four pieces in total (components: five pieces)
// hv: assume messages between processes are delivered once and unchanged; processes are executed one after the other, receivers handle messages in both orders
#include <hv.h>
#include <hv_mpi.h>
#include <boost/config.hpp>
#include <boost/graph/adjacency_list.hpp>
#include <boost/graph/connected_components.hpp>
#include <deal.II/dofs/dof_handler.h>
#include <deal.II/numerics/data_out.h>
#include <pf-applications/base/timer.h>
#include <hv_mpi_names.h>
#include <src/grain_tracker/distributed_stitching.cc>
#include <pf-applications/grain_tracker/periodicity_graph.h>
using namespace dealii;
using Contacts = std::vector<std::vector<std::tuple<unsigned int, unsigned int>>>;

// reference: which pieces a chain of contacts connects
struct Closure
{
  bool r[6][6];
  int  n;
  Closure(int n)
    : n(n)
  {
    for (int i = 0; i < 6; ++i)
      for (int j = 0; j < 6; ++j)
        r[i][j] = i == j;
  }
  void join(int a, int b)
  {
    r[a][b] = r[b][a] = true;
  }
  void close()
  {
    for (int k = 0; k < n; ++k)
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
          r[i][j] |= r[i][k] & r[k][j];
  }
  int classes() const
  {
    int c = 0;
    for (int i = 0; i < n; ++i)
      {
        bool first = true;
        for (int j = 0; j < i; ++j)
          first &= !r[i][j];
        c += first;
      }
    return c;
  }
  // label[i]: number given to piece i
  void check(const std::vector<unsigned int> &label, const unsigned int n_labels) const
  {
    hv_check_ieq(label.size(), n, "every piece has a number");
    std::vector<bool> used(n, false);
    for (int i = 0; i < n; ++i)
      {
        hv_check(label[i] < n_labels, "numbers are smaller than their count");
        if (label[i] < (unsigned)n)
          used[label[i]] = true;
        for (int j = 0; j < i; ++j)
          hv_check((label[i] == label[j]) == r[i][j], "two pieces are merged exactly if a chain of contacts connects them");
      }
    hv_check_ieq(n_labels, classes(), "one number per merged piece");
    for (unsigned int l = 0; l < n_labels; ++l)
      hv_check(used[l], "no number is left out");
  }
};

static void components(const int n)
{
  Closure                                             c(n);
  std::vector<std::tuple<unsigned int, unsigned int>> edges;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < i; ++j)
      if (hv_bool("contact"))
        {
          if ((i + j) % 2 == 1)
            edges.emplace_back(i, j);
          else
            edges.insert(edges.begin(), std::make_tuple((unsigned)j, (unsigned)i));
          c.join(i, j);
        }
  if (hv_bool("reported twice"))
    for (int k = edges.size(); k > 0; --k)
      edges.push_back(edges[k - 1]);
  c.close();
  const auto         l = GrainTracker::connected_components(n, edges);
  unsigned int       m = 0;
  for (const unsigned int i : l)
    m = std::max(m, i + 1);
  c.check(l, m);
}
HV_SPEC(components_0)
{
  components(0);
}
HV_SPEC(components_1)
{
  components(1);
}
HV_SPEC(components_2)
{
  components(2);
}
HV_SPEC(components_4)
{
  components(4);
}

// periodic contacts of particles: groups of the particles that have any
HV_SPEC(periodic_groups)
{
  const int                     n = 4;
  Closure                       c(n);
  GrainTracker::PeriodicityGraph g;
  bool                          touched[n] = {};
  const bool                    backwards  = hv_bool("backwards");
  hv_check(g.empty(), "a new graph is empty");
  for (int k = 0; k < n * n; ++k)
    {
      const int i = (backwards ? n * n - 1 - k : k) / n, j = (backwards ? n * n - 1 - k : k) % n;
      if (j > i || (i == j && i != 2))
        continue;
      if (hv_bool("contact"))
        {
          // both processes that see a periodic contact report it
          g.add_connection(i, j);
          if (i != j)
            g.add_connection(j, i);
          c.join(i, j);
          touched[i] = touched[j] = true;
          hv_check(!g.empty(), "a graph with connections is not empty");
        }
    }
  c.close();
  const unsigned int        none = 77;
  std::vector<unsigned int> group(n, none);
  const unsigned int        m = g.build_groups(group);
  int                       classes = 0;
  std::vector<bool>         used(n, false);
  for (int i = 0; i < n; ++i)
    {
      hv_check(touched[i] == (group[i] != none), "exactly the particles with periodic contacts are put in groups");
      if (!touched[i])
        continue;
      hv_check(group[i] < m, "groups are numbered from 0 without gaps");
      if (group[i] < (unsigned)n)
        used[group[i]] = true;
      bool first = true;
      for (int j = 0; j < i; ++j)
        if (touched[j])
          {
            first &= !c.r[i][j];
            hv_check((group[i] == group[j]) == c.r[i][j], "particles share a group exactly if periodic contacts connect them");
          }
      classes += first;
    }
  hv_check_ieq(m, classes, "one group for each set of connected particles");
  for (unsigned int l = 0; l < m && l < (unsigned)n; ++l)
    hv_check(used[l], "no group is empty");
}

// n_pieces[r]: pieces found by process r; any contacts between pieces of different processes. A contact is reported by
// the process of either piece (both: mesh contacts are seen from both sides)
static void stitching(const std::vector<int> n_pieces, const bool graph, const bool reversed = false)
{
  const int        n_ranks = n_pieces.size();
  int              n       = 0;
  std::vector<int> rank_of, offset;
  for (int r = 0; r < n_ranks; ++r)
    {
      offset.push_back(n);
      for (int i = 0; i < n_pieces[r]; ++i, ++n)
        rank_of.push_back(r);
    }
  Closure               c(n);
  std::vector<Contacts> contacts(n_ranks);
  for (int r = 0; r < n_ranks; ++r)
    contacts[r].resize(n_pieces[r]);
  for (int i = 0; i < n; ++i)
    for (int j = i + 1; j < n; ++j)
      if (rank_of[i] != rank_of[j] && hv_bool("contact"))
        {
          const int a = rank_of[i], b = rank_of[j];
          contacts[a][i - offset[a]].emplace_back(b, j);
          contacts[b][j - offset[b]].emplace_back(a, i);
          c.join(i, j);
        }
  c.close();
  hvp::reversed = reversed;
  for (auto &i : contacts)
    for (auto &j : i)
      std::sort(j.begin(), j.end());
  std::vector<unsigned int> label(n, 99), count(n_ranks);
  hvp::run(n_ranks, [&](const int r) {
    const auto l = graph ? GrainTracker::perform_distributed_stitching_via_graph(MPI_COMM_SELF, contacts[r]) :
                           GrainTracker::perform_distributed_stitching(MPI_COMM_SELF, contacts[r]);
    hv_check_ieq(l.size(), n_pieces[r], "every process gets a number for each of its pieces");
    for (unsigned int i = 0; i < l.size() && (int)i < n_pieces[r]; ++i)
      label[offset[r] + i] = l[i];
    count[r] = GrainTracker::number_of_stitched_particles(l, MPI_COMM_SELF);
  });
  for (int r = 0; r < n_ranks; ++r)
    hv_check_ieq(count[r], c.classes(), "all processes know the number of merged pieces");
  c.check(label, c.classes());
}
#define STITCHING(name, ...)                        \
  HV_SPEC(graph_##name)                             \
  {                                                 \
    stitching({__VA_ARGS__}, true);                 \
  }                                                 \
  HV_SPEC(cliques_##name)                           \
  {                                                 \
    stitching({__VA_ARGS__}, false);                \
  }                                                 \
  HV_SPEC(cliques_reversed_##name)                  \
  {                                                 \
    stitching({__VA_ARGS__}, false, true);          \
  }
STITCHING(no_pieces, 0, 0)
STITCHING(one_process, 2)
STITCHING(two_processes, 2, 2)
STITCHING(empty_process, 0, 2, 1)
STITCHING(three_processes, 1, 1, 1)
STITCHING(unequal, 2, 1, 1)
STITCHING(last_two, 1, 1, 2)
