// Several processes, executed one after the other and deterministically. A process runs until a collective
// operation some other process has not reached yet and is started again once it has; operations that are complete
// return their results immediately. All processes must call the same operations in the same order (an obligation:
// anything else would wait for ever).
#pragma once
#include <hv.h>
#include <deal.II/base/mpi.h>
#include <deal.II/base/mpi.templates.h>
#include <deal.II/base/mpi_consensus_algorithms.h>
#include <map>
#include <memory>
#include <vector>

namespace hvp
{
  static int rank = 0, n_ranks = 1;
  struct Pending
  {};
  struct Slot
  {
    int                                kind;
    std::vector<std::shared_ptr<void>> in;
  };
  static std::vector<Slot> *slots = nullptr;
  static unsigned int       position = 0;
  static bool               reversed = false; // order in which messages arrive

  // contributions of all processes to the next collective operation
  template <typename T>
  std::vector<T *> exchange(const int kind, const T &mine)
  {
    std::vector<T *> r;
    if (n_ranks == 1)
      {
        static std::vector<std::shared_ptr<T>> *kept = new std::vector<std::shared_ptr<T>>();
        kept->push_back(std::make_shared<T>(mine));
        r.push_back(kept->back().get());
        return r;
      }
    const unsigned int k = position++;
    if (k == slots->size())
      {
        slots->emplace_back();
        slots->back().kind = kind;
        slots->back().in.resize(n_ranks);
      }
    Slot &s = (*slots)[k];
    hv_check_ieq(s.kind, kind, "all processes call the same collective operations");
    if (!s.in[rank])
      s.in[rank] = std::make_shared<T>(mine);
    for (int i = 0; i < n_ranks; ++i)
      if (!s.in[i])
        throw Pending();
    for (int i = 0; i < n_ranks; ++i)
      r.push_back(static_cast<T *>(s.in[i].get()));
    return r;
  }
  // runs f on n processes; f must not change anything but what it sets up itself
  template <typename F>
  void run(const int n, F f)
  {
    std::vector<Slot> all;
    std::vector<bool> done(n, false);
    n_ranks = n;
    slots   = &all;
    int left = n, stuck = 0;
    while (left > 0 && stuck < 3)
      {
        const unsigned int before = all.size();
        const int          l      = left;
        for (rank = 0; rank < n; ++rank)
          if (!done[rank])
            {
              position = 0;
              try
                {
                  f(rank);
                  done[rank] = true;
                  --left;
                  hv_check_ieq(position, all.size(), "no process leaves others waiting");
                }
              catch (Pending &)
                {}
            }
        stuck = all.size() == before && left == l ? stuck + 1 : 0;
      }
    hv_check_ieq(left, 0, "all processes finish");
    n_ranks = 1;
    rank    = 0;
  }
  enum Kind
  {
    k_sum,
    k_max,
    k_min,
    k_gather,
    k_all_gather,
    k_exscan,
    k_scatterv,
    k_barrier,
    k_selector,
    k_allreduce,
    k_ghosts
  };
  template <typename T>
  T reduce(const Kind k, const T &t)
  {
    const auto a = exchange<T>(k, t);
    T          r = *a[0];
    for (unsigned int i = 1; i < a.size(); ++i)
      r = k == k_sum ? T(r + *a[i]) : k == k_max ? (*a[i] > r ? *a[i] : r) : (*a[i] < r ? *a[i] : r);
    return r;
  }
} // namespace hvp

namespace dealii
{
  namespace Utilities
  {
    namespace MPI
    {
      inline unsigned int hv_this_mpi_process(const MPI_Comm)
      {
        return hvp::rank;
      }
      inline unsigned int hv_n_mpi_processes(const MPI_Comm)
      {
        return hvp::n_ranks;
      }
#define HV_REDUCTIONS(T)                                                                                                           \
  template <> T sum(const T &t, const MPI_Comm) { return hvp::reduce<T>(hvp::k_sum, t); }                                            \
  template <> T max(const T &t, const MPI_Comm) { return hvp::reduce<T>(hvp::k_max, t); }                                            \
  template <> T min(const T &t, const MPI_Comm) { return hvp::reduce<T>(hvp::k_min, t); }
      HV_REDUCTIONS(unsigned int)
      HV_REDUCTIONS(unsigned long)
      HV_REDUCTIONS(int)
      HV_REDUCTIONS(double)
      template <typename T>
      std::vector<T> hv_gather(const MPI_Comm, const T &t, const unsigned int root = 0)
      {
        const auto     a = hvp::exchange<T>(hvp::k_gather, t);
        std::vector<T> r;
        if (hvp::rank == (int)root)
          for (const auto *x : a)
            r.push_back(*x);
        return r;
      }
      template <typename T>
      std::vector<T> hv_all_gather(const MPI_Comm, const T &t)
      {
        const auto     a = hvp::exchange<T>(hvp::k_all_gather, t);
        std::vector<T> r;
        for (const auto *x : a)
          r.push_back(*x);
        return r;
      }
      namespace ConsensusAlgorithms
      {
        template <typename T, typename Create, typename Process>
        void hv_selector(const std::vector<unsigned int> &targets, const Create &create, const Process &process, const MPI_Comm)
        {
          std::map<unsigned int, T> mine;
          for (const unsigned int t : targets)
            {
              hv_check(t < (unsigned)hvp::n_ranks, "messages go to existing processes");
              hv_check(mine.find(t) == mine.end(), "one message per receiver");
              mine.emplace(t, create(t));
            }
          const auto a = hvp::exchange<std::map<unsigned int, T>>(hvp::k_selector, mine);
          for (unsigned int k = 0; k < a.size(); ++k)
            {
              const unsigned int from = hvp::reversed ? a.size() - 1 - k : k;
              const auto         it   = a[from]->find(hvp::rank);
              if (it != a[from]->end())
                {
                  const T data = it->second;
                  process(from, data);
                }
            }
        }
      } // namespace ConsensusAlgorithms
    }   // namespace MPI
  }     // namespace Utilities
} // namespace dealii

// the C interface; the element type is that of the buffers, the declared type must have the same size
template <typename T>
inline int hv_MPI_Exscan(const T *in, T *out, int n, MPI_Datatype, int, MPI_Comm)
{
  const auto a = hvp::exchange<std::vector<T>>(hvp::k_exscan, std::vector<T>(in, in + n));
  if (hvp::rank > 0)
    for (int i = 0; i < n; ++i)
      {
        T s = 0;
        for (int r = 0; r < hvp::rank; ++r)
          s += (*a[r])[i];
        out[i] = s;
      }
  return 0;
}
template <typename T>
inline int hv_MPI_Allreduce(const void *, T *x, int n, MPI_Datatype, int op, MPI_Comm)
{
  const auto a = hvp::exchange<std::vector<T>>(hvp::k_allreduce, std::vector<T>(x, x + n));
  for (unsigned int r = 0; r < a.size(); ++r)
    hv_check_ieq(a[r]->size(), n, "all processes contribute the same number of values");
  for (int i = 0; i < n; ++i)
    {
      T s = (*a[0])[i];
      for (unsigned int r = 1; r < a.size(); ++r)
        {
          const T y = (*a[r])[i];
          s         = op == 0 ? s + y : op == 1 ? (y > s ? y : s) : (y < s ? y : s);
        }
      x[i] = s;
    }
  return 0;
}
template <typename T>
inline int hv_MPI_Scatterv(const T *in, const int *sizes, const int *offsets, MPI_Datatype, T *out, int n, MPI_Datatype, int root, MPI_Comm)
{
  std::vector<std::vector<T>> mine;
  if (hvp::rank == root)
    for (int r = 0; r < hvp::n_ranks; ++r)
      mine.emplace_back(in + offsets[r], in + offsets[r] + sizes[r]);
  const auto a = hvp::exchange<std::vector<std::vector<T>>>(hvp::k_scatterv, mine);
  hv_check_ieq((*a[root])[hvp::rank].size(), n, "as many values as expected are received");
  for (int i = 0; i < n; ++i)
    out[i] = (*a[root])[hvp::rank][i];
  return 0;
}
inline int hv_MPI_Barrier(MPI_Comm)
{
  hvp::exchange<int>(hvp::k_barrier, 0);
  return 0;
}
