// Contracts of SolutionHistory over an abstract vector that records its ghost state.
// hv: bound number of stored solutions 2..5 (scheme orders 1..3 need at most 4)
#include <pf-applications/time_integration/solution_history.h>
#include <hv.h>
using namespace TimeIntegration;

struct Block
{
  double v     = 0;
  void
  copy_locally_owned_data_from(const Block &o)
  {
    v = o.v;
  }
};
struct Vec
{
  using BlockType = Block;
  std::vector<std::shared_ptr<Block>> b;
  mutable bool                        ghosted = false;
  Vec()
  {
    b.push_back(std::make_shared<Block>());
    b.push_back(std::make_shared<Block>());
  }
  Vec(const Vec &o)
    : Vec()
  {
    *this = o;
  }
  Vec &
  operator=(const Vec &o)
  {
    for (unsigned int i = 0; i < b.size(); ++i)
      b[i]->v = o.b[i]->v;
    return *this;
  }
  unsigned int n_blocks() const { return b.size(); }
  Block       &block(unsigned int i) { return *b[i]; }
  const Block &block(unsigned int i) const { return *b[i]; }
  std::shared_ptr<Block> block_ptr(unsigned int i) { return b[i]; }
  bool has_ghost_elements() const { return ghosted; }
  void update_ghost_values() const { ghosted = true; }
  void zero_out_ghost_values() const { ghosted = false; }
  void
  add(double s, const Vec &o)
  {
    for (unsigned int i = 0; i < b.size(); ++i)
      b[i]->v += s * o.b[i]->v;
  }
  void
  sadd(double s, const Vec &o)
  {
    for (unsigned int i = 0; i < b.size(); ++i)
      b[i]->v = s * b[i]->v + o.b[i]->v;
  }
  std::size_t memory_consumption() const { return 0; }
};

static const int nb = 2;
struct H
{
  SolutionHistory<Vec> h;
  long                 n;
  double               v[6][nb];
  H(long n)
    : h(n)
    , n(n)
  {
    auto a = h.get_all_solutions();
    for (long i = 0; i < n; ++i)
      for (int k = 0; k < nb; ++k)
        {
          v[i][k]           = hv_real("u", -1, 1);
          a[i]->block(k).v  = v[i][k];
        }
    h.update_ghost_values();
  }
  double at(long i, int k) { return h.get_all_solutions()[i]->block(k).v; }
};

HV_SPEC(accept_step)
{
  H s(hv_pick("n", 2, 5));
  // driver: commit older solutions, then store the current one as recent old
  s.h.commit_old_solutions();
  Vec cur(s.h.get_current_solution());
  s.h.set_recent_old_solution(cur);
  for (int k = 0; k < nb; ++k)
    {
      hv_check_eq(s.at(0, k), s.v[0][k], "current solution is untouched");
      hv_check_eq(s.at(1, k), s.v[0][k], "recent old solution becomes the current one");
      for (long i = 2; i < s.n; ++i)
        hv_check_eq(s.at(i, k), s.v[i - 1][k], "older solutions move back by exactly one step");
    }
  for (long i = 1; i < s.n; ++i)
    hv_check(i == 1 || s.h.get_all_solutions()[i]->has_ghost_elements(), "moved solutions are ghosted again");
  hv_cover("end");
}

HV_SPEC(views)
{
  H          s(hv_pick("n", 2, 5));
  const long m = hv_pick("mask", 0, 7);
  auto       f = s.h.filter(m & 1, m & 2, m & 4);
  auto       a = s.h.get_all_solutions();
  auto       g = f.get_all_solutions();
  unsigned   j = 0;
  for (long i = 0; i < s.n; ++i)
    {
      const bool keep = (i == 0 && (m & 1)) || (i == 1 && (m & 2)) || (i > 1 && (m & 4));
      if (keep)
        {
          hv_check(j < g.size() && g[j] == a[i], "filter keeps the selected solutions in order, without copying");
          ++j;
        }
    }
  hv_check_ieq(g.size(), j, "filter keeps nothing else");
  hv_check_ieq(f.n_blocks_total(), j * nb, "blocks are counted over the filtered solutions");
  auto bl = f.get_all_blocks();
  auto br = f.get_all_blocks_raw();
  hv_check_ieq(bl.size(), j * nb, "every block is listed once");
  for (unsigned i = 0; i < bl.size(); ++i)
    {
      hv_check(bl[i].get() == &g[i / nb]->block(i % nb), "blocks are listed solution by solution");
      hv_check(br[i] == &g[i / nb]->block(i % nb), "raw blocks are listed solution by solution");
    }
  auto old = s.h.get_old_solutions();
  hv_check_ieq(old.size(), s.n - 1, "old solutions are all but the current one");
  for (unsigned i = 0; i < old.size(); ++i)
    hv_check(old[i] == a[i + 1], "old solutions come in order");
  hv_cover("end");
}

HV_SPEC(extrapolation)
{
  H            s(hv_pick("n", 2, 5));
  const double f = hv_real("factor", -1, 3);
  Vec          d;
  s.h.extrapolate(d, f);
  for (int k = 0; k < nb; ++k)
    hv_check_eq(d.block(k).v, s.v[0][k] + f * (s.v[0][k] - s.v[1][k]), "extrapolation continues the last increment linearly");
  for (long i = 0; i < s.n; ++i)
    for (int k = 0; k < nb; ++k)
      hv_check_eq(s.at(i, k), s.v[i][k], "extrapolation leaves the history alone");
  hv_cover("end");
}
