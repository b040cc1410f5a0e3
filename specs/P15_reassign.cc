// Contracts of assigning grains to order parameters: Tracker::reassign_grains for every relation of close grains and
// every previous assignment.
// hv: flags -fno-access-control
// hv: assume Grain::overlaps is an arbitrary symmetric relation here (P11 decides it), distance_lower_bound arbitrary; sparsity patterns of deal.II as sets of entries that always contain the diagonal; its graph colouring by an arbitrary valid colouring with colours from 1
// hv: bound up to three grains with everything arbitrary, four and five with selected relations
#include <hv.h>
#include <hv_mesh.h>
#include <set>
#include <string>
using namespace dealii;

static std::string num(int i)
{
  return std::string(1, char('0' + i));
}
static bool close_by[6][6];
static int  colours[6], n_coloured; // an arbitrary colouring
static bool coloured;
#include <hv_pattern.h>
namespace dealii
{
  namespace SparsityTools
  {
    template <typename Pattern>
    unsigned int hv_color_sparsity_pattern(const Pattern &sp, std::vector<unsigned int> &color)
    {
      coloured = true;
      const int n = n_coloured;
      hv_check_ieq(sp.n_rows(), n, "one row per grain");
      hv_check_ieq(color.size(), n, "one colour per grain");
      // the relation must be the one of the grains
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
          hv_check((i == j) | (sp.exists(i, j) == close_by[i][j]), "the pattern holds the close grains");
      int used = 0;
      for (int i = 0; i < n; ++i)
        {
          const int c = hv_pick(("colour" + num(i)).c_str(), 1, n);
          color[i]    = c;
          used        = std::max(used, c);
          for (int j = 0; j < i; ++j)
            hv_assume(!(close_by[i][j] && color[i] == color[j]));
        }
      for (int c = 1; c <= used; ++c)
        {
          bool any = false;
          for (int i = 0; i < n; ++i)
            any = any || (int)color[i] == c;
          hv_assume(any);
        }
      for (int i = 0; i < n; ++i)
        colours[i] = color[i];
      return used;
    }
  } // namespace SparsityTools
} // namespace dealii
#define color_sparsity_pattern hv_color_sparsity_pattern
#include <pf-applications/grain_tracker/grain.h>
// identities of the grains are 3 * number + 2
namespace GrainTracker
{
  template <>
  bool Grain<2>::overlaps(const Grain<2> &o, const double ratio, const double fixed) const
  {
    hv_check((ratio == 0.05) & (fixed == 0.125), "the buffer of the tracker");
    return close_by[(grain_id - 2) / 3][(o.grain_id - 2) / 3];
  }
  template <>
  double Grain<2>::distance_lower_bound(const Grain<2> &o) const
  {
    const unsigned int i = (grain_id - 2) / 3, j = (o.grain_id - 2) / 3;
    return 1 + std::min(i, j) + 0.1 * (7 * std::max(i, j) % 5);
  }
} // namespace GrainTracker
#include <pf-applications/grain_tracker/tracker.h>
using namespace GrainTracker;
using Track = Tracker<2, double>;
#ifdef HV_SYMBOLIC
namespace GrainTracker
{
  void print_grains(const std::map<unsigned int, Grain<2>> &, std::hv_ostringstream &) {}
}
#endif
// detection and matching are replaced by their contracts: the grains found, which of them continues which
static std::map<unsigned int, Grain<2>> detected;
static std::vector<std::vector<std::pair<unsigned int, unsigned int>>> particles;
static unsigned int n_expected;
static bool         indices_expected;
namespace GrainTracker
{
  template <>
  std::map<unsigned int, Grain<2>> Tracker<2, double>::detect_grains(const BlockVectorType &, const unsigned int n, const bool assign)
  {
    hv_check_ieq(n, n_expected, "number of order parameters");
    hv_check(assign == indices_expected, "identities are assigned to the very first grains only");
    particle_ids_to_grain_ids = particles;
    return detected;
  }
  template <>
  std::map<unsigned int, unsigned int> transfer_grain_ids(const std::map<unsigned int, Grain<2>> &now, const std::map<unsigned int, Grain<2>> &old,
                                                          const unsigned int n, std::optional<std::reference_wrapper<std::ostream>>)
  {
    hv_check_ieq(n, n_expected, "number of order parameters");
    std::map<unsigned int, unsigned int> r;
    for (const auto &[i, g] : now)
      {
        hv_check(old.find(3 * i + 2) != old.end(), "matched with the grains of the last step");
        r[i] = 3 * i + 2;
      }
    return r;
  }
} // namespace GrainTracker
enum Entry
{
  direct,
  first_step,
  next_step
};

static void relation(int n, const std::vector<std::pair<int, int>> *edges)
{
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < i; ++j)
      {
        bool e = false;
        if (edges)
          for (const auto &[a, b] : *edges)
            e = e || (a == i && b == j) || (a == j && b == i);
        else
          e = hv_pick(("close" + num(i) + num(j)).c_str(), 0, 1);
        close_by[i][j] = close_by[j][i] = e;
      }
}
// the previous order parameters are op
static void reassign(const std::vector<int> &op, bool force, bool fast, int max_ops, const Entry entry = direct, const bool skip = false)
{
  const int n = op.size();
  n_coloured  = n;
  coloured    = false;
  const HvDoFHandler<2>    dh;
  const HvTriangulation<2> tria;
  Track t(dh, tria, entry == first_step && force, true, fast, max_ops, GrainRepresentation::spherical, 0.01, 0.02, 0.05, 0.125, 2, false, false, false);
  for (int i = 0; i < n; ++i)
    t.grains.emplace(3 * i + 2, Grain<2>(3 * i + 2, op[i]));
  int n_op = 0;
  for (const int o : op)
    n_op = std::max(n_op, o + 1);
  if (entry != direct)
    {
      // two particles per grain, the second one is its first segment
      particles.clear();
      particles.resize(n_op);
      detected.clear();
      for (int i = 0; i < n; ++i)
        {
          const unsigned int k = entry == first_step ? 3 * i + 2 : i;
          detected.emplace(k, Grain<2>(entry == first_step ? k : numbers::invalid_unsigned_int, op[i]));
          particles[op[i]].emplace_back(k, 1);
          particles[op[i]].emplace_back(k, 0);
        }
      n_expected       = n_op;
      indices_expected = entry == first_step;
      if (entry == first_step)
        t.grains.clear();
    }
  int n_collisions = 0;
  for (int i = 0; i < n; ++i)
    {
      bool hit = false;
      for (int j = 0; j < i; ++j)
        hit = hit || (close_by[i][j] && op[i] == op[j]);
      n_collisions += hit;
    }
  bool                       failed = false, op_number_changed = false;
  std::tuple<unsigned, bool> r{0, false};
  try
    {
      if (entry == direct)
        r = t.reassign_grains(force, fast);
      else
        {
          const Track::BlockVectorType solution;
          const auto                   a = entry == first_step ? t.initial_setup(solution, n_op, skip) : t.track(solution, n_op, skip);
          r                              = {std::get<0>(a), std::get<1>(a)};
          op_number_changed              = std::get<2>(a);
        }
    }
  catch (const std::exception &)
    {
      failed = true;
    }
  if (failed)
    {
      hv_check(coloured, "an error only after a complete colouring");
      int used = 0;
      for (int i = 0; i < n; ++i)
        used = std::max(used, colours[i]);
      hv_check(used > max_ops, "an error only if too many order parameters are needed");
      return;
    }
  hv_check_ieq(std::get<0>(r), skip ? 0 : n_collisions, "number of collisions");
  bool              changed = false;
  std::vector<int>  now;
  std::set<unsigned int> used;
  for (int i = 0; i < n; ++i)
    {
      const auto &g = t.grains.at(3 * i + 2);
      hv_check_ieq(g.get_grain_id(), 3 * i + 2, "identities stay");
      hv_check_ieq(g.get_old_order_parameter_id(), op[i], "the previous order parameter is remembered");
      now.push_back(g.get_order_parameter_id());
      changed = changed || now[i] != op[i];
      used.insert(now[i]);
    }
  hv_check_ieq(t.grains.size(), n, "no grain is lost");
  hv_check(std::get<1>(r) == changed, "reports whether grains were reassigned");
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < i; ++j)
      {
        if (skip)
          continue;
        hv_check(!close_by[i][j] | (now[i] != now[j]), "close grains have different order parameters");
        if (n_collisions == 0 && !force)
          hv_check(((op[i] < op[j]) == (now[i] < now[j])) & ((op[i] == op[j]) == (now[i] == now[j])), "no other changes than closing gaps");
      }
  hv_check(t.get_active_order_parameters() == used, "active order parameters are those in use");
  if (entry != direct)
    {
      hv_check(op_number_changed == (!skip && (int)used.size() != n_op), "reports whether the number of order parameters changed");
      std::set<unsigned int> numbers;
      for (int i = 0; i < n; ++i)
        for (unsigned int s = 0; s < 2; ++s)
          {
            const unsigned int k = t.get_grain_segment_index(3 * i + 2, s);
            hv_check(k < t.n_segments(), "segment number in range");
            hv_check(numbers.insert(k).second, "segments have different numbers");
          }
      hv_check_ieq(t.n_segments(), 2 * n, "number of segments");
    }
  if (skip)
    {
      for (int i = 0; i < n; ++i)
        hv_check_ieq(now[i], op[i], "nothing is reassigned unless asked for");
      return;
    }
  hv_check((used.empty() || *used.rbegin() + 1 == used.size()), "order parameters are numbered without gaps");
  if (n_collisions > 0 || force)
    hv_check((int)used.size() <= max_ops || !coloured, "the limit is kept");
  // the zone around a grain that is moved with it keeps away from the others
  for (int i = 0; i < n; ++i)
    {
      double d = std::numeric_limits<double>::max();
      const auto &g = t.grains.at(3 * i + 2);
      for (int j = 0; j < n; ++j)
        if (j != i && (now[i] == now[j] || op[i] == op[j]))
          d = std::min(d, g.distance_lower_bound(t.grains.at(3 * j + 2)));
      hv_check(g.transfer_buffer() <= std::max(0., d / 2), "the transfer zone ends halfway to the next grain");
    }
}
static std::vector<int> previous(int n, int n_ops)
{
  std::vector<int> op;
  for (int i = 0; i < n; ++i)
    op.push_back(hv_pick(("op" + num(i)).c_str(), 0, n_ops - 1));
  return op;
}
HV_SPEC(no_grains)
{
  relation(0, nullptr);
  reassign({}, hv_pick("force", 0, 1), hv_pick("fast", 0, 1), 3);
}
HV_SPEC(one_and_two)
{
  const int n = hv_pick("n", 1, 2);
  relation(n, nullptr);
  reassign(previous(n, 3), hv_pick("force", 0, 1), hv_pick("fast", 0, 1), 10);
}
HV_SPEC(three)
{
  relation(3, nullptr);
  reassign(previous(3, 2), false, false, 10);
}
HV_SPEC(three_gaps)
{
  relation(3, nullptr);
  std::vector<int> op = previous(3, 2);
  for (auto &o : op)
    o = 3 * o + 1;
  reassign(op, false, false, 10);
}
HV_SPEC(three_fast)
{
  relation(3, nullptr);
  reassign(previous(3, 2), false, true, 10);
}
HV_SPEC(three_forced)
{
  relation(3, nullptr);
  reassign({0, (int)hv_pick("op1", 0, 1), (int)hv_pick("op2", 0, 2)}, true, false, 10);
}
HV_SPEC(three_limit)
{
  relation(3, nullptr);
  reassign({0, 0, (int)hv_pick("op2", 0, 1)}, false, hv_pick("fast", 0, 1), hv_pick("max", 1, 2));
}
HV_SPEC(four_path)
{
  const std::vector<std::pair<int, int>> e{{0, 1}, {1, 2}, {2, 3}};
  relation(4, &e);
  std::vector<int> op = previous(4, 2);
  reassign(op, false, true, 10);
}
HV_SPEC(four_ring)
{
  const std::vector<std::pair<int, int>> e{{0, 1}, {1, 2}, {2, 3}, {3, 0}};
  relation(4, &e);
  reassign(previous(4, 2), false, true, 10);
}
HV_SPEC(four_star)
{
  const std::vector<std::pair<int, int>> e{{2, 0}, {2, 1}, {2, 3}};
  relation(4, &e);
  std::vector<int> op = previous(4, 2);
  for (auto &o : op)
    o = 2 - 2 * o;
  reassign(op, false, true, 10);
}
HV_SPEC(four_all)
{
  const std::vector<std::pair<int, int>> e{{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}};
  relation(4, &e);
  reassign(previous(4, 2), false, true, hv_pick("max", 3, 4));
}
HV_SPEC(first_three)
{
  relation(3, nullptr);
  reassign({0, (int)hv_pick("op1", 0, 1), (int)hv_pick("op2", 0, 2)}, hv_pick("greedy", 0, 1), false, 10, first_step);
}
HV_SPEC(first_two)
{
  relation(2, nullptr);
  reassign(previous(2, 3), hv_pick("greedy", 0, 1), true, 10, first_step, hv_pick("skip", 0, 1));
}
HV_SPEC(first_limit)
{
  relation(3, nullptr);
  reassign({0, 0, 1}, true, hv_pick("fast", 0, 1), 2, first_step);
}
HV_SPEC(next_three)
{
  relation(3, nullptr);
  reassign({0, (int)hv_pick("op1", 0, 1), (int)hv_pick("op2", 0, 2)}, false, false, 10, next_step);
}
HV_SPEC(next_two)
{
  relation(2, nullptr);
  reassign(previous(2, 3), false, true, 10, next_step, hv_pick("skip", 0, 1));
}
