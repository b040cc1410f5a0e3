// Contracts of following grains between time steps: transfer_grain_ids on arbitrary distances between centers and an
// arbitrary relation which segments touch (a superset of what geometry allows), Tracker::track on top of it.
// hv: flags -fno-access-control
// hv: assume the distance of points and the query of boost's rtree are stand-ins: arbitrary symmetric distances without ties, an arbitrary relation of touching boxes; detect_grains is replaced by its contract (any set of grains)
// hv: bound up to three old and three new grains, two segments per grain, two order parameters
#include <hv.h>
#include <hv_mesh.h>
#include <pf-applications/grain_tracker/tracker.h>
#include <string>
using namespace dealii;
using namespace GrainTracker;
#ifdef HV_SYMBOLIC
namespace GrainTracker
{
  void print_grains(const std::map<unsigned int, Grain<2>> &, std::hv_ostringstream &) {}
}
#endif
using Track = Tracker<2, double>;
static const unsigned int none = numbers::invalid_unsigned_int;

static double distances[8][8]; // between old and new segments
static bool   touches[8][8], known[8][8], known_touch[8][8];
static bool   reversed = false;
static std::string num(int i)
{
  return std::string(1, char('0' + i));
}
// segment s of the old state is at (s, 0), segment s of the new state at (100 + s, 0)
static double distance_of(int o, int n)
{
  if (!known[o][n])
    {
      known[o][n]     = true;
      const double d  = hv_real(("d" + num(o) + num(n)).c_str(), 0, 5);
      hv_assume(d >= 0);
      hv_assume(d < 1e200);
      for (int i = 0; i < 8; ++i)
        for (int j = 0; j < 8; ++j)
          if (known[i][j] && (i != o || j != n))
            hv_assume(d != distances[i][j]);
      distances[o][n] = d;
    }
  return distances[o][n];
}
static bool touch_of(int o, int n)
{
  if (!known_touch[o][n])
    {
      known_touch[o][n] = true;
      touches[o][n]     = hv_pick(("touch" + num(o) + num(n)).c_str(), 0, 1);
    }
  return touches[o][n];
}
namespace dealii
{
  template <>
  double Point<2, double>::distance(const Point<2, double> &p) const
  {
    const double a = (*this)[0], b = p[0];
    hv_check((a < 50) != (b < 50), "distances between old and new segments only");
    return a < 50 ? distance_of(int(a), int(b) - 100) : distance_of(int(b), int(a) - 100);
  }
  struct HvTree
  {
    std::vector<BoundingBox<2>> boxes;
    template <typename Predicate, typename It>
    void query(const Predicate &p, It out) const
    {
      const auto &a = p.geometry.get_boundary_points();
      hv_check_eq(a.second[0] - a.first[0], 0.5, "the box covers the segment");
      hv_check_eq(a.second[1] - a.first[1], 0.5, "the box covers the segment");
      for (unsigned int k = 0; k < boxes.size(); ++k)
        {
          const unsigned int j = reversed ? boxes.size() - 1 - k : k;
          const auto        &b = boxes[j].get_boundary_points();
          hv_check_eq(b.second[0] - b.first[0], 0.5, "the box covers the segment");
          hv_check_eq(b.second[1] - b.first[1], 0.5, "the box covers the segment");
          if (touch_of(int(b.first[0] + 0.5), int(a.first[0] + 0.5) - 100))
            *out++ = j;
        }
    }
  };
  HvTree pack_rtree_of_indices(const std::vector<BoundingBox<2>> &boxes)
  {
    return {boxes};
  }
} // namespace dealii

// a state: grains with identifier, order parameter and segments
struct State
{
  std::vector<unsigned int>     id, op;
  std::vector<std::vector<int>> segments;
  std::map<unsigned int, Grain<2>> grains;
  int                           n_segments = 0;
  void add(unsigned int i, unsigned int o, int n, double base, double value = 1.)
  {
    id.push_back(i);
    op.push_back(o);
    segments.emplace_back();
    Grain<2> g(i, o);
    for (int k = 0; k < n; ++k)
      {
        segments.back().push_back(n_segments);
        g.add_segment(Point<2>(base + n_segments++, 0.), 0.25, 1., value);
      }
    grains.emplace(i, g);
  }
};
static void fresh()
{
  for (int i = 0; i < 8; ++i)
    for (int j = 0; j < 8; ++j)
      known[i][j] = known_touch[i][j] = false;
  reversed = hv_pick("reversed", 0, 1);
}
// the old grain whose segment is the closest of all that touch the new grain
static int preferred(const State &o, const State &n, int g)
{
  int    best = -1;
  double dist = 0;
  for (unsigned int h = 0; h < o.id.size(); ++h)
    if (o.op[h] == n.op[g])
      for (const int s : o.segments[h])
        for (const int t : n.segments[g])
          if (touch_of(s, t) && (best < 0 || distance_of(s, t) < dist))
            {
              best = h;
              dist = distance_of(s, t);
            }
  return best;
}
static double centers(const State &o, const State &n, int h, int g)
{
  double r = 1e300;
  for (const int s : o.segments[h])
    for (const int t : n.segments[g])
      r = std::min(r, distance_of(s, t));
  return r;
}
// which old grain each new grain continues (-1: none)
static std::vector<int> match(const State &o, const State &n)
{
  std::vector<int> pref, r;
  for (unsigned int g = 0; g < n.id.size(); ++g)
    pref.push_back(preferred(o, n, g));
  for (unsigned int g = 0; g < n.id.size(); ++g)
    {
      int p = pref[g];
      for (unsigned int k = 0; k < n.id.size() && p >= 0; ++k)
        if (k != g && pref[k] == p && centers(o, n, p, k) < centers(o, n, p, g))
          p = -1; // another one is closer
      r.push_back(p);
    }
  return r;
}
static void transfer(const State &o, const State &n, unsigned int n_ops = 1)
{
  const auto res  = transfer_grain_ids<2>(n.grains, o.grains, n_ops);
  const auto want = match(o, n);
  hv_check_ieq(res.size(), n.id.size(), "every new grain is listed");
  for (unsigned int g = 0; g < n.id.size(); ++g)
    hv_check_ieq(res.at(n.id[g]), want[g] < 0 ? none : o.id[want[g]], "identity of the grain it continues");
  for (unsigned int g = 0; g < n.id.size(); ++g)
    for (unsigned int k = 0; k < g; ++k)
      hv_check((res.at(n.id[g]) == none) | (res.at(n.id[g]) != res.at(n.id[k])), "no identity is given twice");
}
HV_SPEC(two_and_two)
{
  fresh();
  State o, n;
  o.add(3, 0, 1, 0);
  if (hv_pick("old", 1, 2) == 2)
    o.add(7, 0, 1, 0);
  n.add(0, 0, 1, 100);
  if (hv_pick("new", 1, 2) == 2)
    n.add(1, 0, 1, 100);
  transfer(o, n);
}
HV_SPEC(three_new)
{
  fresh();
  State o, n;
  o.add(3, 0, 1, 0);
  for (int i = 0; i < 3; ++i)
    n.add(i, 0, 1, 100);
  transfer(o, n);
}
HV_SPEC(three_old)
{
  fresh();
  State o, n;
  for (int i = 0; i < 3; ++i)
    o.add(2 * i, 0, 1, 0);
  n.add(0, 0, 1, 100);
  transfer(o, n);
}
HV_SPEC(nothing_before_or_after)
{
  fresh();
  State o, n, e;
  o.add(3, 0, 1, 0);
  n.add(0, 0, 1, 100);
  transfer(o, e);
  transfer(e, n);
  transfer(e, e);
}
// grains of other order parameters are no candidates
HV_SPEC(order_parameters)
{
  fresh();
  State o, n;
  o.add(3, hv_pick("o0", 0, 1), 1, 0);
  o.add(4, hv_pick("o1", 0, 1), 1, 0);
  n.add(0, hv_pick("n0", 0, 1), 1, 100);
  n.add(1, hv_pick("n1", 0, 1), 1, 100);
  transfer(o, n, 2);
}
// periodic grains have several segments
HV_SPEC(new_segments)
{
  fresh();
  State o, n;
  o.add(3, 0, 1, 0);
  o.add(7, 0, 1, 0);
  n.add(0, 0, 2, 100);
  transfer(o, n);
}
HV_SPEC(old_segments)
{
  fresh();
  State o, n;
  o.add(3, 0, 1, 0);
  o.add(7, 0, 2, 0);
  n.add(0, 0, 1, 100);
  transfer(o, n);
}
HV_SPEC(old_segments_two_new)
{
  fresh();
  reversed = false;
  State o, n;
  o.add(3, 0, 2, 0);
  n.add(0, 0, 1, 100);
  n.add(1, 0, 1, 100);
  transfer(o, n);
}

// One step of the tracker on top of the matching; the grains found in the new state are arbitrary.
static State                                                            detected;
static std::vector<std::vector<std::pair<unsigned int, unsigned int>>> particles;
namespace GrainTracker
{
  template <>
  std::map<unsigned int, Grain<2>> Tracker<2, double>::detect_grains(const BlockVectorType &, const unsigned int n, const bool)
  {
    hv_check_ieq(n, particles.size(), "number of order parameters");
    particle_ids_to_grain_ids = particles;
    return detected.grains;
  }
} // namespace GrainTracker
static double value(const char *n)
{
  return hv_real(n, 0, 0.05);
}
static void track(const std::vector<unsigned int> &old_ids, int n_new, unsigned int n_ops, int segments_of_first)
{
  fresh();
  hv_assume(!reversed);
  State o, n;
  for (unsigned int i = 0; i < old_ids.size(); ++i)
    o.add(old_ids[i], n_ops == 1 ? 0 : i % n_ops, 1, 0);
  particles.clear();
  particles.resize(n_ops);
  std::vector<double> v;
  for (int i = 0; i < n_new; ++i)
    {
      v.push_back(value(("value" + num(i)).c_str()));
      const unsigned int op = n_ops == 1 ? 0 : hv_pick(("op" + num(i)).c_str(), 0, n_ops - 1);
      n.add(i, op, i == 0 ? segments_of_first : 1, 100, v[i]);
      n.grains.at(i).set_grain_id(none);
    }
  // particles are numbered per order parameter, last grain first
  std::vector<std::pair<unsigned int, std::pair<unsigned int, unsigned int>>> where; // op, (grain, segment)
  for (int i = n_new - 1; i >= 0; --i)
    for (unsigned int s = 0; s < n.segments[i].size(); ++s)
      particles[n.op[i]].emplace_back(i, s);
  const auto want = match(o, n);
  detected        = n;
  const HvDoFHandler<2>    dh;
  const HvTriangulation<2> tria;
  const bool               allow = hv_pick("new grains allowed", 0, 1);
  Track  t(dh, tria, false, allow, false, 100, GrainRepresentation::spherical, 0.01, 0.02, 0.05, 0., 2, false, false, false);
  t.grains = o.grains;
  std::vector<double> ratio;
  const Track::BlockVectorType solution;
  bool                         failed = false, must_fail = false;
  for (int i = 0; i < n_new; ++i)
    must_fail = must_fail | ((want[i] < 0) & (v[i] > 0.02) & !allow);
  try
    {
      const auto r = t.track(solution, n_ops, true);
      hv_check_ieq(std::get<0>(r), 0, "no collisions are reported without reassignment");
      hv_check(!std::get<1>(r) & !std::get<2>(r), "nothing is reassigned");
    }
  catch (const std::exception &)
    {
      failed = true;
    }
  hv_check(failed == must_fail, "an error only if a new grain appears although that is not allowed");
  if (failed)
    return;
  unsigned int next = 0, count = 0; // smallest identity never used by the old grains
  for (const unsigned int i : old_ids)
    next = std::max(next, i + 1);
  std::vector<unsigned int> ids;
  for (int i = 0; i < n_new; ++i)
    {
      if (want[i] >= 0)
        ids.push_back(o.id[want[i]]);
      else if (v[i] > 0.02)
        {
          // any identity no old grain carries
          unsigned int id = none;
          for (const auto &[k, g] : t.grains)
            if (g.get_segments()[0].get_center()[0] == n.grains.at(i).get_segments()[0].get_center()[0])
              id = k;
          hv_check((id != none) & (id >= next), "a new grain gets a fresh identity");
          ids.push_back(id);
        }
      else
        ids.push_back(none);
      count += ids[i] != none;
    }
  hv_check_ieq(t.grains.size(), count, "number of grains");
  std::set<unsigned int> ops;
  for (int i = 0; i < n_new; ++i)
    {
      for (int k = 0; k < i; ++k)
        hv_check((ids[i] == none) | (ids[i] != ids[k]), "identities differ");
      if (ids[i] != none)
        {
          hv_check(t.grains.find(ids[i]) != t.grains.end(), "the grain is there");
          const auto &g = t.grains.at(ids[i]);
          hv_check_ieq(g.get_grain_id(), ids[i], "the grain knows its identity");
          hv_check_ieq(g.get_order_parameter_id(), n.op[i], "the order parameter is kept");
          hv_check_ieq(g.n_segments(), n.segments[i].size(), "the segments are kept");
          hv_check_eq(g.get_segments()[0].get_center()[0], 100 + n.segments[i][0], "the segments are kept");
          hv_check_ieq(g.get_dynamics(), want[i] < 0 ? Grain<2>::None : n.segments[i].size() > 1 ? Grain<2>::Growing : Grain<2>::Shrinking, "growing or shrinking");
          ops.insert(n.op[i]);
        }
    }
  hv_check(t.get_active_order_parameters() == ops, "active order parameters");
  hv_check(t.old_grains.size() == o.id.size(), "the old grains are kept");
  for (unsigned int i = 0; i < o.id.size(); ++i)
    hv_check(t.old_grains.find(o.id[i]) != t.old_grains.end(), "the old grains are kept");
  // particles lead to their grains, segments of grains are numbered consecutively
  std::set<unsigned int> numbers;
  unsigned int           n_particles = 0;
  for (unsigned int op = 0; op < n_ops; ++op)
    for (unsigned int p = 0; p < particles[op].size(); ++p, ++n_particles)
      {
        const auto [g, s] = t.get_grain_and_segment(op, p);
        hv_check_ieq(g, ids[particles[op][p].first], "a particle leads to its grain");
        hv_check_ieq(s, particles[op][p].second, "a particle leads to its segment");
        if (g != none)
          {
            const unsigned int k = t.get_grain_segment_index(g, s);
            hv_check(k < t.n_segments(), "segment number in range");
            hv_check(numbers.insert(k).second, "segments have different numbers");
          }
      }
  hv_check_ieq(t.n_segments(), n_particles, "number of segments");
  hv_check(t.empty() == (count == 0), "empty without grains");
}
HV_SPEC(track_two_and_two)
{
  track({1, 2}, 2, 1, 1);
}
HV_SPEC(track_one_old)
{
  track({1}, 2, 1, 1);
}
HV_SPEC(track_first)
{
  track({}, 2, 1, 1);
}
HV_SPEC(track_segments)
{
  track({5, 1}, 1, 1, 2);
}
HV_SPEC(track_order_parameters)
{
  track({0, 1}, 2, 2, 1);
}
