// Contracts of moving grains between order parameters: on a ghost mesh (hv_mesh.h) with arbitrary field
// values and every request, the real Tracker::remap leaves each grain's values in the requested order
// parameter and nothing else is touched.
// hv: flags -fno-access-control
// hv: assume deal.II meshes and vectors behave as the stand-ins of hv_mesh.h and hv_fem.h; boost's depth first search
// hv: bound up to four order parameters per cell, three cells, two unknowns per cell
#include <hv.h>
#include <hv_mesh.h>
#include <pf-applications/grain_tracker/tracker.h>
#include <string>
using namespace dealii;
using namespace GrainTracker;
using Track = Tracker<2, double>;
using Block = Track::BlockVectorType;

static const int none = -1;
static const int offset = 2;

static Track make(const HvDoFHandler<2> &dh, const HvTriangulation<2> &tria, bool old = false)
{
  return Track(dh, tria, false, true, false, 100, GrainRepresentation::spherical, 0.01, 0.02, 0.05, 0., offset, false, false, old);
}
// n cells side by side; neighbours share one unknown
static void chain(int n)
{
  hvm::mesh = hvm::Mesh();
  hvm::mesh.n_dofs_per_cell = 2;
  hvm::mesh.n_dofs = n + 1;
  Block::BlockType::partitioned_size = n + 1;
  for (int i = 0; i < n; ++i)
    {
      hvm::Cell c;
      c.active      = i;
      c.neighbor[0] = i - 1;
      c.neighbor[1] = i + 1 < n ? i + 1 : -1;
      c.center[0]   = i + 0.5;
      c.center[1]   = 0.5;
      c.dofs.push_back(i);
      c.dofs.push_back(i + 1);
      hvm::mesh.cells.push_back(c);
      hvm::mesh.coarse.push_back(i);
      hvm::mesh.active.push_back(i);
    }
}

// a configuration: grain[op][cell] is the number of the grain there, to[grain] its new order parameter
struct Config
{
  int                           n_op, n_cells;
  std::vector<std::vector<int>> grain;
  std::vector<int>              from, to;
};
static void setup(Track &t, const Config &c, bool reach_all = true)
{
  const int n = c.from.size();
  t.op_particle_ids.reinit(c.n_op);
  t.particle_ids_to_grain_ids.resize(c.n_op);
  for (int op = 0; op < c.n_op; ++op)
    {
      t.op_particle_ids.block(op).reinit(c.n_cells);
      for (int i = 0; i < c.n_cells; ++i)
        t.op_particle_ids.block(op)[i] = -1.;
    }
  for (int g = 0; g < n; ++g)
    {
      // grain numbers are not consecutive
      Grain<2> grain(3 * g + 1, c.to[g], c.from[g]);
      for (int i = 0; i < c.n_cells; ++i)
        if (c.grain[c.from[g]][i] == g)
          grain.add_segment(Point<2>(i + 0.5, 0.5), 0.25, 1., 1.);
      if (!reach_all)
        grain.distance_to_nearest_neighbor = 0.;
      t.grains.emplace(3 * g + 1, grain);
      auto &ids = t.particle_ids_to_grain_ids[c.from[g]];
      for (int i = 0; i < c.n_cells; ++i)
        if (c.grain[c.from[g]][i] == g)
          t.op_particle_ids.block(c.from[g])[i] = ids.size();
      ids.emplace_back(3 * g + 1, 0);
    }
}
static double R(const std::string &n)
{
  return hv_real(n.c_str(), -3, 3);
}
static std::string num(int i)
{
  return std::string(1, char('0' + i));
}
// values of a block vector: arbitrary where a grain is, zero elsewhere
static Block fields(const Config &c, const std::string &t)
{
  Block v(offset + c.n_op);
  for (int b = 0; b < offset + c.n_op; ++b)
    {
      v.block(b).reinit(hvm::mesh.n_dofs);
      for (int i = 0; i < hvm::mesh.n_dofs; ++i)
        {
          bool inside = true; // all cells around belong to the same grain or the field vanishes
          if (b >= offset)
            for (int k = 0; k < c.n_cells; ++k)
              for (const int d : hvm::mesh.cells[k].dofs)
                if (d == i && c.grain[b - offset][k] == none)
                  inside = false;
          v.block(b)[i] = inside ? R(t + num(b) + num(i)) : 0.;
        }
    }
  return v;
}
// whether grain g has values at unknown i
static bool reaches(const Config &c, int g, int i)
{
  for (int k = 0; k < c.n_cells; ++k)
    if (c.grain[c.from[g]][k] == g)
      for (const int d : hvm::mesh.cells[k].dofs)
        if (d == i)
          return true;
  return false;
}
static void verify(const Config &c, const Block &before, const Block &after)
{
  hv_check_ieq(after.n_blocks(), before.n_blocks(), "number of blocks");
  for (int b = 0; b < (int)before.n_blocks(); ++b)
    for (int i = 0; i < hvm::mesh.n_dofs; ++i)
      {
        int  source  = b - offset; // where the value comes from
        bool vacated = false, filled = false;
        if (b >= offset)
          for (unsigned int g = 0; g < c.from.size(); ++g)
            if (c.from[g] != c.to[g] && reaches(c, g, i))
              {
                if (c.to[g] == b - offset)
                  {
                    source = c.from[g];
                    filled = true;
                  }
                if (c.from[g] == b - offset)
                  vacated = true;
              }
        if (b < offset)
          hv_check_eq(after.block(b)[i], before.block(b)[i], "other fields stay untouched");
        else if (filled)
          hv_check_eq(after.block(b)[i], before.block(offset + source)[i], "a moved grain is found in its new order parameter");
        else if (vacated)
          hv_check_eq(after.block(b)[i], 0., "a vacated order parameter is empty");
        else
          hv_check_eq(after.block(b)[i], before.block(b)[i], "order parameters of unmoved grains stay untouched");
      }
}
// one cell with at most one grain per order parameter, any injective request
static Config request(int n_op, int first)
{
  Config c;
  c.n_op    = n_op;
  c.n_cells = 1;
  std::vector<bool> used(n_op, false);
  for (int op = 0; op < n_op; ++op)
    {
      c.grain.push_back({none});
      int to = op == 0 ? first : (int)hv_pick(("to" + num(op)).c_str(), -1, n_op - 1);
      if (to >= 0)
        {
          hv_assume(!used[to]);
          used[to]    = true;
          c.grain[op] = {(int)c.from.size()};
          c.from.push_back(op);
          c.to.push_back(to);
        }
    }
  return c;
}
static int n_moved(const Config &c)
{
  int n = 0;
  for (unsigned int g = 0; g < c.from.size(); ++g)
    n += c.from[g] != c.to[g];
  return n;
}
static void one_cell(int n_op, int first, bool old = false)
{
  chain(1);
  const Config             c = request(n_op, first);
  const HvDoFHandler<2>    dh;
  const HvTriangulation<2> tria;
  Track                    t = make(dh, tria, old);
  setup(t, c);
  const Block before = fields(c, "u");
  Block       after(before);
  hv_check_ieq(t.remap(after), n_moved(c), "number of moved grains");
  verify(c, before, after);
}
HV_SPEC(two_and_three_parameters)
{
  one_cell(hv_pick("n", 2, 3), hv_pick("to0", -1, 1));
}
HV_SPEC(three_parameters_last)
{
  one_cell(3, 2);
}
HV_SPEC(four_parameters_none)
{
  one_cell(4, -1);
}
HV_SPEC(four_parameters_0)
{
  one_cell(4, 0);
}
HV_SPEC(four_parameters_1)
{
  one_cell(4, 1);
}
HV_SPEC(four_parameters_2)
{
  one_cell(4, 2);
}
HV_SPEC(four_parameters_3)
{
  one_cell(4, 3);
}

// three cells: order parameter 0 holds a grain in the first cells and possibly another one in the last, further
// grains cover cells from 'first' to 'last'
static Config three_cells(const int n_op, const int which)
{
  Config c;
  c.n_op = n_op;
  c.n_cells = 3;
  c.grain.assign(n_op, std::vector<int>(3, none));
  const auto place = [&](int op, int first, int last, const char *t) {
    const int g = c.from.size();
    for (int k = first; k <= last; ++k)
      c.grain[op][k] = g;
    c.from.push_back(op);
    c.to.push_back(hv_pick(t, 0, n_op - 1));
  };
  if (which == 0)
    {
      place(0, 0, 0, "a");
      place(0, 2, 2, "b");
      place(1, 0, 1, "c");
      if (n_op > 2)
        place(2, 1, 2, "d");
    }
  else if (which == 1)
    {
      place(0, 0, 0, "a");
      place(1, 1, 1, "b");
      place(2, 2, 2, "c");
    }
  else
    {
      place(0, 0, 2, "a");
      place(1, 0, 0, "b");
      place(1, 2, 2, "c");
      place(2, 1, 2, "d");
    }
  // no two grains that touch may ask for the same order parameter
  for (unsigned int g = 0; g < c.from.size(); ++g)
    for (unsigned int h = 0; h < g; ++h)
      for (int i = 0; i < hvm::mesh.n_dofs; ++i)
        if (reaches(c, g, i) && reaches(c, h, i))
          hv_assume(c.to[g] != c.to[h]);
  return c;
}
static void several_cells(int n_op, int which, bool old = false)
{
  chain(3);
  const Config             c = three_cells(n_op, which);
  const HvDoFHandler<2>    dh;
  const HvTriangulation<2> tria;
  Track                    t = make(dh, tria, old);
  setup(t, c, false);
  const Block b0 = fields(c, "u"), b1 = fields(c, "v");
  auto        a0 = std::make_shared<Block>(b0), a1 = std::make_shared<Block>(b1);
  hv_check_ieq(t.remap(std::vector<std::shared_ptr<Block>>{a0, a1}), n_moved(c), "number of moved grains");
  verify(c, b0, *a0);
  verify(c, b1, *a1);
}
HV_SPEC(cells_two_parameters)
{
  several_cells(2, 0);
}
HV_SPEC(cells_three_parameters)
{
  several_cells(3, 0);
}
HV_SPEC(cells_neighbours)
{
  several_cells(3, 1);
}
HV_SPEC(cells_large_grain)
{
  several_cells(3, 2);
}

// the variant that moves grains by geometry, over the whole domain at once
HV_SPEC(old_two_and_three_parameters)
{
  one_cell(hv_pick("n", 2, 3), hv_pick("to0", -1, 1), true);
}
HV_SPEC(old_three_parameters_last)
{
  one_cell(3, 2, true);
}
HV_SPEC(old_four_parameters_none)
{
  one_cell(4, -1, true);
}
HV_SPEC(old_four_parameters_0)
{
  one_cell(4, 0, true);
}
HV_SPEC(old_four_parameters_1)
{
  one_cell(4, 1, true);
}
HV_SPEC(old_four_parameters_2)
{
  one_cell(4, 2, true);
}
HV_SPEC(old_four_parameters_3)
{
  one_cell(4, 3, true);
}
HV_SPEC(old_cells_two_parameters)
{
  several_cells(2, 0, true);
}
HV_SPEC(old_cells_three_parameters)
{
  several_cells(3, 0, true);
}
HV_SPEC(old_cells_neighbours)
{
  several_cells(3, 1, true);
}
HV_SPEC(old_cells_large_grain)
{
  several_cells(3, 2, true);
}
// a grain that has disappeared leaves nothing behind, the others keep their values
HV_SPEC(old_disappeared_grain)
{
  chain(3);
  Config c;
  c.n_op    = 2;
  c.n_cells = 3;
  c.grain   = {{none, none, 0}, {1, 1, none}};
  c.from    = {0, 1};
  c.to      = {0, 1};
  const HvDoFHandler<2>    dh;
  const HvTriangulation<2> tria;
  Track                    t = make(dh, tria, true);
  setup(t, c, false);
  t.old_grains = t.grains;
  Grain<2> gone(2, 0, 0);
  gone.add_segment(Point<2>(0.5, 0.5), 0.25, 1., 1.);
  gone.distance_to_nearest_neighbor = 0.;
  t.old_grains.emplace(2, gone);
  Block before = fields(c, "u");
  // remains of the grain that is gone
  Block after(before);
  after.block(offset)[0] = R("rest0");
  after.block(offset)[1] = R("rest1");
  hv_check_ieq(t.remap(after), 0, "nothing is moved");
  verify(c, before, after);
}

// The sequence itself: every grain is moved exactly once, by way of a temporary only to break a cycle, and no move
// overwrites a grain that is still waiting. The order in which the moves are listed is arbitrary.
static void sequence(int n_op, int first)
{
  const Config             c = request(n_op, first);
  std::vector<Remapping>   all;
  for (unsigned int g = 0; g < c.from.size(); ++g)
    if (c.from[g] != c.to[g])
      all.emplace_back(g, c.from[g], c.to[g]);
  const long             start = hv_pick("start", 0, 1);
  std::list<Remapping>   list;
  for (unsigned int k = 0; k < all.size(); ++k)
    list.push_back(start ? all[all.size() - 1 - k] : all[k]);
  const std::list<Remapping> copy(list);
  RemapGraph             graph;
  hv_check(graph.empty(), "no moves at first");
  bool some = false;
  for (const auto &r : copy)
    for (const auto &s : copy)
      if (r.to == s.from)
        {
          graph.add_remapping(r.from, r.to, r.grain_id);
          graph.add_remapping(s.from, s.to, s.grain_id);
          some = true;
        }
  hv_check(graph.empty() == !some, "empty without dependencies");
  const auto temps = graph.resolve_cycles(list);
  graph.rearrange(list);
  // cycles of the request
  int n_cycles = 0;
  for (unsigned int op = 0; op < (unsigned)n_op; ++op)
    {
      int at = op, smallest = op, k = 0;
      do
        {
          int next = -1;
          for (const auto &r : all)
            if ((int)r.from == at)
              next = r.to;
          at = next;
          if (at >= 0 && at < smallest)
            smallest = at;
        }
      while (at >= 0 && at != (int)op && ++k < n_op);
      n_cycles += at == (int)op && smallest == (int)op;
    }
  hv_check_ieq(temps.size(), n_cycles, "one temporary per cycle");
  hv_check_ieq(temps.size() + list.size(), all.size(), "every grain is moved once");
  std::vector<int> waiting(n_op, none); // grain whose values are in an order parameter
  for (const auto &r : all)
    waiting[r.from] = r.grain_id;
  std::vector<bool> done(c.from.size(), false);
  for (const auto &[a, b] : temps)
    {
      hv_check_ieq(a.grain_id, b.grain_id, "the same grain comes back from the temporary");
      hv_check_ieq(a.to, numbers::invalid_unsigned_int, "to the temporary");
      hv_check_ieq(b.from, numbers::invalid_unsigned_int, "from the temporary");
      hv_check_ieq(a.from, c.from[a.grain_id], "taken where the grain is");
      hv_check_ieq(b.to, c.to[a.grain_id], "brought to the requested place");
      waiting[a.from] = none;
    }
  for (const auto &r : list)
    {
      hv_check_ieq(r.from, c.from[r.grain_id], "taken where the grain is");
      hv_check_ieq(r.to, c.to[r.grain_id], "brought to the requested place");
      hv_check(!done[r.grain_id], "moved once");
      done[r.grain_id] = true;
      hv_check(waiting[r.from] == (int)r.grain_id, "the grain is still there");
      hv_check(waiting[r.to] == none, "nothing is overwritten");
      waiting[r.from] = none;
    }
  for (const auto &t : temps)
    hv_check(!done[t.first.grain_id] && waiting[t.second.to] == none, "nothing is overwritten at the end");
}
HV_SPEC(sequence_none)
{
  sequence(4, -1);
}
HV_SPEC(sequence_0)
{
  sequence(4, 0);
}
HV_SPEC(sequence_1)
{
  sequence(4, 1);
}
HV_SPEC(sequence_2)
{
  sequence(4, 2);
}
HV_SPEC(sequence_3)
{
  sequence(4, 3);
}
