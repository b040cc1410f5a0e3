// Contracts of detecting grains: Tracker::detect_grains for every field and owner of the cells, with refinement and
// periodic boundaries.
// hv: flags -fno-access-control
// hv: assume deal.II meshes and vectors behave as the stand-ins of hv_mesh.h and hv_fem.h; messages are delivered once and unchanged, processes executed one after the other
// hv: bound meshes of up to six cells on up to three processes, two order parameters
#define HV_DISTRIBUTED
#include <hv.h>
#include <hv_mesh.h>
#include <src/grain_tracker/distributed_stitching.cc>
#include <pf-applications/grain_tracker/tracker.h>
#include <string>
using namespace dealii;
using namespace GrainTracker;
using Track = Tracker<2, double>;
using Block = Track::BlockVectorType;

static std::string num(int i)
{
  return std::string(1, char('0' + i));
}
static const double threshold = 0.25;

struct Field
{
  std::vector<double> v;      // per cell
  std::vector<bool>   inside;
  std::vector<int>    piece, grain; // smallest cell connected to a cell, without and with the periodic boundary
};
enum Values
{
  fixed_values,
  any_values,
  in_or_out // only whether a cell is inside is arbitrary
};
static Field field(const std::string &name, const double period, const Values values)
{
  const int n = hvm::mesh.active.size();
  Field     f;
  for (int i = 0; i < n; ++i)
    {
      if (values == in_or_out)
        f.v.push_back(hv_bool((name + num(i)).c_str()) ? 0.5 + i : 0.125);
      else if (values == any_values)
        f.v.push_back(hv_real((name + num(i)).c_str(), 0, 0.5));
      else
        f.v.push_back(i % 3 == 1 ? 0.5 + i : 0.);
      const bool in = f.v[i] > threshold;
      f.inside.push_back(in ? true : false);
      f.piece.push_back(in ? i : -1);
    }
  f.grain = f.piece;
  for (int k = 0; k < n; ++k)
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        if (f.inside[i] && f.inside[j])
          {
            const bool t = hvm::touch(i, j);
            if (t)
              f.piece[i] = f.piece[j] = std::min(f.piece[i], f.piece[j]);
            if (t || (period > 0 && hvm::touch(i, j, period)))
              f.grain[i] = f.grain[j] = std::min(f.grain[i], f.grain[j]);
          }
  return f;
}
// all grains of the process hvp::rank
static void verify(const Track &t, const std::map<unsigned int, Grain<2>> &grains, const std::vector<Field> &fields, const bool numbered)
{
  const int n       = hvm::mesh.active.size();
  unsigned  n_grain = 0;
  for (unsigned int op = 0; op < fields.size(); ++op)
    for (int i = 0; i < n; ++i)
      n_grain += fields[op].grain[i] == i;
  hv_check_ieq(grains.size(), n_grain, "as many grains as connected parts of the order parameters");
  std::vector<std::pair<unsigned, int>> taken; // grain of the number
  for (unsigned int op = 0; op < fields.size(); ++op)
    {
      const Field &f = fields[op];
      for (int i = 0; i < n; ++i)
        {
          if (f.piece[i] != i)
            {
              if (hvm::readable(i) && !f.inside[i])
                hv_check(t.get_particle_index(op, i) == numbers::invalid_unsigned_int, "no particle outside");
              continue;
            }
          // one segment per piece, found by its centre
          double area = 0, x = 0, y = 0, top = -1e300;
          int    n_cells = 0;
          for (int j = 0; j < n; ++j)
            if (f.piece[j] == i)
              {
                const auto &c = hvm::mesh.cells[hvm::mesh.active[j]];
                area += c.measure;
                x += c.measure * c.center[0];
                y += c.measure * c.center[1];
                top = std::max(top, f.v[j]);
                ++n_cells;
              }
          double radius = 0;
          for (int j = 0; j < n; ++j)
            if (f.piece[j] == i)
              {
                const auto  &c  = hvm::mesh.cells[hvm::mesh.active[j]];
                const double dx = x / area - c.center[0], dy = y / area - c.center[1];
                radius = std::max(radius, std::sqrt(dx * dx + dy * dy) + c.size / 2);
              }
          int found = -1, id = -1;
          for (int j = 0; j < n; ++j)
            {
              if (f.piece[j] != i || !hvm::readable(j))
                continue;
              const unsigned int p = t.get_particle_index(op, j);
              hv_check(p < t.particle_ids_to_grain_ids[op].size(), "every cell inside belongs to a particle");
              if (p >= t.particle_ids_to_grain_ids[op].size())
                continue;
              hv_check(found < 0 || found == (int)p, "one number for all cells of a particle");
              found                     = p;
              const auto [grain_id, sg] = t.get_grain_and_segment(op, p);
              const auto it             = grains.find(grain_id);
              hv_check(it != grains.end(), "every particle belongs to a grain");
              if (it == grains.end())
                continue;
              const auto &g = it->second;
              hv_check_ieq(g.get_order_parameter_id(), op, "order parameter of the grain");
              if (numbered)
                hv_check_ieq(g.get_grain_id(), grain_id, "number of the grain");
              hv_check(sg < g.n_segments(), "every particle is a segment of its grain");
              if (sg >= g.n_segments())
                continue;
              const auto &s = g.get_segments()[sg];
              hv_check_eq(s.get_measure(), area, "measure of the segment");
              hv_check_eq(s.get_center()[0] * area, x, "centre of the segment");
              hv_check_eq(s.get_center()[1] * area, y, "centre of the segment");
              hv_check_eq(s.get_max_value(), top, "largest value of the segment");
              hv_check_eq(s.get_radius(), radius, "radius of the segment");
              id = grain_id;
            }
          if (id >= 0)
            {
              // segments of a grain are the pieces of its periodic images
              unsigned int pieces = 0;
              for (int j = 0; j < n; ++j)
                pieces += f.piece[j] == j && f.grain[j] == f.grain[i];
              hv_check_ieq(grains.at(id).n_segments(), pieces, "one segment per piece of the grain");
              for (const auto &o : taken)
                if ((int)o.second == id)
                  hv_check(o.first == op * 100 + f.grain[i], "no two grains share a number");
              taken.emplace_back(op * 100 + f.grain[i], id);
              for (const auto &o : taken)
                if (o.first == op * 100 + f.grain[i])
                  hv_check((int)o.second == id, "all pieces of a periodic grain have its number");
            }
        }
    }
}
static void detect(const std::vector<int> owners, const double period = 0, const Values values = any_values, const int n_op = 1)
{
  hvm::distribute(owners);
  const int          n = hvm::mesh.active.size(), n_ranks = owners.size();
  std::vector<Field> fields;
  for (int op = 0; op < n_op; ++op)
    fields.push_back(field("v" + num(op) + "_", period, op == 0 ? values : fixed_values));
  Block solution(2 + n_op);
  for (int b = 0; b < 2 + n_op; ++b)
    {
      solution.block(b).reinit(n);
      for (int i = 0; i < n; ++i)
        solution.block(b)[i] = b < 2 ? 1. : fields[b - 2].v[i];
    }
  const HvDoFHandler<2>                           dh;
  const HvTriangulation<2>                        tria;
  std::vector<std::map<unsigned int, Grain<2>>>   all(n_ranks);
  const bool numbered = n_ranks == 1;
  hvp::run(n_ranks, [&](const int r) {
    Track t(dh, tria, false, true, false, 100, GrainRepresentation::spherical, threshold, 0.3, 0.05, 0., 2, false, false, false);
    const auto grains = t.detect_grains(solution, n_op, numbered);
    verify(t, grains, fields, numbered);
    all[r] = grains;
  });
  for (int r = 1; r < n_ranks; ++r)
    {
      hv_check_ieq(all[r].size(), all[0].size(), "all processes find the same grains");
      for (const auto &[id, g] : all[0])
        {
          const auto it = all[r].find(id);
          hv_check(it != all[r].end(), "all processes give grains the same numbers");
          if (it == all[r].end())
            continue;
          const auto &h = it->second;
          hv_check_ieq(h.get_order_parameter_id(), g.get_order_parameter_id(), "same order parameter on all processes");
          hv_check_ieq(h.n_segments(), g.n_segments(), "same segments on all processes");
          if (h.n_segments() == g.n_segments())
            for (unsigned int s = 0; s < g.n_segments(); ++s)
              {
                const auto &a = g.get_segments()[s], &b = h.get_segments()[s];
                for (int d = 0; d < 2; ++d)
                  hv_check_eq(a.get_center()[d], b.get_center()[d], "same centre on all processes");
                hv_check_eq(a.get_measure(), b.get_measure(), "same measure on all processes");
                hv_check_eq(a.get_radius(), b.get_radius(), "same radius on all processes");
                hv_check_eq(a.get_max_value(), b.get_max_value(), "same largest value on all processes");
              }
        }
    }
}
HV_SPEC(chain_serial)
{
  hvm::grid(4, 1);
  detect({4});
}
HV_SPEC(chain_two)
{
  hvm::grid(3, 1);
  detect({2, 1});
}
HV_SPEC(periodic_serial)
{
  hvm::grid(4, 1, {}, true);
  detect({4}, 8);
}
HV_SPEC(periodic_two)
{
  hvm::grid(4, 1, {}, true);
  detect({3, 1}, 8);
}
HV_SPEC(periodic_three)
{
  hvm::grid(3, 1, {}, true);
  detect({1, 1, 1}, 6);
}
HV_SPEC(periodic_refined)
{
  hvm::grid(2, 1, {1}, true);
  detect({5}, 4);
}
HV_SPEC(periodic_refined_two)
{
  hvm::grid(2, 1, {1}, true);
  detect({1, 4}, 4, in_or_out);
}
HV_SPEC(square)
{
  hvm::grid(2, 2);
  detect({4});
}
HV_SPEC(two_parameters)
{
  hvm::grid(3, 1);
  detect({2, 1}, 0, in_or_out, 2);
}
