// Reported statistics of a distributed field: pores, mesh quality, coordination number and areas of contours.
// hv: flags -fno-access-control
// hv: assume deal.II meshes and vectors behave as the stand-ins of hv_mesh.h and hv_fem.h; messages are delivered once and unchanged, processes executed one after the other
// hv: assume the marching cubes algorithm of deal.II yields the facets of the contour of the field it is given (stand-in: any facets)
// hv: bound meshes of up to five cells on up to three processes, two order parameters
#define HV_DISTRIBUTED
#include <hv_dealii.h>
#include <deal.II/base/geometry_info.h>
#include <deal.II/base/mpi_large_count.h>
#include <deal.II/base/mpi_remote_point_evaluation.h>
#include <deal.II/base/table_handler.h>
#include <deal.II/fe/fe_dgq.h>
#include <deal.II/grid/grid_tools.h>
#include <deal.II/matrix_free/fe_point_evaluation.h>
#include <deal.II/numerics/solution_transfer.h>
#include <deal.II/numerics/vector_tools.h>
#include <hv.h>
#include <hv_mesh.h>
#include <hv_surface.h>
#include <src/grain_tracker/distributed_stitching.cc>
#include <pf-applications/sintering/postprocessors.h>
#include <string>
using namespace dealii;
using namespace Sintering;
using Block = LinearAlgebra::distributed::DynamicBlockVector<double>;
using Filter = BoundingBoxFilter<2>;

static std::string num(int i)
{
  return std::string(1, char('0' + i));
}
static const hvm::Cell &cell(const int i)
{
  return hvm::mesh.cells[hvm::mesh.active[i]];
}
static Block field(const char *name, const unsigned int n_blocks, const double lo, const double hi)
{
  Block s(n_blocks);
  for (unsigned int b = 0; b < n_blocks; ++b)
    {
      s.block(b).reinit(hvm::mesh.n_dofs);
      for (int i = 0; i < hvm::mesh.n_dofs; ++i)
        s.block(b)(i) = hv_real((std::string(name) + num(b) + "_" + num(i)).c_str(), lo, hi);
    }
  return s;
}
static double size_of(const double x)
{
  return x < 0 ? -x : x;
}

// a pore is a connected set of cells in which no field reaches the threshold
static void pores(const std::vector<int> owners, const unsigned int n_blocks, const bool boxed = false)
{
  hvm::distribute(owners);
  const int    n = hvm::mesh.active.size(), n_ranks = owners.size();
  const double threshold = 0.75;
  Block        solution  = field("v", n_blocks, 0.5, 1);
  std::shared_ptr<Filter> box;
  const double border = 3;
  if (boxed)
    box = std::make_shared<Filter>(BoundingBox<2>(std::make_pair(Point<2>(-10, -10), Point<2>(border, 10))));
  std::vector<bool> empty;
  std::vector<int>  piece;
  int               n_pores = 0;
  for (int i = 0; i < n; ++i)
    {
      bool none = !boxed || cell(i).center[0] <= border;
      for (unsigned int b = 0; b < n_blocks; ++b)
        for (const int d : cell(i).dofs)
          none &= size_of(solution.block(b)(d)) < threshold;
      empty.push_back(none ? true : false);
      piece.push_back(none ? i : -1);
    }
  for (int k = 0; k < n; ++k)
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        if (empty[i] && empty[j] && hvm::touch(i, j))
          piece[i] = piece[j] = std::min(piece[i], piece[j]);
  for (int i = 0; i < n; ++i)
    n_pores += piece[i] == i;
  const HvDoFHandler<2>            dh;
  std::vector<std::vector<double>> seen(n_ranks);
  hvp::run(n_ranks, [&](const int r) {
    auto [ids, global, offset] = Postprocessors::internal::detect_pores(dh, solution, -1., threshold, std::shared_ptr<const Filter>(box));
    hv_check(!solution.block(0).has_ghost_elements(), "ghost values are released");
    hv_check_ieq(GrainTracker::number_of_stitched_particles(global, MPI_COMM_SELF), n_pores, "as many pores as connected empty regions");
    GrainTracker::switch_to_global_indices(ids, global, offset, -1.);
    for (int i = 0; i < n; ++i)
      if (hvm::readable(i))
        {
          hv_check((ids[i] == -1.) == !empty[i], "exactly the cells of pores are marked");
          if (empty[i])
            hv_check(ids[i] >= 0 && ids[i] < n_pores, "pores are numbered from 0");
        }
    seen[r] = ids.v;
  });
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < i; ++j)
      if (empty[i] && empty[j])
        hv_check((seen[cell(i).owner][i] == seen[cell(j).owner][j]) == (piece[i] == piece[j]),
                 "cells belong to the same pore exactly if they are connected");
  hv_cover("end");
}
HV_SPEC(pores_serial)
{
  hvm::grid(2, 2);
  pores({4}, 1);
}
HV_SPEC(pores_fields)
{
  hvm::grid(3, 1);
  pores({3}, 2);
}
HV_SPEC(pores_box)
{
  hvm::grid(3, 1);
  pores({2, 1}, 1, true);
}
HV_SPEC(pores_refined)
{
  hvm::grid(2, 1, {1});
  pores({5}, 1);
}
HV_SPEC(pores_two)
{
  hvm::grid(2, 2);
  pores({3, 1}, 1);
}
HV_SPEC(pores_three)
{
  hvm::grid(3, 1);
  pores({1, 1, 1}, 1);
}

// quality of a cell: 1 less the largest variation of any field on it
static void quality(const std::vector<int> owners, const unsigned int n_blocks)
{
  hvm::distribute(owners);
  const int    n        = hvm::mesh.active.size();
  Block        solution = field("v", n_blocks, -0.25, 1.25);
  double       expected = 1;
  for (int i = 0; i < n; ++i)
    for (unsigned int b = 0; b < n_blocks; ++b)
      for (const int d : cell(i).dofs)
        for (const int e : cell(i).dofs)
          expected = std::min(expected, 1 - (solution.block(b)(d) - solution.block(b)(e)));
  const HvDoFHandler<2> dh;
  hvp::run(owners.size(), [&](const int) {
    const double q = Postprocessors::estimate_mesh_quality_min(dh, solution);
    hv_check_eq(q, expected, "smallest quality of all cells of all processes");
    hv_check(!solution.block(0).has_ghost_elements(), "ghost values are released");
  });
  hv_cover("end");
}
HV_SPEC(quality_serial)
{
  hvm::grid(2, 1, {}, false, 2);
  quality({2}, 2);
}
HV_SPEC(quality_two)
{
  hvm::grid(3, 1, {}, false, 2);
  quality({2, 1}, 1);
}
HV_SPEC(quality_cell)
{
  hvm::grid(1, 1, {}, false, 4);
  quality({1}, 1);
}

// grains are in contact if they are found in the same cell
static void coordination(const std::vector<int> owners, const unsigned int n_op, const bool boxed)
{
  hvm::distribute(owners);
  const int n = hvm::mesh.active.size();
  using Track = GrainTracker::Tracker<2, double>;
  // order parameter op holds grains 2 op and 2 op + 1 as particles 0 and 1, particle 2 belongs to no grain
  std::vector<std::vector<int>> where(n_op);
  for (unsigned int op = 0; op < n_op; ++op)
    for (int i = 0; i < n; ++i)
      where[op].push_back(hv_pick(("particle" + num(op) + "_" + num(i)).c_str(), -1, op == 0 ? 2 : 1));
  std::shared_ptr<Filter> box;
  if (boxed)
    box = std::make_shared<Filter>(BoundingBox<2>(std::make_pair(Point<2>(0, 0), Point<2>(4, 4))));
  std::map<unsigned int, GrainTracker::Grain<2>> grains;
  std::vector<bool>                              counts;
  for (unsigned int g = 0; g < 2 * n_op; ++g)
    {
      grains.emplace(g, GrainTracker::Grain<2>(g, g / 2));
      // grain 1 sticks out of the box with its second segment
      const auto ball = [](const Point<2> c, const double r) { return std::make_unique<GrainTracker::RepresentationSpherical<2>>(c, r); };
      grains.at(g).add_segment(GrainTracker::Segment<2>(Point<2>(1 + 0.5 * g, 1), 0.5, 1, 1, ball(Point<2>(1 + 0.5 * g, 1), 0.5)));
      if (g == 1)
        grains.at(g).add_segment(GrainTracker::Segment<2>(Point<2>(2, 3.75), 0.5, 1, 1, ball(Point<2>(2, 3.75), 0.5)));
      counts.push_back(!(boxed && g == 1));
    }
  std::set<std::pair<int, int>> contacts;
  for (int i = 0; i < n; ++i)
    for (unsigned int a = 0; a < n_op; ++a)
      for (unsigned int b = 0; b < n_op; ++b)
        if (a != b && where[a][i] >= 0 && where[b][i] >= 0 && where[a][i] < 2 && where[b][i] < 2 && counts[2 * a + where[a][i]])
          contacts.insert({2 * a + where[a][i], 2 * b + where[b][i]});
  std::set<int> in_contact;
  for (const auto &c : contacts)
    in_contact.insert(c.first);
  const double expected = in_contact.empty() ? 0. : contacts.size() / double(in_contact.size());
  const HvDoFHandler<2>    dh;
  const HvTriangulation<2> tria;
  hvp::run(owners.size(), [&](const int) {
    Track t(dh, tria, false, true, false, 100, GrainTracker::GrainRepresentation::spherical, 0.1, 0.3, 0.05, 0., 2, false, false, false);
    t.grains = grains;
    t.op_particle_ids.reinit(n_op);
    t.particle_ids_to_grain_ids.resize(n_op);
    for (unsigned int op = 0; op < n_op; ++op)
      {
        t.op_particle_ids.block(op).reinit(n);
        for (int i = 0; i < n; ++i)
          t.op_particle_ids.block(op)[i] = where[op][i];
        for (unsigned int p = 0; p < 2; ++p)
          t.particle_ids_to_grain_ids[op].push_back({2 * op + p, 0});
        t.particle_ids_to_grain_ids[op].push_back({numbers::invalid_unsigned_int, numbers::invalid_unsigned_int});
      }
    const double r = Postprocessors::compute_average_coordination_number(dh, n_op, t, std::shared_ptr<const Filter>(box));
    hv_check_eq(r, expected, "average number of neighbours of a grain in contact");
  });
  hv_cover("end");
}
HV_SPEC(coordination_serial)
{
  hvm::grid(2, 1);
  coordination({2}, 2, false);
}
HV_SPEC(coordination_two)
{
  hvm::grid(2, 1);
  coordination({1, 1}, 2, false);
}
HV_SPEC(coordination_box)
{
  hvm::grid(2, 1);
  coordination({1, 1}, 2, true);
}
HV_SPEC(coordination_three)
{
  hvm::grid(1, 1);
  coordination({1}, 3, false);
}

// any facets of the contour of block b in cell i
static void surface(const std::vector<int> owners, const bool boxed)
{
  hvm::distribute(owners);
  const int n        = hvm::mesh.active.size();
  Block     solution = field("v", 2, 0, 1);
  hvm::contour.clear();
  const double iso = hv_real("iso", 0.2, 0.8), border = hv_real("border", 0.5, 3);
  hv_assume((border > 0) & (border < 10));
  double expected = 0;
  std::shared_ptr<Filter> box;
  if (boxed)
    box = std::make_shared<Filter>(BoundingBox<2>(std::make_pair(Point<2>(-1000, -1000), Point<2>(border, 1000))));
  for (int i = 0; i < n; ++i)
    {
      const int k = hv_pick(("facets" + num(i)).c_str(), 0, boxed || i > 0 ? 1 : 2);
      for (int f = 0; f < k; ++f)
        {
          hvm::Facet q;
          for (int v = 0; v < 2; ++v)
            q.vertex[v] = Point<2>(hv_real(("x" + num(i) + num(f) + num(v)).c_str(), 0, 4), v);
          hvm::contour[{&solution.block(0), i}].push_back(q);
          const double c = (q.vertex[0][0] + q.vertex[1][0]) / 2;
          hv_assume(c > -1000);
          hv_assume((c <= border) | (c > border + 0.001)); // the box has a small tolerance
          if (!boxed || c <= border)
            expected += q.measure();
        }
    }
  hvm::contour_level = iso;
  const HvDoFHandler<2> dh;
  const HvMapping<2>    mapping;
  hvp::run(owners.size(), [&](const int) {
    const double a = Postprocessors::compute_surface_area(mapping, dh, solution, iso, std::shared_ptr<const Filter>(box));
    hv_check_eq(a, expected, "area of the contour of the concentration inside the box");
  });
  hv_cover("end");
}
HV_SPEC(surface_serial)
{
  hvm::grid(2, 1);
  surface({2}, false);
}
HV_SPEC(surface_two)
{
  hvm::grid(2, 1);
  surface({1, 1}, true);
}

// facets of the contour of a grain that belong to a grain boundary
static void boundaries(const std::vector<int> owners, const unsigned int n_grains, const bool patterns, const bool boxed)
{
  hvm::distribute(owners);
  const int    n        = hvm::mesh.active.size();
  Block        solution = field("v", n_grains, 0, 1);
  const double iso = 0.5, lim = 0.125;
  if (patterns)
    for (int i = 0; i < n; ++i)
      for (unsigned int b = 0; b < n_grains; ++b)
        {
          const int p = hv_pick(("pattern" + num(b) + num(i)).c_str(), i > 0 || b > 1 ? 1 : 0, 2);
          for (int d = 0; d < 2; ++d)
            {
              const double x = solution.block(b)(cell(i).dofs[d]);
              if (d < p)
                hv_assume(x > iso);
              else
                hv_assume(x < iso);
            }
        }
  hvm::contour.clear();
  hvm::contour_level = iso;
  std::shared_ptr<Filter> box;
  const double            border = 2;
  if (boxed)
    box = std::make_shared<Filter>(BoundingBox<2>(std::make_pair(Point<2>(-1000, -1000), Point<2>(border, 1000))));
  double expected = 0;
  for (int i = 0; i < n; ++i)
    for (unsigned int b = 0; b < n_grains; ++b)
      {
        const auto at = [&](const unsigned int g, const int d) { return solution.block(g)(cell(i).dofs[d]); };
        const auto cut = [&](const unsigned int g) {
          const bool up = (at(g, 0) > iso) | (at(g, 1) > iso), down = (at(g, 0) < iso) | (at(g, 1) < iso);
          return up & down;
        };
        hvm::Facet q;
        for (int v = 0; v < 2; ++v)
          q.vertex[v] = Point<2>(hv_real(("x" + num(i) + num(b) + num(v)).c_str(), 0, 4), v);
        hvm::contour[{&solution.block(b), i}].push_back(q);
        // the grain boundary indicator: product of the grain with all others
        double ind[2] = {0, 0};
        bool   others = false;
        for (unsigned int g = 0; g < n_grains; ++g)
          if (g != b)
            {
              for (int d = 0; d < 2; ++d)
                ind[d] += at(g, d) * at(b, d);
              others |= cut(g);
            }
        const double x  = (q.vertex[0][0] + q.vertex[1][0]) / 2;
        const bool   in = (!boxed) | (x <= border);
        hv_assume(x > -1000);
        hv_assume((x <= border) | (x > border + 0.001)); // the box has a small tolerance
        const bool counts = cut(b) & ((ind[0] > lim) | (ind[1] > lim) | others) & (ind[0] * (1 - x) + ind[1] * x > lim) & in;
        expected += counts ? q.measure() / 2 : 0.;
      }
  const HvDoFHandler<2> dh;
  const HvMapping<2>    mapping;
  hvp::run(owners.size(), [&](const int) {
    const double a = Postprocessors::compute_grain_boundaries_area(mapping, dh, solution, iso, lim, std::shared_ptr<const Filter>(box));
    hv_check_eq(a, expected, "half the area of the facets of all grains at grain boundaries");
  });
  hv_cover("end");
}
HV_SPEC(boundaries_cell)
{
  hvm::grid(1, 1, {}, false, 2);
  boundaries({1}, 2, false, false);
}
HV_SPEC(boundaries_two)
{
  hvm::grid(2, 1, {}, false, 2);
  boundaries({1, 1}, 2, true, false);
}
HV_SPEC(boundaries_box)
{
  hvm::grid(1, 1, {}, false, 2);
  boundaries({1}, 2, true, true);
}
HV_SPEC(boundaries_three)
{
  hvm::grid(1, 1, {}, false, 2);
  boundaries({1}, 3, true, false);
}
