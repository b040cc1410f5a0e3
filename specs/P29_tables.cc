// Tables of pores and grains: one row per pore or grain with exactly its properties.
// hv: flags -fno-access-control
// hv: assume deal.II meshes and vectors behave as the stand-ins of hv_mesh.h and hv_fem.h; messages are delivered once and unchanged, processes executed one after the other
// hv: assume deal.II's table keeps the values it is given (stand-in: columns of numbers); text and files are of no interest
// hv: bound meshes of up to five cells on up to two processes, three grains
#define HV_DISTRIBUTED
#define MAX_SINTERING_GRAINS 4
#define SINTERING_DIM 2
#include <hv_dealii.h>
#include <deal.II/base/geometry_info.h>
#include <deal.II/base/mpi_large_count.h>
#include <deal.II/base/mpi_remote_point_evaluation.h>
#include <deal.II/base/table_handler.h>
#include <deal.II/fe/fe_dgq.h>
#include <deal.II/grid/grid_tools.h>
#include <deal.II/matrix_free/fe_point_evaluation.h>
#include <deal.II/matrix_free/matrix_free.h>
#include <deal.II/matrix_free/fe_evaluation.h>
#include <deal.II/numerics/solution_transfer.h>
#include <deal.II/numerics/vector_tools.h>
#include <fstream>
#include <hv.h>
#include <hv_mesh.h>
#include <hv_surface.h>
#include <src/grain_tracker/distributed_stitching.cc>
#include <string>
namespace hvm
{
  using Columns = std::map<std::string, std::vector<double>>;
  static std::vector<Columns>     tables; // written so far
  static std::vector<std::string> files;
} // namespace hvm
namespace std
{
  struct hv_stringstream
  {
    int rdbuf() const { return 0; }
  };
  struct hv_ofstream
  {
    hv_ofstream(const std::string &name) { hvm::files.push_back(name); }
    hv_ofstream &operator<<(const int) { return *this; }
    void close() {}
  };
} // namespace std
namespace dealii
{
  class HvTableHandler
  {
  public:
    hvm::Columns c;
    template <typename T>
    void add_value(const std::string &k, const T v)
    {
      c[k].push_back(v);
    }
    void set_precision(const std::string &k, const unsigned int) { hv_check(c.find(k) != c.end(), "precision of an existing column"); }
    void write_text(std::hv_stringstream &) { hvm::tables.push_back(c); }
  };
} // namespace dealii
#include <pf-applications/sintering/postprocessors.h>
#define TableHandler HvTableHandler
#define stringstream hv_stringstream
#define ofstream hv_ofstream
#include <pf-applications/sintering/postprocessors_stats.h>
#undef stringstream
#undef ofstream
using namespace dealii;
using namespace Sintering;
using Block  = LinearAlgebra::distributed::DynamicBlockVector<double>;
using Filter = BoundingBoxFilter<2>;
using VA     = VectorizedArray<double, 1>;

static std::string num(int i)
{
  return std::string(1, char('0' + i));
}
static const hvm::Cell &cell(const int i)
{
  return hvm::mesh.cells[hvm::mesh.active[i]];
}
static void pores(const std::vector<int> owners, const bool boxed)
{
  hvm::distribute(owners);
  hvm::tables.clear();
  hvm::files.clear();
  const int    n = hvm::mesh.active.size();
  const double threshold = 0.75, border = 3;
  Block        solution(1);
  solution.block(0).reinit(hvm::mesh.n_dofs);
  std::vector<bool> empty;
  std::vector<int>  piece;
  for (int i = 0; i < n; ++i)
    {
      const bool filled = hv_bool(("filled" + num(i)).c_str());
      for (const int d : cell(i).dofs)
        solution.block(0)(d) = filled ? 0.75 + 0.125 * i : 0.5;
      empty.push_back(!filled && (!boxed || cell(i).center[0] <= border));
      piece.push_back(empty[i] ? i : -1);
    }
  std::shared_ptr<Filter> box;
  if (boxed)
    box = std::make_shared<Filter>(BoundingBox<2>(std::make_pair(Point<2>(-10, -10), Point<2>(border, 10))));
  for (int k = 0; k < n; ++k)
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        if (empty[i] && empty[j] && hvm::touch(i, j))
          piece[i] = piece[j] = std::min(piece[i], piece[j]);
  const HvDoFHandler<2> dh;
  hvp::run(owners.size(), [&](const int) { Postprocessors::output_porosity_stats(dh, solution, "pores", threshold, std::shared_ptr<const Filter>(box)); });
  hv_check(hvm::tables.size() == 1 && hvm::files.size() == 1, "one table is written");
  hv_check(hvm::files[0] == "pores", "to the file asked for");
  auto        &t       = hvm::tables[0];
  unsigned int n_pores = 0, row = 0;
  for (int i = 0; i < n; ++i)
    n_pores += piece[i] == i;
  for (const char *k : {"id", "measure", "radius", "x", "y"})
    hv_check_ieq(t[k].size(), n_pores, "one row per pore");
  for (unsigned int r = 0; r < n_pores; ++r)
    hv_check_eq(t["id"][r], r, "pores are numbered");
  std::vector<bool> found(n_pores, false);
  (void)row;
  for (int i = 0; i < n; ++i)
    if (piece[i] == i)
      {
        double area = 0, x = 0, y = 0, radius = 0;
        for (int j = 0; j < n; ++j)
          if (piece[j] == i)
            {
              area += cell(j).measure;
              x += cell(j).measure * cell(j).center[0];
              y += cell(j).measure * cell(j).center[1];
            }
        for (int j = 0; j < n; ++j)
          if (piece[j] == i)
            {
              const double dx = x / area - cell(j).center[0], dy = y / area - cell(j).center[1];
              radius = std::max(radius, std::sqrt(dx * dx + dy * dy) + cell(j).size / 2);
            }
        int here = -1;
        for (unsigned int r = 0; r < n_pores; ++r)
          if (!found[r] && hv_close(t["x"][r] * area, x) && hv_close(t["y"][r] * area, y))
            here = r;
        hv_check(here >= 0, "every pore has a row with its centre");
        if (here < 0)
          continue;
        found[here] = true;
        hv_check_eq(t["measure"][here], area, "measure of the pore");
        hv_check_eq(t["radius"][here], radius, "radius of the pore");
      }
}
HV_SPEC(pores_serial)
{
  hvm::grid(3, 1);
  pores({3}, false);
}
HV_SPEC(pores_two)
{
  hvm::grid(3, 1);
  pores({2, 1}, true);
}
HV_SPEC(pores_refined)
{
  hvm::grid(2, 1, {1});
  pores({5}, false);
}

struct Operator
{};
// grain 1 has two segments, grains 0 and 4 one each
static void grains(const bool moving, const bool data)
{
  hvm::grid(1, 1);
  hvm::distribute({1});
  hvm::tables.clear();
  hvm::files.clear();
  using Track = GrainTracker::Tracker<2, double>;
  const HvDoFHandler<2>    dh;
  const HvTriangulation<2> tria;
  const HvMapping<2>       mapping;
  Track t(dh, tria, false, true, false, 100, GrainTracker::GrainRepresentation::spherical, 0.1, 0.3, 0.05, 0., 2, false, false, false);
  struct G
  {
    unsigned int        id, op;
    std::vector<double> x, y, r, m, v;
    int                 index;
  };
  std::vector<G> all{{0, 1, {}, {}, {}, {}, {}, 3}, {1, 0, {}, {}, {}, {}, {}, 0}, {4, 2, {}, {}, {}, {}, {}, 2}};
  for (auto &g : all)
    {
      t.grains.emplace(g.id, GrainTracker::Grain<2>(g.id, g.op));
      for (int s = 0; s < (g.id == 1 ? 2 : 1); ++s)
        {
          const std::string k = num(g.id) + num(s);
          g.x.push_back(hv_real(("x" + k).c_str(), -1, 1));
          g.y.push_back(hv_real(("y" + k).c_str(), -1, 1));
          g.r.push_back(hv_real(("r" + k).c_str(), 0, 1));
          g.m.push_back(hv_real(("m" + k).c_str(), 0, 1));
          g.v.push_back(hv_real(("v" + k).c_str(), 0, 1));
          hv_assume((g.r[s] > 0) & (g.m[s] > 0) & (g.v[s] > 0));
          const Point<2> c(g.x[s], g.y[s]);
          t.grains.at(g.id).add_segment(GrainTracker::Segment<2>(c, g.r[s], g.m[s], g.v[s], std::make_unique<GrainTracker::RepresentationSpherical<2>>(c, g.r[s])));
          t.grain_segment_ids_numbering[g.id][s] = g.index + s;
        }
    }
  t.n_total_segments = 4;
  const double                     mt = hv_real("mt", 0, 2);
  AdvectionMechanism<2, double, VA> advection(moving, mt, 0.5);
  if (data)
    {
      advection.nullify_data(4);
      for (int k = 0; k < 4; ++k)
        for (int c = 0; c < 4; ++c)
          advection.grain_data(k)[c] = hv_real(("data" + num(k) + num(c)).c_str(), 0.5, 1);
      for (int k = 0; k < 4; ++k)
        hv_assume(advection.grain_data(k)[0] > 0);
    }
  const Operator op;
  Block          solution(1);
  solution.block(0).reinit(hvm::mesh.n_dofs);
  hvp::run(1, [&](const int) { Postprocessors::output_grains_stats(mapping, dh, op, t, advection, solution, "grains"); });
  hv_check(hvm::tables.size() == 1 && hvm::files.size() == 1, "one table is written");
  hv_check(hvm::files[0] == "grains", "to the file asked for");
  auto &q = hvm::tables[0];
  for (const char *k : {"id", "measure", "radius", "max_value", "order_parameter_id", "x", "y"})
    hv_check_ieq(q[k].size(), 3, "one row per grain");
  for (const char *k : {"volume", "fx", "fy", "t", "vx", "vy"})
    hv_check_ieq(q[k].size(), moving ? 3 : 0, "forces and velocities of every grain");
  for (int r = 0; r < 3; ++r)
    {
      const auto &g = all[r];
      double      m = 0, radius = 0, v = 0;
      for (unsigned int s = 0; s < g.x.size(); ++s)
        {
          m += g.m[s];
          radius = std::max(radius, g.r[s]);
          v      = std::max(v, g.v[s]);
        }
      hv_check_eq(q["id"][r], g.id, "number of the grain");
      hv_check_eq(q["order_parameter_id"][r], g.op, "order parameter of the grain");
      hv_check_eq(q["measure"][r], m, "measure of the grain");
      hv_check_eq(q["radius"][r], radius, "radius of the grain");
      hv_check_eq(q["max_value"][r], v, "largest value of the grain");
      if (g.x.size() > 1)
        continue; // a grain of several parts has no position of its own
      hv_check_eq(q["x"][r], g.x[0], "centre of the grain");
      hv_check_eq(q["y"][r], g.y[0], "centre of the grain");
      if (!moving || !data)
        continue;
      const double *d = advection.grain_data(g.index);
      hv_check_eq(q["volume"][r], d[0], "volume of the grain");
      hv_check_eq(q["fx"][r], d[1], "force on the grain");
      hv_check_eq(q["fy"][r], d[2], "force on the grain");
      hv_check_eq(q["t"][r], d[3], "torque on the grain");
      hv_check_eq(q["vx"][r] * d[0], mt * d[1], "velocity of the grain");
      hv_check_eq(q["vy"][r] * d[0], mt * d[2], "velocity of the grain");
    }
}
HV_SPEC(grains_table)
{
  grains(hv_bool("moving"), true);
}
HV_SPEC(grains_table_first)
{
  grains(true, false);
}
