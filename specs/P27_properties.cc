// Contracts of the quantities derived from labelled cells: extents, moments of inertia, contacts between order
// parameters and distances of the particles, for every labelling and owner of the cells.
// hv: flags -fno-access-control
// hv: assume deal.II meshes and vectors behave as the stand-ins of hv_mesh.h and hv_fem.h; messages are delivered once and unchanged, processes executed one after the other
// hv: bound meshes of up to six cells on up to three processes, two order parameters
#define HV_DISTRIBUTED
#include <hv.h>
#include <hv_mesh.h>
#include <src/grain_tracker/distributed_stitching.cc>
#include <pf-applications/grain_tracker/tracker.h>
#include <set>
#include <string>
using namespace dealii;
using namespace GrainTracker;
using Ids = hvm::CellVector;

static std::string num(int i)
{
  return std::string(1, char('0' + i));
}
static const double nothing = -1.;
// labels[i]: particle of cell i
static Ids vector_of(const std::vector<int> &labels)
{
  Ids v;
  v.reinit(std::shared_ptr<const Utilities::MPI::Partitioner>());
  for (double *x = v.begin(); x != v.end(); ++x)
    *x = labels[x - v.v.data()];
  v.update_ghost_values();
  return v;
}
static std::vector<int> any_labels(const std::string &name, const int n_particles)
{
  std::vector<int> l;
  for (unsigned int i = 0; i < hvm::mesh.active.size(); ++i)
    l.push_back(hv_pick((name + num(i)).c_str(), -1, n_particles - 1));
  return l;
}
// connected parts of the cells inside
static std::vector<int> connected_labels(const std::string &name, int &n_particles)
{
  const int        n = hvm::mesh.active.size();
  std::vector<int> l(n, -1);
  for (int i = 0; i < n; ++i)
    l[i] = hv_bool((name + num(i)).c_str()) ? i : -1;
  for (int k = 0; k < n; ++k)
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        if (l[i] >= 0 && l[j] >= 0 && hvm::touch(i, j))
          l[i] = l[j] = std::min(l[i], l[j]);
  n_particles = 0;
  std::vector<int> number(n, -1);
  for (int i = 0; i < n; ++i)
    if (l[i] == i)
      number[i] = n_particles++;
  for (int i = 0; i < n; ++i)
    l[i] = l[i] >= 0 ? number[l[i]] : -1;
  return l;
}
static const hvm::Cell &cell(int i)
{
  return hvm::mesh.cells[hvm::mesh.active[i]];
}

// radii, most remote points and moments of inertia; centres given
static void extents(const std::vector<int> owners)
{
  hvm::distribute(owners);
  const int              n = hvm::mesh.active.size(), n_particles = 2;
  const std::vector<int> l = any_labels("l", n_particles);
  std::vector<Point<2>>  centers;
  // not the centre of any cell
  centers.emplace_back(4., 2.5);
  centers.emplace_back(2.25, 1.);
  const HvDoFHandler<2> dh;
  hvp::run(owners.size(), [&](const int) {
    const Ids ids               = vector_of(l);
    const auto [radii, remotes] = compute_particles_radii(dh, ids, centers, true, nothing);
    const auto [radii_, none]   = compute_particles_radii(dh, ids, centers, false, nothing);
    const auto inertia          = compute_particles_inertia(dh, ids, centers, nothing);
    hv_check_ieq(radii.size(), n_particles, "one radius per particle");
    hv_check_ieq(remotes.size(), n_particles, "one remote point per particle");
    hv_check_ieq(inertia.size(), 3 * n_particles, "three moments per particle");
    for (int p = 0; p < n_particles; ++p)
      {
        double radius = 0, xx = 0, yy = 0, xy = 0;
        bool   some = false, is_point = false;
        for (int i = 0; i < n; ++i)
          if (l[i] == p)
            {
              some           = true;
              const double x = cell(i).center[0] - centers[p][0], y = cell(i).center[1] - centers[p][1];
              radius = std::max(radius, std::sqrt(x * x + y * y) + cell(i).size / 2);
              xx += cell(i).measure * x * x;
              yy += cell(i).measure * y * y;
              xy += cell(i).measure * x * y;
            }
        hv_check_eq(radii[p], radius, "the radius reaches around the farthest cell");
        hv_check_eq(radii_[p], radius, "the radius does not depend on what else is asked for");
        hv_check_eq(inertia[3 * p], yy, "moment of inertia around x");
        hv_check_eq(inertia[3 * p + 1], xx, "moment of inertia around y");
        hv_check_eq(inertia[3 * p + 2], -xy, "product of inertia");
        for (int i = 0; i < n; ++i)
          if (l[i] == p)
            {
              const double x = cell(i).center[0] - centers[p][0], y = cell(i).center[1] - centers[p][1];
              const double d = std::sqrt(x * x + y * y), s = 1. + cell(i).size / 2 / d;
              is_point |= hv_close(d + cell(i).size / 2, radius) & hv_close(remotes[p][0], s * x) & hv_close(remotes[p][1], s * y);
            }
        if (some)
          hv_check(is_point, "the most remote point is that of a farthest cell");
      }
  });
}
HV_SPEC(extents_serial)
{
  hvm::grid(4, 1);
  extents({4});
}
HV_SPEC(extents_two)
{
  hvm::grid(4, 1);
  extents({2, 2});
}
HV_SPEC(extents_three)
{
  hvm::grid(3, 1);
  extents({1, 1, 1});
}
HV_SPEC(extents_square)
{
  hvm::grid(2, 2);
  extents({1, 3});
}
HV_SPEC(extents_refined)
{
  hvm::grid(1, 1, {0});
  extents({2, 2});
}
// mirror images on different processes: equally far
HV_SPEC(extents_mirrored)
{
  hvm::grid(2, 1);
  hvm::distribute({1, 1});
  const std::vector<int>      l = {0, 0};
  const std::vector<Point<2>> centers(1, Point<2>(2., 1.));
  const HvDoFHandler<2>       dh;
  hvp::run(2, [&](const int) {
    const Ids ids               = vector_of(l);
    const auto [radii, remotes] = compute_particles_radii(dh, ids, centers, true, nothing);
    hv_check_eq(radii[0], 2, "radius");
    hv_check(hv_close(remotes[0][0], 2) | hv_close(remotes[0][0], -2), "the most remote point is that of a farthest cell");
    hv_check_eq(remotes[0][1], 0, "the most remote point is that of a farthest cell");
  });
}
HV_SPEC(moments_2d)
{
  Point<2, double> r(hv_real("x", -3, 3), hv_real("y", -3, 3));
  const double     m = hv_real("m", 0, 3);
  double           data[3], old[3];
  for (int i = 0; i < 3; ++i)
    old[i] = data[i] = hv_real(("d" + num(i)).c_str(), -3, 3);
  evaluate_inertia_properties(r, m, data);
  hv_check_eq(data[0], old[0] + m * r[1] * r[1], "moment around x");
  hv_check_eq(data[1], old[1] + m * r[0] * r[0], "moment around y");
  hv_check_eq(data[2], old[2] - m * r[0] * r[1], "product of inertia");
}
HV_SPEC(moments_3d)
{
  Point<3, double> r(hv_real("x", -3, 3), hv_real("y", -3, 3), hv_real("z", -3, 3));
  const double     m = hv_real("m", 0, 3);
  double           data[6], old[6];
  for (int i = 0; i < 6; ++i)
    old[i] = data[i] = hv_real(("d" + num(i)).c_str(), -3, 3);
  evaluate_inertia_properties(r, m, data);
  const int i[6] = {0, 1, 2, 0, 0, 1}, j[6] = {0, 1, 2, 1, 2, 2};
  for (int k = 0; k < 6; ++k)
    hv_check_eq(data[k], old[k] + m * ((i[k] == j[k] ? r[0] * r[0] + r[1] * r[1] + r[2] * r[2] : 0.) - r[i[k]] * r[j[k]]), "inertia tensor");
}

// contacts between particles of different order parameters: same cell or two cells with a common face
static void contacts(const std::vector<int> owners, const std::vector<int> fixed = {})
{
  hvm::distribute(owners);
  const int                     n = hvm::mesh.active.size();
  std::vector<std::vector<int>> l(2);
  int                           count[2];
  l[0]     = fixed.empty() ? any_labels("a", 1) : fixed;
  l[1]     = any_labels("b", 1);
  count[0] = 0;
  for (const int i : l[0])
    count[0] = std::max(count[0], i + 1);
  count[1] = 1;
  // every cell of the second one carries its own number
  for (int i = 0; i < n; ++i)
    l[1][i] = l[1][i] < 0 ? -1 : i;
  const HvDoFHandler<2> dh;
  hvp::run(owners.size(), [&](const int) {
    LinearAlgebra::distributed::DynamicBlockVector<double> ids(2);
    for (int b = 0; b < 2; ++b)
      ids.block(b) = vector_of(l[b]);
    const auto found = get_direct_neighbors(dh, ids, nothing);
    for (int p = 0; p < count[0]; ++p)
      for (int j = 0; j < n; ++j)
        {
          if (l[1][j] < 0)
            continue;
          bool touching = false;
          for (int i = 0; i < n; ++i)
            if (l[0][i] == p)
              touching |= i == j || hvm::touch(i, j);
          const std::pair<unsigned int, unsigned int> a(0, p), b(1, j);
          const auto ia = found.find(a), ib = found.find(b);
          hv_check((ia != found.end() && ia->second.count(b) > 0) == touching, "particles are neighbours exactly if they share a cell or a face");
          hv_check((ib != found.end() && ib->second.count(a) > 0) == touching, "neighbours know each other");
        }
    for (const auto &[a, set] : found)
      for (const auto &b : set)
        hv_check(a.first != b.first, "only particles of different order parameters are neighbours");
  });
}
HV_SPEC(contacts_serial)
{
  hvm::grid(3, 1);
  contacts({3});
}
HV_SPEC(contacts_two)
{
  hvm::grid(3, 1);
  contacts({1, 2}, {-1, 0, -1});
}
HV_SPEC(contacts_three)
{
  hvm::grid(4, 1);
  contacts({1, 2, 1}, {0, -1, -1, 1});
}
HV_SPEC(contacts_refined)
{
  hvm::grid(2, 1, {1});
  contacts({5}, {0, -1, -1, -1, -1});
}
HV_SPEC(contacts_refined_two)
{
  hvm::grid(2, 1, {0});
  contacts({4, 1}, {-1, 1, -1, -1, 0});
}

// distances between particles of one order parameter
static void distances(const std::vector<int> owners, const bool plane = false)
{
  hvm::distribute(owners);
  const int              n = hvm::mesh.active.size();
  int                    n_particles;
  const std::vector<int> l = connected_labels("l", n_particles);
  const HvDoFHandler<2>  dh;
  volatile double        two = 2;
  const double           h   = 2 / std::sqrt(two); // edge of a cell with the diameter of the ghost mesh
  // number of cells between two particles on the shortest way that meets no other particle
  const auto gap = [&](const int p, const int q) {
    std::vector<int> d(n, -1);
    for (int i = 0; i < n; ++i)
      if (l[i] == p)
        d[i] = 0;
    for (int k = 0; k < n; ++k)
      for (int i = 0; i < n; ++i)
        if (d[i] == k && (l[i] == p || l[i] < 0))
          for (int j = 0; j < n; ++j)
            if (d[j] < 0 && hvm::touch(i, j) && (l[j] < 0 || l[j] == q))
              d[j] = k + 1;
    int g = -1;
    for (int i = 0; i < n; ++i)
      if (l[i] == q && d[i] >= 0 && (g < 0 || d[i] - 1 < g))
        g = d[i] - 1;
    return g;
  };
  hvp::run(owners.size(), [&](const int) {
    const Ids  ids   = vector_of(l);
    const auto found = estimate_particle_distances(ids, dh, nothing);
    unsigned   pairs = 0;
    for (int p = 0; p < n_particles; ++p)
      for (int q = p + 1; q < n_particles; ++q)
        {
          const int g = gap(p, q);
          const auto it = found.find(std::make_pair((unsigned)p, (unsigned)q));
          if (plane && n_particles > 2)
            {
              // a third particle may be closer to what lies between
              if (it != found.end())
                {
                  ++pairs;
                  hv_check_le(h * g, it->second, "no distance shorter than the shortest way");
                }
              continue;
            }
          hv_check((it != found.end()) == (g >= 0), "a distance for exactly the pairs with a way between them");
          if (it != found.end())
            {
              ++pairs;
              hv_check_eq(it->second, h * g, "distance of two particles");
            }
        }
    hv_check_ieq(found.size(), pairs, "no other distances");
  });
}
HV_SPEC(distances_serial)
{
  hvm::grid(5, 1);
  distances({5});
}
HV_SPEC(distances_two)
{
  hvm::grid(4, 1);
  distances({2, 2});
}
HV_SPEC(distances_uneven)
{
  hvm::grid(4, 1);
  distances({1, 3});
}
HV_SPEC(distances_three)
{
  hvm::grid(4, 1);
  distances({1, 1, 2});
}
HV_SPEC(distances_single_cell)
{
  hvm::grid(3, 1);
  distances({1, 1, 1});
}
HV_SPEC(distances_plane)
{
  hvm::grid(3, 2);
  distances({6}, true);
}
HV_SPEC(distances_plane_two)
{
  hvm::grid(2, 2);
  distances({2, 2}, true);
}
