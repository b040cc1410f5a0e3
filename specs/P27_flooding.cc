// Contracts of finding grains in a distributed field: flood filling, exchange between processes and stitching give
// every connected particle one number on all processes, whatever part of the mesh a process owns.
// hv: flags -fno-access-control
// hv: assume deal.II meshes and vectors behave as the stand-ins of hv_mesh.h and hv_fem.h; messages are delivered once and unchanged, processes executed one after the other
// hv: bound meshes of up to seven cells on up to three processes
#define HV_DISTRIBUTED
#include <hv.h>
#include <hv_mesh.h>
#include <src/grain_tracker/distributed_stitching.cc>
#include <pf-applications/grain_tracker/tracker.h>
#include <string>
using namespace dealii;
using namespace GrainTracker;
using Cells = hvm::CellVector;

static std::string num(int i)
{
  return std::string(1, char('0' + i));
}
static const double threshold = 0.25, nothing = -1.;

struct Field
{
  Cells             v;
  std::vector<bool> inside; // per cell
  std::vector<int>  piece;  // particle of a cell: smallest cell connected to it, -1 outside
  int               n_pieces = 0;
  std::vector<int>  number;  // of a piece among all
};
static Field field(const char *name)
{
  const int n = hvm::mesh.active.size();
  Field     f;
  f.v.reinit(hvm::mesh.n_dofs);
  for (int i = 0; i < hvm::mesh.n_dofs; ++i)
    f.v(i) = hv_real((std::string(name) + num(i)).c_str(), 0, 0.5);
  for (int i = 0; i < n; ++i)
    {
      bool in = false;
      for (const int d : hvm::mesh.cells[hvm::mesh.active[i]].dofs)
        in |= f.v(d) > threshold;
      f.inside.push_back(in ? true : false);
      f.piece.push_back(in ? i : -1);
    }
  for (int k = 0; k < n; ++k)
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        if (f.inside[i] && f.inside[j] && hvm::touch(i, j))
          f.piece[i] = f.piece[j] = std::min(f.piece[i], f.piece[j]);
  for (int i = 0; i < n; ++i)
    f.n_pieces += f.piece[i] == i;
  return f;
}
static double largest(const Field &f, const int piece)
{
  double m = -1e300;
  for (unsigned int i = 0; i < f.piece.size(); ++i)
    if (f.piece[i] == piece)
      for (const int d : hvm::mesh.cells[hvm::mesh.active[i]].dofs)
        m = std::max(m, f.v(d));
  return m;
}

// the steps of detect_grains up to the properties of the particles
static void labels(const std::vector<int> owners, const bool graph)
{
  hvm::distribute(owners);
  const int                        n = hvm::mesh.active.size(), n_ranks = owners.size();
  const Field                      f = field("v");
  const HvDoFHandler<2>            dh;
  std::vector<std::vector<double>> seen(n_ranks);
  hvp::run(n_ranks, [&](const int r) {
    Cells ids;
    ids.reinit(std::shared_ptr<const Utilities::MPI::Partitioner>());
    auto [offset, global, maxima] = detect_local_particle_groups(ids, dh, f.v, graph, threshold, nothing);
    const auto max_values = compute_particles_max_values(dh, ids, global, offset, nothing, maxima);
    switch_to_global_indices(ids, global, offset, nothing);
    const auto [centers, measures] = compute_particles_info(dh, ids, max_values.size(), nothing);
    hv_check_ieq(max_values.size(), f.n_pieces, "as many numbers as particles");
    for (int i = 0; i < n; ++i)
      {
        if (!hvm::readable(i))
          continue;
        const double id = ids[i];
        hv_check((id == nothing) == !f.inside[i], "exactly the cells inside a particle are labelled");
        if (!f.inside[i])
          continue;
        hv_check(id >= 0 && id < f.n_pieces, "particles are numbered from 0");
        const int k = static_cast<int>(id);
        if (k < 0 || k >= f.n_pieces)
          continue;
        hv_check_eq(max_values[k], largest(f, f.piece[i]), "largest value of the particle");
        double area = 0, x = 0, y = 0;
        for (int j = 0; j < n; ++j)
          if (f.piece[j] == f.piece[i])
            {
              const auto &c = hvm::mesh.cells[hvm::mesh.active[j]];
              area += c.measure;
              x += c.measure * c.center[0];
              y += c.measure * c.center[1];
            }
        hv_check_eq(measures[k], area, "measure of the particle");
        hv_check_eq(centers[k][0] * area, x, "centre of the particle");
        hv_check_eq(centers[k][1] * area, y, "centre of the particle");
      }
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < i; ++j)
        if (f.inside[i] && f.inside[j] && hvm::readable(i) && hvm::readable(j))
          hv_check((ids[i] == ids[j]) == (f.piece[i] == f.piece[j]), "cells carry the same number exactly if the particle connects them");
    seen[r] = ids.v;
  });
  // the same on all processes
  for (int i = 0; i < n; ++i)
    for (int r = 0; r < n_ranks; ++r)
      for (int s = 0; s < r; ++s)
        {
          bool both = true;
          for (const int p : {r, s})
            {
              hvp::rank = p;
              both &= hvm::readable(i);
              hvp::rank = 0;
            }
          if (both)
            hv_check_eq(seen[r][i], seen[s][i], "processes agree on the number of a cell");
        }
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < i; ++j)
      {
        const int p = hvm::mesh.cells[hvm::mesh.active[i]].owner, q = hvm::mesh.cells[hvm::mesh.active[j]].owner;
        if (f.inside[i] && f.inside[j])
          hv_check((seen[p][i] == seen[q][j]) == (f.piece[i] == f.piece[j]), "particles have the same number everywhere and no two share one");
      }
}
HV_SPEC(square_serial)
{
  hvm::grid(2, 2);
  labels({4}, true);
}
HV_SPEC(square_two)
{
  hvm::grid(2, 2);
  labels({2, 2}, true);
}
HV_SPEC(square_uneven)
{
  hvm::grid(2, 2);
  labels({3, 1}, true);
}
HV_SPEC(square_three)
{
  hvm::grid(2, 2);
  labels({1, 2, 1}, true);
}
HV_SPEC(chain_three)
{
  hvm::grid(4, 1);
  labels({1, 2, 1}, true);
}
HV_SPEC(refined_serial)
{
  hvm::grid(2, 1, {1});
  labels({5}, true);
}
HV_SPEC(refined_first_serial)
{
  hvm::grid(2, 1, {0});
  labels({5}, true);
}
HV_SPEC(refined_two)
{
  hvm::grid(2, 1, {1});
  labels({1, 4}, true);
}
// stitching by cliques
HV_SPEC(chain_three_cliques)
{
  hvm::grid(4, 1);
  labels({1, 2, 1}, false);
}
HV_SPEC(square_cliques)
{
  hvm::grid(2, 2);
  labels({3, 1}, false);
}
