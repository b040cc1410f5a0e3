// The grain tracker hands out and takes in exactly its grains, and its copies know what it knows.
// hv: flags -fno-access-control
// hv: assume deal.II meshes behave as the stand-ins of hv_mesh.h
// hv: bound up to three grains with up to two segments
#include <hv.h>
#include <hv_mesh.h>
#include <pf-applications/grain_tracker/tracker.h>
#include <string>
using namespace dealii;
using namespace GrainTracker;
using Track = Tracker<2, double>;
static std::string num(int i)
{
  return std::string(1, char('0' + i));
}
static double R(const std::string &n)
{
  return hv_real(n.c_str(), -3, 3);
}
static Grain<2> grain(const std::string &t, unsigned int id, int n)
{
  Grain<2> g(id, hv_int((t + "op").c_str(), 0, 5), hv_int((t + "old").c_str(), 0, 5));
  for (int s = 0; s < n; ++s)
    {
      const std::string k = t + num(s);
      const Point<2>    c(R(k + "x"), R(k + "y"));
      const double      r = 1 + 0.25 * s + 0.125 * id; // the largest one is P11's
      g.add_segment(GrainTracker::Segment<2>(c, r, R(k + "m"), 0.5 + 0.0625 * (id + s), std::make_unique<RepresentationSpherical<2>>(c, r)));
    }
  g.set_dynamics(n == 0 ? Grain<2>::Shrinking : n == 1 ? Grain<2>::Growing : Grain<2>::None);
  g.distance_to_nearest_neighbor = R(t + "near");
  return g;
}
static void same(const Grain<2> &a, const Grain<2> &b)
{
  hv_check_ieq(a.get_grain_id(), b.get_grain_id(), "grain id");
  hv_check_ieq(a.get_order_parameter_id(), b.get_order_parameter_id(), "order parameter");
  hv_check_ieq(a.get_old_order_parameter_id(), b.get_old_order_parameter_id(), "old order parameter");
  hv_check_ieq(a.get_dynamics(), b.get_dynamics(), "dynamics");
  hv_check_eq(a.distance_to_nearest_neighbor, b.distance_to_nearest_neighbor, "distance to the next grain");
  hv_check_ieq(a.n_segments(), b.n_segments(), "number of segments");
  for (unsigned int i = 0; i < a.n_segments() && i < b.n_segments(); ++i)
    {
      const auto &s = a.get_segments()[i], &t = b.get_segments()[i];
      hv_check_eq(s.get_center()[0], t.get_center()[0], "centre of a segment");
      hv_check_eq(s.get_center()[1], t.get_center()[1], "centre of a segment");
      hv_check_eq(s.get_radius(), t.get_radius(), "radius of a segment");
      hv_check_eq(s.get_measure(), t.get_measure(), "measure of a segment");
      hv_check_eq(s.get_max_value(), t.get_max_value(), "value of a segment");
      const auto *p = dynamic_cast<const RepresentationSpherical<2> *>(s.representation.get());
      const auto *q = dynamic_cast<const RepresentationSpherical<2> *>(t.representation.get());
      hv_check(p != nullptr && q != nullptr && p != q, "every grain has its own description");
      if (p && q)
        {
          hv_check_eq(p->center[0], q->center[0], "centre of a sphere");
          hv_check_eq(p->center[1], q->center[1], "centre of a sphere");
          hv_check_eq(p->radius, q->radius, "radius of a sphere");
        }
    }
}
static void same(const std::map<unsigned int, Grain<2>> &a, const std::map<unsigned int, Grain<2>> &b)
{
  hv_check_ieq(a.size(), b.size(), "number of grains");
  for (const auto &[i, g] : a)
    {
      const auto it = b.find(i);
      hv_check(it != b.end(), "every grain is kept under its identity");
      if (it != b.end())
        same(g, it->second);
    }
}
static const unsigned int ids[] = {7, 0, 3};
static void fill(Track &t, const int n)
{
  for (int i = 0; i < n; ++i)
    {
      t.grains.emplace(ids[i], grain("g" + num(i), ids[i], (i + 1) % 3));
      if (i > 0)
        t.old_grains.emplace(ids[i] + 1, grain("o" + num(i), ids[i] + 1, 1));
      t.grain_segment_ids_numbering[ids[i]] = {{0, i + 1}, {1, 5 - i}};
      t.active_order_parameters.insert(2 * i);
      t.particle_ids_to_grain_ids.push_back({{ids[i], 1}, {i, 0}});
    }
  t.n_total_segments = 4;
  t.op_particle_ids.reinit(2);
  for (int b = 0; b < 2; ++b)
    {
      t.op_particle_ids.block(b).reinit(3);
      for (int i = 0; i < 3; ++i)
        t.op_particle_ids.block(b)[i] = i == b ? 4 + b : t.invalid_particle_id;
    }
}
HV_SPEC(saved_grains)
{
  const HvDoFHandler<2>    dh;
  const HvTriangulation<2> tria;
  Track a(dh, tria, true, false, true, 7, GrainRepresentation::spherical, 0.01, 0.02, 0.05, 0.125, 2, false, false, false);
  Track b(dh, tria, true, false, true, 7, GrainRepresentation::spherical, 0.01, 0.02, 0.05, 0.125, 2, false, false, false);
  const int n = hv_pick("n", 0, 3);
  fill(a, n);
  std::vector<Grain<2>> stored;
  a.save_grains(std::back_inserter(stored));
  hv_check_ieq(stored.size(), n, "every grain is stored once");
  hv_check(b.empty(), "nothing known before");
  b.load_grains(stored.cbegin(), stored.cend());
  same(a.get_grains(), b.get_grains());
  hv_check(b.empty() == (n == 0), "nothing known without grains");
}
HV_SPEC(copied_tracker)
{
  const HvDoFHandler<2>    dh;
  const HvTriangulation<2> tria;
  const bool   f[6]  = {hv_bool("greedy"), hv_bool("new"), hv_bool("fast"), false, false, hv_bool("remap")};
  const double lower = R("lower"), fresh = R("fresh"), ratio = R("ratio"), fixed = R("fixed");
  const auto   rep   = hv_pick("representation", 0, 2);
  const auto   kind  = rep == 0 ? GrainRepresentation::spherical : rep == 1 ? GrainRepresentation::elliptical : GrainRepresentation::wavefront;
  Track a(dh, tria, f[0], f[1], f[2], 7, kind, lower, fresh, ratio, fixed, 2, f[3], f[4], f[5]);
  const int n = 2;
  fill(a, n);
  const auto c = a.clone();
  hv_check(&c->dof_handler == &dh && &c->tria == &tria, "of the same mesh");
  hv_check(c->greedy_init == f[0] && c->allow_new_grains == f[1] && c->fast_reassignment == f[2] && c->do_logging == f[4] && c->use_old_remap == f[5], "same decisions");
  hv_check(c->max_order_parameters_num == 7 && c->order_parameters_offset == 2 && c->grain_representation == kind, "same limits");
  hv_check_eq(c->threshold_lower, lower, "threshold");
  hv_check_eq(c->threshold_new_grains, fresh, "threshold of new grains");
  hv_check_eq(c->buffer_distance_ratio, ratio, "buffer");
  hv_check_eq(c->buffer_distance_fixed, fixed, "fixed buffer");
  same(a.grains, c->grains);
  same(a.old_grains, c->old_grains);
  hv_check(c->get_active_order_parameters() == a.get_active_order_parameters(), "active order parameters");
  hv_check_ieq(c->n_segments(), 4, "number of segments");
  for (int i = 0; i < n; ++i)
    for (int s = 0; s < 2; ++s)
      {
        hv_check_ieq(c->get_grain_segment_index(ids[i], s), s == 0 ? i + 1 : 5 - i, "numbers of segments");
        hv_check(c->get_grain_and_segment(i, s) == a.get_grain_and_segment(i, s), "grains of particles");
      }
  for (int b = 0; b < 2; ++b)
    for (int i = 0; i < 3; ++i)
      hv_check_ieq(c->get_particle_index(b, i), i == b ? 4 + b : numbers::invalid_unsigned_int, "particles of cells");
  // independent of the original
  a.grains.at(ids[0]).set_order_parameter_id(9);
  a.op_particle_ids.block(0)[1] = 3;
  hv_check(c->grains.at(ids[0]).get_order_parameter_id() != 9, "a copy is independent");
  hv_check_ieq(c->get_particle_index(0, 1), numbers::invalid_unsigned_int, "a copy is independent");
}
// order parameters given by the user
HV_SPEC(chosen_order_parameters)
{
  const HvDoFHandler<2>    dh;
  const HvTriangulation<2> tria;
  Track a(dh, tria, true, false, true, 7, GrainRepresentation::spherical, 0.01, 0.02, 0.05, 0.125, 2, false, false, false);
  fill(a, 3);
  int       op[3];
  for (int i = 0; i < 3; ++i)
    op[i] = hv_pick(("op" + num(i)).c_str(), 0, 2);
  a.custom_reassignment([&](std::map<unsigned int, Grain<2>> &g) {
    for (int i = 0; i < 3; ++i)
      g.at(ids[i]).set_order_parameter_id(op[i]);
  });
  std::set<unsigned int> used;
  for (int i = 0; i < 3; ++i)
    {
      hv_check_ieq(a.get_grains().at(ids[i]).get_order_parameter_id(), op[i], "order parameter as chosen");
      used.insert(op[i]);
    }
  hv_check(a.get_active_order_parameters() == used, "exactly the chosen order parameters are active");
}
