// Contracts of the advection operators: segment forces, torques, volumes and velocities.
#pragma once
#include <hv_sintering.h>
#include <hv_tracker.h>
#include <pf-applications/sintering/operator_advection.h>
using namespace hvs;

struct Opt
{
  bool         cut_off     = false;
  bool         threshold   = false; // sharp detection of the boundary
  bool         smoothening = false;
  unsigned int cells       = 1;
};

// which particle of each order parameter is in a cell
static int
particle(int op, int cell)
{
  static const int t[4][6] = {{0, 1, 0, -1, 1, 0}, {0, 0, 1, 0, 0, -1}, {-1, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0}};
  return t[op][cell];
}

template <int dim>
struct Setup
{
  static constexpr int                n_torque = dim == 3 ? 3 : 1;
  Opt                                 o;
  int                                 n;
  MatrixFree<dim, double, VA>         mf;
  SinteringOperatorData<dim, VA>      data;
  GrainTracker::Tracker<dim, double>  tracker;
  double                              mt, mr, k, cgb, ceq, smooth;
  AdvectionMechanism<dim, double, VA> adv;
  BV                                  u;

  Setup(int n, Opt o)
    : o(o)
    , n(n)
    , mf(o.cells)
    , data(1, 1, provider(), time_data(1))
    , tracker(hvt::make<dim>())
    , mt(hv_real("mt", 0.1, 2))
    , mr(hv_real("mr", 0.1, 2))
    , k(hv_real("k", 1, 5))
    , cgb(o.threshold || o.smoothening ? hv_real("cgb", 0.05, 0.3) : hv_real("no_cgb", -1, 0))
    , ceq(hv_real("ceq", 0.5, 1))
    , smooth(o.smoothening ? hv_real("smoothening", 1, 10) : hv_real("no_smoothening", -1, 0))
    , adv(true, mt, mr)
  {
    hv_assume(o.threshold || o.smoothening ? cgb > 0 : cgb <= 0);
    hv_assume(o.smoothening ? smooth > 0 : smooth <= 0);
    data.set_n_components(n + 2);
    draw(u, mf, n + 2, "u", 0.05, 0.95);
    hv::points.resize(o.cells);
    hv::weights.resize(o.cells);
    for (unsigned int c = 0; c < o.cells; ++c)
      {
        for (auto &p : hv::points[c])
          for (auto &x : p)
            x = hv_real("point", -1, 1);
        for (auto &w : hv::weights[c])
          {
            w = hv_real("JxW", 0.1, 1);
            hv_assume(w > 0);
          }
      }
    if (o.cut_off)
      data.set_component_mask(mf, u, false, false, 0.5);

    // order parameter 0 hosts grain 4 with two segments, order parameter 1 hosts grain 9 and a
    // spurious particle without a grain, further order parameters host one grain each
    tracker.op_particle_ids.reinit(n);
    tracker.particle_ids_to_grain_ids.resize(n);
    for (int op = 0; op < n; ++op)
      {
        tracker.op_particle_ids.block(op).reinit(o.cells);
        for (unsigned int c = 0; c < o.cells; ++c)
          tracker.op_particle_ids.block(op)(c) = particle(op, c);
        const unsigned int           id = op == 0 ? 4 : 10 - op;
        GrainTracker::Grain<dim>     g(id, op);
        g.add_segment(hvt::point<dim>("center", -1, 1), 1., 1., 1.);
        tracker.particle_ids_to_grain_ids[op].emplace_back(id, 0);
        if (op == 0)
          {
            g.add_segment(hvt::point<dim>("center", -1, 1), 1., 1., 1.);
            tracker.particle_ids_to_grain_ids[op].emplace_back(id, 1);
          }
        if (op == 1)
          tracker.particle_ids_to_grain_ids[op].emplace_back(numbers::invalid_unsigned_int, numbers::invalid_unsigned_int);
        tracker.grains.emplace(id, g);
      }
    tracker.build_inverse_mapping();
  }
  bool active(unsigned int cell, int op) { return !o.cut_off || data.component_table[cell / HV_LANES][op]; }
  // segment of an order parameter in a cell
  bool valid(int op, int cell) const { return particle(op, cell) == 0 || (op == 0 && particle(op, cell) == 1); }
  unsigned int index(int op, int cell) const { return tracker.get_grain_segment_index(op == 0 ? 4 : 10 - op, particle(op, cell)); }
  double center(int op, int cell, int d) const { return tracker.grains.at(op == 0 ? 4 : 10 - op).get_segments()[particle(op, cell)].get_center()[d]; }
  double val(int b, int c, int q) const { return u.block(b)(c * mf.dofs + q * (1 + dim)); }
  double grad(int b, int c, int q, int d) const { return u.block(b)(c * mf.dofs + q * (1 + dim) + 1 + d); }
  // force density between two order parameters
  double force(int i, int j, int c, int q, int d) const
  {
    const double e = val(2 + i, c, q) * val(2 + j, c, q);
    double       w;
    if (o.smoothening)
      w = 1 / (1 + std::exp(-smooth * (e - cgb)));
    else if (o.threshold)
      w = e > cgb ? 1. : 0.;
    else
      w = 4 * e;
    return k * (val(0, c, q) - ceq) * w * (grad(2 + i, c, q, d) - grad(2 + j, c, q, d));
  }
  void check_indices()
  {
    std::vector<bool> used(tracker.n_segments(), false);
    for (int op = 0; op < n; ++op)
      for (int s = 0; s < (op == 0 ? 2 : 1); ++s)
        {
          const unsigned int i = tracker.get_grain_segment_index(op == 0 ? 4 : 10 - op, s);
          hv_check(i < used.size() && !used[i], "segments have distinct indices below their number");
          used[i] = true;
        }
  }
  // the velocity data of a cell against the stored coefficients
  void check_velocity()
  {
    for (unsigned int b = 0; b < mf.n_cell_batches(); ++b)
      {
        AdvectionVelocityData<dim, double, VA> vel(b, adv, data);
        const unsigned int                     lanes = mf.n_active_entries_per_cell_batch(b);
        unsigned int                           relevant = 0;
        for (int op = 0; op < n; ++op)
          {
            bool any = false;
            for (unsigned int l = 0; l < lanes; ++l)
              any = any || (active(b * HV_LANES, op) && valid(op, b * HV_LANES + l));
            hv_check(vel.has_velocity(op) == any, "an order parameter has a velocity in a cell iff one of its grains is there");
            if (active(b * HV_LANES, op))
              hv_check_ieq(vel.get_order_parameter_id(relevant++), op, "order parameters evaluated in a cell are numbered in order");
            if (!any)
              continue;
            Point<dim, VA> r;
            for (int d = 0; d < dim; ++d)
              for (unsigned int l = 0; l < HV_LANES; ++l)
                r[d][l] = hv_real("r", -1, 1);
            const auto v = vel.get_velocity(op, r);
            const auto t = vel.get_translation_velocity(op);
            for (unsigned int l = 0; l < lanes; ++l)
              {
                const unsigned int c = b * HV_LANES + l;
                if (!valid(op, c))
                  {
                    for (int d = 0; d < dim; ++d)
                      hv_check_eq(v[d][l], 0, "no velocity without a grain");
                    continue;
                  }
                const double *f   = adv.grain_data(index(op, c));
                const auto    vg  = adv.get_translation_velocity_for_grain(index(op, c));
                double        arm[3] = {0, 0, 0};
                for (int d = 0; d < dim; ++d)
                  arm[d] = r[d][l] - center(op, c, d);
                for (int d = 0; d < dim; ++d)
                  {
                    const double rot = dim == 2 ? (d == 0 ? -arm[1] * f[1 + dim] : arm[0] * f[1 + dim]) :
                                                  f[1 + dim + (d + 1) % 3] * arm[(d + 2) % 3] - f[1 + dim + (d + 2) % 3] * arm[(d + 1) % 3];
                    hv_check_eq(t[d][l], mt * f[1 + d] / f[0], "translation is the mobility times force per volume");
                    hv_check_eq(vg[d], mt * f[1 + d] / f[0], "translation of a grain is the same");
                    hv_check_eq(v[d][l], (mt * f[1 + d] + mr * rot) / f[0], "velocity is translation plus rotation about the centre of the grain");
                  }
              }
          }
      }
  }
  void assume_volumes()
  {
    for (unsigned int c = 0; c < o.cells; ++c)
      for (int op = 0; op < n; ++op)
        if (active(c, op) && valid(op, c))
          hv_assume(adv.grain_data(index(op, c))[0] > 0);
  }
};

template <int dim>
static void
generic(int n, Opt o)
{
  Setup<dim>                                s(n, o);
  AdvectionOperatorGeneric<dim, double, VA> op(s.k, s.cgb, s.ceq, s.smooth, s.mf, s.data, s.tracker, s.adv);
  // evaluating twice gives the same as evaluating once
  op.evaluate_forces(s.u);
  if (hv_bool("again"))
    op.evaluate_forces(s.u);
  s.check_indices();
  constexpr int       N = 1 + dim + Setup<dim>::n_torque;
  std::vector<double> ref(s.tracker.n_segments() * N, 0.);
  for (unsigned int c = 0; c < o.cells; ++c)
    for (int i = 0; i < n; ++i)
      if (s.active(c, i) && s.valid(i, c))
        {
          double *r = &ref[s.index(i, c) * N];
          for (unsigned int q = 0; q < hv::NQ; ++q)
            {
              double f[3] = {0, 0, 0}, x[3] = {0, 0, 0};
              for (int d = 0; d < dim; ++d)
                {
                  x[d] = hv::points[c][q][d] - s.center(i, c, d);
                  for (int j = 0; j < n; ++j)
                    if (j != i && s.active(c, j))
                      f[d] += s.force(i, j, c, q, d);
                }
              const double w = hv::weights[c][q];
              r[0] += s.val(2 + i, c, q) * w;
              for (int d = 0; d < dim; ++d)
                r[1 + d] += f[d] * w;
              if (dim == 2)
                r[3] += (x[0] * f[1] - x[1] * f[0]) * w;
              else
                for (int d = 0; d < 3; ++d)
                  r[4 + d] += (x[(d + 1) % 3] * f[(d + 2) % 3] - x[(d + 2) % 3] * f[(d + 1) % 3]) * w;
            }
          for (int d = 0; d < dim; ++d)
            hv_check_eq(s.adv.grain_center(s.index(i, c))[d], s.center(i, c, d), "segments keep their centre");
        }
  for (unsigned int i = 0; i < s.tracker.n_segments(); ++i)
    for (int d = 0; d < N; ++d)
      hv_check_eq(s.adv.grain_data(i)[d], ref[i * N + d],
                  d == 0      ? "volume of a segment is the integral of its order parameter" :
                  d < 1 + dim ? "force on a segment is the integral of the pairwise forces" :
                                "torque on a segment is the moment of its forces about its centre");
  s.assume_volumes();
  s.check_velocity();
  hv_cover("end");
}

// two grains: the forces balance
template <int dim>
static void
balance(Opt o)
{
  Setup<dim> s(2, o);
  for (unsigned int c = 0; c < o.cells; ++c)
    hv_assume(s.valid(0, c) && s.valid(1, c));
  AdvectionOperatorGeneric<dim, double, VA> op(s.k, s.cgb, s.ceq, s.smooth, s.mf, s.data, s.tracker, s.adv);
  op.evaluate_forces(s.u);
  for (int d = 0; d < dim; ++d)
    hv_check_eq(s.adv.grain_data(s.index(0, 0))[1 + d] + s.adv.grain_data(s.index(1, 0))[1 + d], 0, "contact forces are equal and opposite");
  // total moment about any point vanishes as well
  const double *a = s.adv.grain_data(s.index(0, 0)), *b = s.adv.grain_data(s.index(1, 0));
  for (int d = 0; d < (dim == 2 ? 1 : 3); ++d)
    {
      const int i = dim == 2 ? 0 : (d + 1) % 3, j = dim == 2 ? 1 : (d + 2) % 3;
      double    m = a[1 + dim + d] + b[1 + dim + d];
      m += s.center(0, 0, i) * a[1 + j] - s.center(0, 0, j) * a[1 + i];
      m += s.center(1, 0, i) * b[1 + j] - s.center(1, 0, j) * b[1 + i];
      hv_check_eq(m, 0, "contact moments about a fixed point are equal and opposite");
    }
  hv_cover("end");
}

template <int dim>
static void
weighted(int n, Opt o)
{
  Setup<dim>                                 s(n, o);
  AdvectionOperatorWeighted<dim, double, VA> op(s.k, s.cgb, s.ceq, s.smooth, s.mf, s.data, s.tracker, s.adv);
  op.evaluate_forces(s.u);
  if (hv_bool("again"))
    op.evaluate_forces(s.u);
  constexpr int       N = 1 + dim + Setup<dim>::n_torque;
  const unsigned int  m = s.tracker.n_segments();
  std::vector<double> volume(m, 0.), area(m * m, 0.), force(m * m * dim, 0.);
  std::vector<bool>   touch(m * m, false);
  for (unsigned int c = 0; c < o.cells; ++c)
    for (int i = 0; i < n; ++i)
      if (s.active(c, i) && s.valid(i, c))
        {
          const unsigned int a = s.index(i, c);
          for (unsigned int q = 0; q < hv::NQ; ++q)
            volume[a] += s.val(2 + i, c, q) * hv::weights[c][q];
          for (int j = 0; j < n; ++j)
            if (j != i && s.active(c, j) && s.valid(j, c))
              {
                const unsigned int b = s.index(j, c);
                touch[a * m + b]     = true;
                for (unsigned int q = 0; q < hv::NQ; ++q)
                  {
                    const double w = hv::weights[c][q];
                    area[a * m + b] += s.val(2 + i, c, q) * s.val(2 + j, c, q) * w;
                    for (int d = 0; d < dim; ++d)
                      force[(a * m + b) * dim + d] += s.force(i, j, c, q, d) * w;
                  }
              }
        }
  for (unsigned int a = 0; a < m; ++a)
    {
      const double *r = s.adv.grain_data(a);
      hv_check_eq(r[0], volume[a], "volume of a segment is the integral of its order parameter");
      for (int d = 0; d < dim; ++d)
        {
          double f = 0;
          for (unsigned int b = 0; b < m; ++b)
            if (touch[a * m + b] && std::fabs(area[a * m + b]) > 1e-10)
              f += force[(a * m + b) * dim + d] / area[a * m + b];
          hv_check_eq(r[1 + d], f, "force on a segment is the sum of its boundary averaged pairwise forces");
        }
      for (int d = 1 + dim; d < N; ++d)
        hv_check_eq(r[d], 0, "boundary averaged forces exert no torque");
    }
  s.assume_volumes();
  for (unsigned int b = 0; b < s.mf.n_cell_batches(); ++b)
    {
      AdvectionVelocityData<dim, double, VA> vel(b, s.adv, s.data);
      for (int i = 0; i < n; ++i)
        for (unsigned int l = 0; l < s.mf.n_active_entries_per_cell_batch(b); ++l)
          if (s.active(b * HV_LANES + l, i) && s.valid(i, b * HV_LANES + l))
            {
              const double *f = s.adv.grain_data(s.index(i, b * HV_LANES + l));
              hv_check(vel.has_velocity(i), "an order parameter has a velocity in a cell iff one of its grains is there");
              Point<dim, VA> r;
              for (int d = 0; d < dim; ++d)
                r[d] = VA(0.25 * d);
              const auto v = vel.get_velocity(i, r);
              for (int d = 0; d < dim; ++d)
                hv_check_eq(v[d][l], s.mt * f[1 + d] / f[0], "translation is the mobility times force per volume");
            }
    }
  hv_cover("end");
}
