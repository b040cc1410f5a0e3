// Contracts of the spherical and wavefront descriptions of grains, with the actual geometry.
// hv: flags -fno-access-control
// hv: assume doubles are reals
// hv: bound grains with up to three segments
#include <hv_dealii.h>
#include <pf-applications/grain_tracker/grain.h>
#include <hv.h>
#include <string>
using namespace dealii;
using namespace GrainTracker;

// every number is far below the largest floating point number, which stands for "none"
static void small(double x)
{
  hv_assume(x < 1e200);
  hv_assume(x > -1e200);
}
static double R(const std::string &n, double lo = -3, double hi = 3)
{
  return hv_real(n.c_str(), lo, hi);
}

// arbitrary description of a body: only its distances are known
struct GhostRep : public Representation
{
  int    side, index; // 0: this grain, 1: the other
  double (*dist)[4];
  bool   sphere;
  GhostRep(int s, int i, double (*d)[4], bool t)
    : side(s), index(i), dist(d), sphere(t)
  {}
  double distance(const Representation &other) const override
  {
    const auto &o = static_cast<const GhostRep &>(other);
    hv_check(o.side != side, "distance to a segment of the other grain");
    return side == 0 ? dist[index][o.index] : dist[o.index][index];
  }
  bool trivial() const override
  {
    return sphere;
  }
  void print(std::ostream &) const override {}
  std::unique_ptr<Representation> clone() const override
  {
    return std::make_unique<GhostRep>(*this);
  }
  void save(std::vector<double> &) const override {}
};

template <int dim>
static Point<dim> point(const std::string &n)
{
  Point<dim> p;
  for (unsigned int d = 0; d < dim; ++d)
    p[d] = R(n + char('0' + d));
  return p;
}

template <int dim>
struct Ghost
{
  int        n;
  Point<dim> c[4];
  double     r[4], m[4], v[4];
  Grain<dim> g;
  double     dist2(int i, const Ghost &o, int j) const
  {
    double s = 0;
    for (unsigned int d = 0; d < dim; ++d)
      s += (c[i][d] - o.c[j][d]) * (c[i][d] - o.c[j][d]);
    return s;
  }
};

// grain with n segments; mode 0: spheres through the short interface, 1: ghost representations,
// 2: segments without representation
template <int dim>
static void
make(Ghost<dim> &G, const std::string &t, int side, int n, int mode, double (*dist)[4], bool (*triv)(int, int), unsigned int id, unsigned int op, unsigned int oldop)
{
  G.n = n;
  G.g = Grain<dim>(id, op, oldop);
  for (int i = 0; i < n; ++i)
    {
      const std::string s = t + char('0' + i);
      G.c[i]              = point<dim>(s + "c");
      G.r[i]              = R(s + "r", 0.1, 1.);
      G.m[i]              = R(s + "m", 0.1, 1.);
      G.v[i]              = R(s + "v", 0.1, 1.);
      hv_assume(G.r[i] > 0);
      small(G.r[i]);
      small(G.v[i]);
      if (mode == 0)
        G.g.add_segment(G.c[i], G.r[i], G.m[i], G.v[i]);
      else if (mode == 1)
        G.g.add_segment(Segment<dim>(G.c[i], G.r[i], G.m[i], G.v[i], std::make_unique<GhostRep>(side, i, dist, triv(side, i))));
      else
        {
          const Segment<dim> seg(G.c[i], G.r[i], G.m[i], G.v[i], nullptr);
          G.g.add_segment(seg);
        }
    }
}
static bool no(int, int)
{
  return false;
}

HV_SPEC(symmetry_centers)
{
  static double D[4][4];
  Ghost<2>      A, B;
  make<2>(A, "a", 0, 2, 0, D, no, 1, 0, 0);
  make<2>(B, "b", 1, 1, 0, D, no, 2, 0, 0);
  const int k = hv_pick("kind", 0, 2);
  if (k == 0)
    hv_check_eq(A.g.distance_centers(B.g), B.g.distance_centers(A.g), "centre distance is symmetric");
  else if (k == 1)
    hv_check_eq(A.g.distance_lower_bound(B.g), B.g.distance_lower_bound(A.g), "lower bound is symmetric");
  else
    hv_check_eq(A.g.distance(B.g), B.g.distance(A.g), "distance of spheres is symmetric");
}

// spheres: centre distance minus radii; the lower bound is then exact
template <int dim>
static void spheres()
{
  static double D[4][4];
  Ghost<dim>    A, B;
  make<dim>(A, "a", 0, 1, 0, D, no, 1, 0, 0);
  make<dim>(B, "b", 1, 1, 0, D, no, 2, 0, 0);
  small(A.c[0].distance(B.c[0]));
  const double e = A.g.distance(B.g) + A.r[0] + B.r[0];
  hv_check_eq(e * e, A.dist2(0, B, 0), "centre distance minus radii");
  hv_check_le(0, e, "centre distance minus radii");
  hv_check_eq(A.g.distance(B.g), A.g.distance_lower_bound(B.g), "lower bound is exact for spheres");
  hv_check_eq(distance_between_spheres(A.c[0], A.r[0], B.c[0], B.r[0]), e - A.r[0] - B.r[0], "distance of two spheres");
  const RepresentationSpherical<dim> s(A.c[0], A.r[0]), t(B.c[0], B.r[0]);
  hv_check_eq(s.distance(t), e - A.r[0] - B.r[0], "distance of two spheres");
  hv_check(s.trivial(), "spheres are trivial");
  const auto q = s.clone();
  hv_check_eq(q->distance(t), s.distance(t), "clones have the same distances");
  std::vector<double> out;
  s.save(out);
  hv_check_ieq(out.size(), dim + 2, "output record");
  hv_check_eq(out[0], 1, "output record: kind");
  for (unsigned int d = 0; d < dim; ++d)
    hv_check_eq(out[1 + d], A.c[0][d], "output record: centre");
  hv_check_eq(out[1 + dim], A.r[0], "output record: radius");
}
HV_SPEC(spheres_2d)
{
  spheres<2>();
}
HV_SPEC(spheres_3d)
{
  spheres<3>();
}

HV_SPEC(overlaps_default)
{
  static double D[4][4];
  Ghost<2>      A, B;
  make<2>(A, "a", 0, 1, 0, D, no, 1, 0, 0);
  make<2>(B, "b", 1, 1, 0, D, no, 2, 0, 0);
  const double exact = A.g.distance(B.g), limit = 0.1 * (A.r[0] + B.r[0]);
  const bool   o = A.g.overlaps(B.g);
  if (exact < limit)
    hv_check(o, "grains closer than the buffers overlap");
  if (exact > limit)
    hv_check(!o, "grains farther apart than the buffers do not overlap");
}

// bodies described by their distances to the others
HV_SPEC(wavefront)
{
  std::map<std::pair<unsigned int, unsigned int>, double> d;
  const double x = R("x", 0, 3), y = R("y", 0, 3), z = R("z", 0, 3);
  d[{1, 0}] = x;
  d[{1, 2}] = y;
  d[{0, 2}] = z;
  small(x);
  small(y);
  small(z);
  const auto                       c = point<2>("c");
  const RepresentationWavefront<2> w(1, 1, c, d);
  const unsigned int               op = hv_pick("op", 0, 2), index = hv_pick("index", 0, 2);
  const RepresentationWavefront<2> o(op, index, c, {});
  const double                     r = w.distance(o);
  if (op == 1 && index == 0)
    hv_check_eq(r, x, "stored distance");
  else if (op == 1 && index == 2)
    hv_check_eq(r, y, "stored distance");
  else if (op == 0 && index == 2)
    hv_check_eq(r, z, "stored distance");
  else
    hv_check(r >= std::numeric_limits<double>::max() / 2, "bodies without contact are far away");
  hv_check(!w.trivial(), "not a sphere");
  const auto q = w.clone();
  hv_check_eq(q->distance(o), r, "clones have the same distances");
  std::vector<double> out;
  w.save(out);
  hv_check_ieq(out.size(), 4, "output record");
  hv_check_eq(out[0], 3, "output record: kind");
  hv_check_eq(out[1], c[0], "output record: centre");
  hv_check_eq(out[2], c[1], "output record: centre");
  hv_check_eq(out[3], (x < y ? x : y) / 2, "output record: half the distance within the order parameter");
}
