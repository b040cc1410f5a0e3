// Every operation of the dynamic block vector from an arbitrary well-formed state: block-wise
// semantics, and the size bookkeeping is re-established (inductive class invariant).
// hv: flags -fno-access-control
// hv: assume doubles are reals
// hv: assume the blocks behave as mathematical vectors with a ghost flag (hv_fem.h)
// hv: bound at most three blocks with one or two entries each

#include <hv_dealii.h>
#include <hv_fem.h>
#include <pf-applications/lac/dynamic_block_vector.h>
#include <hv.h>
using namespace dealii;
using V = LinearAlgebra::distributed::DynamicBlockVector<double>;
using B = LinearAlgebra::distributed::Vector<double>;
using M = std::vector<std::vector<double>>;

// an arbitrary vector satisfying the invariant, and its content
static std::vector<int>
shape()
{
  std::vector<int> s(hv_pick("blocks", 0, 3));
  // equal sizes, growing sizes or falling sizes
  const int k = hv_pick("sizes", 0, 2);
  for (unsigned int b = 0; b < s.size(); ++b)
    s[b] = k == 0 ? 2 : k == 1 ? 1 + b : 3 - b;
  return s;
}
static V
make(const std::vector<int> &s, M &m, const char *name, bool ghosted = false)
{
  std::vector<std::shared_ptr<B>> blocks;
  m.clear();
  for (unsigned int b = 0; b < s.size(); ++b)
    {
      auto p = std::make_shared<B>(s[b]);
      m.emplace_back();
      for (int i = 0; i < s[b]; ++i)
        {
          (*p)(i) = hv_real(name, -2, 2);
          m[b].push_back((*p)(i));
        }
      p->ghosted = ghosted;
      blocks.push_back(p);
    }
  return V(blocks.begin(), blocks.end());
}
// the invariant, and the content is as given
static void
expect(V &v, const M &m, const char *what)
{
  hv_check_ieq(v.n_blocks(), m.size(), "number of blocks");
  long n = 0;
  const V &cv = v;
  for (unsigned int b = 0; b < m.size(); ++b)
    {
      hv_check_ieq(v.block(b).size(), m[b].size(), "size of a block");
      hv_check(&v.block(b) == v.block_ptr(b).get() && &cv.block(b) == cv.block_ptr(b).get(), "block and its pointer agree");
      n += m[b].size();
    }
  hv_check_ieq(v.size(), n, "size is the sum of the block sizes");
  n = 0;
  for (unsigned int b = 0; b < m.size(); ++b)
    for (unsigned int i = 0; i < m[b].size(); ++i, ++n)
      {
        hv_check_eq(v.block(b)(i), m[b][i], what);
        hv_check_eq(v(n), m[b][i], "global index runs over the blocks in order");
        hv_check_eq(v[n], m[b][i], "global index runs over the blocks in order");
        hv_check_eq(cv(n), m[b][i], "global index runs over the blocks in order");
        hv_check_eq(cv[n], m[b][i], "global index runs over the blocks in order");
      }
}
static void
unchanged(V &v, const M &m)
{
  expect(v, m, "operands stay untouched");
}

HV_SPEC(construction)
{
  const auto s = shape();
  const bool g = hv_bool("ghosted");
  M          m, k;
  V          v = make(s, m, "v", g);
  expect(v, m, "construction from blocks");
  V c(v);
  expect(c, m, "copies have the same content");
  for (unsigned int b = 0; b < s.size(); ++b)
    {
      hv_check(&c.block(b) != &v.block(b), "copies own their blocks");
      hv_check(c.block(b).has_ghost_elements() == g, "copies keep the ghost state");
      c.block(b)(0) = 7;
    }
  unchanged(v, m);
  V w = make(shape(), k, "w");
  w   = v;
  expect(w, m, "assignment replaces the content");
  w = w;
  expect(w, m, "self assignment changes nothing");
  V x(std::move(w));
  expect(x, m, "moving keeps the content");
  V y = make(s, k, "y");
  y   = std::move(x);
  expect(y, m, "moving keeps the content");
  V z(2);
  hv_check_ieq(z.n_blocks(), 2, "requested number of blocks");
  hv_check_ieq(z.size(), 0, "new blocks are empty");
}
HV_SPEC(swapping)
{
  M m, k;
  V v = make(shape(), m, "v"), w = make(shape(), k, "w");
  v.swap(w);
  expect(v, k, "swap exchanges the content");
  expect(w, m, "swap exchanges the content");
}
HV_SPEC(resizing)
{
  const auto s = shape();
  M          m;
  V          v = make(s, m, "v");
  const int  n = hv_pick("n", 0, 4);
  const B   *first = s.empty() ? nullptr : &v.block(0);
  v.reinit(n);
  M e(n);
  for (int b = 0; b < n; ++b)
    if (b < (int)s.size())
      e[b] = m[b];
    else if (!s.empty())
      e[b].assign(s[0], 0.);
  expect(v, e, "growing and shrinking keep the remaining blocks, new ones are zero");
  if (n > 0 && first)
    hv_check(first == &v.block(0), "remaining blocks are not replaced");
}
HV_SPEC(reinit_like)
{
  const auto s = shape();
  M          m, k;
  V          v = make(s, m, "v"), w = make(shape(), k, "w");
  w.reinit(v);
  for (auto &b : m)
    for (auto &x : b)
      x = 0;
  expect(w, m, "a vector set up like another one has its layout and is zero");
  V u;
  u.reinit(v, true);
  hv_check_ieq(u.size(), v.size(), "size is the sum of the block sizes");
  hv_check_ieq(u.n_blocks(), v.n_blocks(), "number of blocks");
}
HV_SPEC(moving_blocks)
{
  const auto s = shape();
  M          m;
  V          v = make(s, m, "v");
  if (s.empty())
    return;
  const int from = hv_pick("from", 0, s.size() - 1), to = hv_pick("to", 0, s.size() - 1);
  const B  *p = &v.block(from);
  v.move_block(from, to);
  const auto t = m[from];
  m.erase(m.begin() + from);
  m.insert(m.begin() + to, t);
  expect(v, m, "moving a block shifts the blocks in between");
  hv_check(p == &v.block(to), "blocks are moved, not copied");
}
HV_SPEC(inserting_blocks)
{
  const auto s = shape();
  M          m, k;
  V          v  = make(s, m, "v");
  const int  to = hv_pick("to", 0, s.size());
  V          w  = make({3}, k, "w");
  v.insert_block(w.block_ptr(0), to);
  m.insert(m.begin() + to, k[0]);
  expect(v, m, "inserting a block shifts the later blocks");
  hv_check(&v.block(to) == &w.block(0), "inserted blocks are shared");
}
HV_SPEC(removing_blocks)
{
  const auto s = shape();
  M          m;
  V          v = make(s, m, "v");
  if (s.empty())
    return;
  const int  from = hv_pick("from", 0, s.size() - 1);
  const B   *p    = &v.block(from);
  const auto r    = v.remove_block(from);
  hv_check(r.get() == p, "removing returns the block");
  m.erase(m.begin() + from);
  expect(v, m, "removing a block shifts the later blocks");
}
HV_SPEC(views)
{
  const auto s = shape();
  M          m;
  V          v     = make(s, m, "v");
  const int  start = hv_pick("start", 0, s.size());
  const int  end   = hv_pick("end", start, s.size());
  M          e(m.begin() + start, m.begin() + end);
  auto       a = v.create_view(start, end);
  expect(*a, e, "a view is the range of blocks");
  const V &c = v;
  const auto b = c.create_view(start, end);
  expect(const_cast<V &>(*b), e, "a view is the range of blocks");
  for (int i = start; i < end; ++i)
    {
      hv_check(&a->block(i - start) == &v.block(i), "views share the blocks");
      hv_check(&b->block(i - start) == &v.block(i), "views share the blocks");
      a->block(i - start)(0) = 3;
      m[i][0]                = 3;
    }
  expect(v, m, "writing through a view changes the vector");
}
HV_SPEC(algebra)
{
  const auto   s = shape();
  const double a = hv_real("a", -2, 2), c = hv_real("c", -2, 2);
  M            m, k, l, e;
  V            v = make(s, m, "v"), w = make(s, k, "w"), x = make(s, l, "x");
  const int    o = hv_pick("operation", 0, 16);
  e              = m;
  auto each      = [&](auto f) {
    for (unsigned int b = 0; b < m.size(); ++b)
      for (unsigned int i = 0; i < m[b].size(); ++i)
        e[b][i] = f(m[b][i], k[b][i], l[b][i]);
  };
  if (o == 0) v.add(a), each([&](double p, double, double) { return p + a; });
  if (o == 1) v.add(a, w), each([&](double p, double q, double) { return p + a * q; });
  if (o == 2) v.add(a, w, c, x), each([&](double p, double q, double r) { return p + a * q + c * r; });
  if (o == 3) v.sadd(a, w), each([&](double p, double q, double) { return a * p + q; });
  if (o == 4) v.sadd(a, c, w), each([&](double p, double q, double) { return a * p + c * q; });
  if (o == 5) v.scale(w), each([&](double p, double q, double) { return p * q; });
  if (o == 6) v.equ(a, w), each([&](double, double q, double) { return a * q; });
  if (o == 7) v *= a, each([&](double p, double, double) { return p * a; });
  if (o == 8)
    {
      hv_assume(a != 0);
      v /= a;
      each([&](double p, double, double) { return p / a; });
    }
  if (o == 9) v += w, each([&](double p, double q, double) { return p + q; });
  if (o == 10) v -= w, each([&](double p, double q, double) { return p - q; });
  if (o == 11) v = a, each([&](double, double, double) { return a; });
  if (o == 12) v.copy_locally_owned_data_from(w), each([&](double, double q, double) { return q; });
  if (o == 13)
    {
      const double d = v.add_and_dot(a, w, x);
      each([&](double p, double q, double) { return p + a * q; });
      double t = 0;
      for (unsigned int b = 0; b < m.size(); ++b)
        for (unsigned int i = 0; i < m[b].size(); ++i)
          t += e[b][i] * l[b][i];
      hv_check_eq(d, t, "dot product after the update");
    }
  if (o == 14) v += v, each([&](double p, double, double) { return 2 * p; });
  if (o == 15) v.equ(a, v), each([&](double p, double, double) { return a * p; });
  if (o == 16)
    {
      hv_check_eq(v * w, [&] {
        double t = 0;
        for (unsigned int b = 0; b < m.size(); ++b)
          for (unsigned int i = 0; i < m[b].size(); ++i)
            t += m[b][i] * k[b][i];
        return t;
      }(), "dot product is summed over all entries");
    }
  expect(v, e, "block vector operation acts on every entry");
  unchanged(w, k);
  unchanged(x, l);
}
HV_SPEC(reductions)
{
  const auto s = shape();
  M          m;
  V          v = make(s, m, "v");
  double     l1 = 0, l2 = 0, li = 0, sum = 0;
  long       n  = 0;
  for (const auto &b : m)
    for (const double x : b)
      {
        l1 += std::fabs(x);
        l2 += x * x;
        li = std::max(li, std::fabs(x));
        sum += x;
        ++n;
      }
  hv_check_eq(v.l1_norm(), l1, "l1 norm");
  const double r = v.l2_norm();
  hv_check(r >= 0, "l2 norm is not negative");
  hv_check_eq(r * r, l2, "l2 norm");
  hv_check_eq(v.linfty_norm(), li, "maximum norm");
  hv_check(v.all_zero() == (li == 0), "all zero");
  if (n > 0)
    hv_check_eq(v.mean_value(), sum / n, "mean over all entries");
  unchanged(v, m);
}
HV_SPEC(ghosts)
{
  const auto s = shape();
  M          m;
  V          v = make(s, m, "v", hv_bool("ghosted"));
  if (s.empty())
    return;
  v.update_ghost_values();
  for (unsigned int b = 0; b < s.size(); ++b)
    hv_check(v.block(b).has_ghost_elements(), "ghost values are updated in every block");
  hv_check(v.has_ghost_elements(), "ghost state");
  // growing a ghosted vector keeps the state
  V w(v);
  w.reinit(s.size() + 1);
  hv_check(w.block(s.size()).has_ghost_elements(), "new blocks have the ghost state of the vector");
  v.zero_out_ghost_values();
  for (unsigned int b = 0; b < s.size(); ++b)
    hv_check(!v.block(b).has_ghost_elements(), "ghost values are cleared in every block");
  hv_check(!v.has_ghost_elements(), "ghost state");
  unchanged(v, m);
}
HV_SPEC(block_access)
{
  M    m;
  V    v = make({2, 1}, m, "v");
  const V &c = v;
  hv_check_ieq(Sintering::internal::n_blocks(v), 2, "number of blocks of a block vector");
  hv_check(&Sintering::internal::block(v, 1) == &v.block(1) && &Sintering::internal::block(c, 1) == &v.block(1), "block of a block vector");
  B        &b = v.block(0);
  const B  &cb = b;
  hv_check_ieq(Sintering::internal::n_blocks(b), 1, "a plain vector is one block");
  hv_check(&Sintering::internal::block(b, 0) == &b && &Sintering::internal::block(cb, 0) == &b, "a plain vector is its own block");
}
