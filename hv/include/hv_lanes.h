// A SIMD register of HV_LANES doubles as a plain array.  deal.II has no specialisation for this
// width, so it can be added; lane-wise semantics of the operators is what deal.II documents.
#pragma once
#include <deal.II/base/vectorization.h>
#ifndef HV_LANES
#  define HV_LANES 1
#endif
#if HV_LANES != 1
namespace dealii
{
  template <>
  class VectorizedArray<double, HV_LANES> : public VectorizedArrayBase<VectorizedArray<double, HV_LANES>, HV_LANES>
  {
  public:
    using value_type = double;
    double data[HV_LANES];
    VectorizedArray() = default;
    VectorizedArray(const double s) { *this = s; }
    template <typename U>
    VectorizedArray(const std::initializer_list<U> &l)
      : VectorizedArrayBase<VectorizedArray<double, HV_LANES>, HV_LANES>(l)
    {}
    VectorizedArray &operator=(const double s) &
    {
      for (int i = 0; i < HV_LANES; ++i)
        data[i] = s;
      return *this;
    }
    double       &operator[](const unsigned int i) { return data[i]; }
    const double &operator[](const unsigned int i) const { return data[i]; }
#define HV_OP(o)                                             \
  VectorizedArray &operator o(const VectorizedArray &v)      \
  {                                                          \
    for (int i = 0; i < HV_LANES; ++i)                       \
      data[i] o v.data[i];                                   \
    return *this;                                            \
  }
    HV_OP(+=) HV_OP(-=) HV_OP(*=) HV_OP(/=)
#undef HV_OP
    template <typename N>
    void load(const N *p)
    {
      for (int i = 0; i < HV_LANES; ++i)
        data[i] = p[i];
    }
    template <typename N>
    void store(N *p) const
    {
      for (int i = 0; i < HV_LANES; ++i)
        p[i] = data[i];
    }
    double sum() const
    {
      double s = 0;
      for (int i = 0; i < HV_LANES; ++i)
        s += data[i];
      return s;
    }
#define HV_FUN(name, e)                                             \
  VectorizedArray name() const                                      \
  {                                                                 \
    VectorizedArray r;                                              \
    for (int i = 0; i < HV_LANES; ++i)                              \
      r.data[i] = e(data[i]);                                       \
    return r;                                                       \
  }
    HV_FUN(get_sqrt, std::sqrt) HV_FUN(get_abs, std::fabs)
#undef HV_FUN
    VectorizedArray get_max(const VectorizedArray &o) const
    {
      VectorizedArray r;
      for (int i = 0; i < HV_LANES; ++i)
        r.data[i] = data[i] < o.data[i] ? o.data[i] : data[i];
      return r;
    }
    VectorizedArray get_min(const VectorizedArray &o) const
    {
      VectorizedArray r;
      for (int i = 0; i < HV_LANES; ++i)
        r.data[i] = o.data[i] < data[i] ? o.data[i] : data[i];
      return r;
    }
  };
  template <SIMDComparison predicate>
  VectorizedArray<double, HV_LANES>
  compare_and_apply_mask(const VectorizedArray<double, HV_LANES> &l, const VectorizedArray<double, HV_LANES> &r,
                         const VectorizedArray<double, HV_LANES> &t, const VectorizedArray<double, HV_LANES> &f)
  {
    VectorizedArray<double, HV_LANES> x;
    for (int i = 0; i < HV_LANES; ++i)
      x.data[i] = compare_and_apply_mask<predicate, double>(l.data[i], r.data[i], t.data[i], f.data[i]);
    return x;
  }
} // namespace dealii
#endif
