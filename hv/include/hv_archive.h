// A lossless archive (ghost model of boost's binary archives): scalars are appended
// to / taken from a tape in order, everything else goes through its own serialize().
#pragma once
#include <boost/serialization/array_wrapper.hpp>
#include <boost/serialization/serialization.hpp>
#include <boost/serialization/split_member.hpp>
#include <array>
#include <map>
#include <memory>
#include <set>
#include <type_traits>
#include <vector>

struct HvTape
{
  std::vector<double>       d;
  std::vector<long>         l;
  std::vector<unsigned char> kind;
  unsigned int              pd = 0, pl = 0, pk = 0;
  bool                      ok = true;
};

// classes stored through a pointer to their base are written with their class name: specialise for the base
template <typename T>
struct HvPolymorphic
{
  static constexpr bool value = false;
};

template <bool saving>
struct HvArchive
{
  using is_saving  = std::integral_constant<bool, saving>;
  using is_loading = std::integral_constant<bool, !saving>;
  HvTape &t;
  HvArchive(HvTape &t)
    : t(t)
  {}
  template <typename T>
  HvArchive &
  operator&(T &&x)
  {
    put(const_cast<std::remove_const_t<std::remove_reference_t<T>> &>(x));
    return *this;
  }
  template <typename T>
  HvArchive &
  operator<<(T &&x)
  {
    return *this & x;
  }
  template <typename T>
  HvArchive &
  operator>>(T &&x)
  {
    return *this & x;
  }

  template <typename T>
  void
  put(T &x)
  {
    if constexpr (std::is_floating_point_v<T>)
      {
        if constexpr (saving)
          {
            t.d.push_back(x);
            t.kind.push_back(1);
          }
        else
          {
            if (t.pk >= t.kind.size() || t.kind[t.pk] != 1)
              {
                t.ok = false;
                return;
              }
            ++t.pk;
            x = t.d[t.pd++];
          }
      }
    else if constexpr (std::is_enum_v<T> || std::is_integral_v<T>)
      {
        if constexpr (saving)
          {
            t.l.push_back((long)x);
            t.kind.push_back(2);
          }
        else
          {
            if (t.pk >= t.kind.size() || t.kind[t.pk] != 2)
              {
                t.ok = false;
                return;
              }
            ++t.pk;
            x = (T)t.l[t.pl++];
          }
      }
    else
      boost::serialization::serialize_adl(*this, x, 0u);
  }
  template <typename T>
  void
  put(const boost::serialization::array_wrapper<T> &a)
  {
    for (std::size_t i = 0; i < a.count(); ++i)
      put(const_cast<std::remove_const_t<T> &>(a.address()[i]));
  }
  template <typename T>
  void
  put(boost::serialization::array_wrapper<T> &a)
  {
    put(const_cast<const boost::serialization::array_wrapper<T> &>(a));
  }
  template <typename T, std::size_t n>
  void
  put(std::array<T, n> &a)
  {
    for (auto &x : a)
      put(x);
  }
  template <typename T, std::size_t n>
  void
  put(T (&a)[n])
  {
    for (auto &x : a)
      put(x);
  }
  template <typename T>
  void
  put(std::vector<T> &v)
  {
    unsigned long n = v.size();
    put(n);
    if (!saving)
      {
        if (!t.ok || n > 64)
          return;
        v.resize(n);
      }
    for (auto &x : v)
      put(x);
  }
  template <typename A, typename B>
  void
  put(std::pair<A, B> &p)
  {
    put(const_cast<std::remove_const_t<A> &>(p.first));
    put(p.second);
  }
  template <typename A, typename B>
  void
  put(std::map<A, B> &m)
  {
    unsigned long n = m.size();
    put(n);
    if (saving)
      for (auto &[a, b] : m)
        {
          put(const_cast<A &>(a));
          put(b);
        }
    else
      {
        m.clear();
        for (unsigned long i = 0; i < n && t.ok && i < 64; ++i)
          {
            A a{};
            put(a);
            put(m[a]);
          }
      }
  }
  template <typename A>
  void
  put(std::set<A> &m)
  {
    unsigned long n = m.size();
    put(n);
    if (saving)
      for (auto &a : m)
        put(const_cast<A &>(a));
    else
      {
        m.clear();
        for (unsigned long i = 0; i < n && t.ok && i < 64; ++i)
          {
            A a{};
            put(a);
            m.insert(a);
          }
      }
  }
  template <typename T>
  void
  put(std::unique_ptr<T> &p)
  {
    bool has = p != nullptr;
    put(has);
    if (!has)
      {
        p.reset();
        return;
      }
    if constexpr (HvPolymorphic<T>::value)
      HvPolymorphic<T>::put(*this, p);
    else
      {
        if constexpr (!saving)
          {
            if constexpr (std::is_default_constructible_v<T>)
              p = std::make_unique<T>();
          }
        if (p)
          put(*p);
      }
  }
  template <typename T>
  void
  put(std::shared_ptr<T> &p)
  {
    bool has = p != nullptr;
    put(has);
    if (!has)
      {
        p.reset();
        return;
      }
    if constexpr (!saving)
      {
        if constexpr (std::is_default_constructible_v<T>)
          p = std::make_shared<T>();
      }
    if (p)
      put(*p);
  }
  template <typename T>
  void
  save_binary(const T *, std::size_t)
  {}
  unsigned int
  get_library_version() const
  {
    return 19;
  }
};
using HvSave = HvArchive<true>;
using HvLoad = HvArchive<false>;
