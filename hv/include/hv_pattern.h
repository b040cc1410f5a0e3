// sparsity patterns of deal.II as sets of entries; the static one always contains the diagonal
#pragma once
#include <deal.II/lac/dynamic_sparsity_pattern.h>
#include <deal.II/lac/sparsity_pattern.h>
#include <deal.II/lac/sparsity_tools.h>
#include <set>
#include <vector>
#ifdef HV_SYMBOLIC
namespace dealii
{
  struct HvPattern
  {
    std::vector<std::set<unsigned int>> rows;
    struct Entry
    {
      unsigned int r, c;
      unsigned int row() const { return r; }
      unsigned int column() const { return c; }
    };
    struct It
    {
      using iterator_category = std::forward_iterator_tag;
      using value_type        = Entry;
      using difference_type   = long;
      using pointer           = const Entry *;
      using reference         = const Entry &;
      const HvPattern                       *p;
      Entry                                  e;
      std::set<unsigned int>::const_iterator i;
      void settle()
      {
        while (e.r < p->rows.size() && i == p->rows[e.r].end())
          {
            ++e.r;
            if (e.r < p->rows.size())
              i = p->rows[e.r].begin();
          }
        if (e.r < p->rows.size())
          e.c = *i;
        else
          e.c = 0;
      }
      const Entry &operator*() const { return e; }
      const Entry *operator->() const { return &e; }
      It &operator++()
      {
        ++i;
        settle();
        return *this;
      }
      bool operator==(const It &o) const { return e.r == o.e.r && e.c == o.e.c; }
      bool operator!=(const It &o) const { return !(*this == o); }
    };
    It begin(unsigned int r) const
    {
      if (r >= rows.size())
        return {this, {r, 0}, {}};
      It i{this, {r, 0}, rows[r].begin()};
      i.settle();
      return i;
    }
    It begin() const { return begin(0); }
    It end(unsigned int r) const { return begin(r + 1); }
    It end() const { return begin(rows.size()); }
    unsigned int row_length(unsigned int r) const { return rows[r].size(); }
    unsigned int n_rows() const { return rows.size(); }
    bool exists(unsigned int r, unsigned int c) const { return rows[r].count(c) > 0; }
  };
  struct HvDynamicPattern : HvPattern
  {
    HvDynamicPattern(unsigned int n) { rows.resize(n); }
    void add(unsigned int r, unsigned int c) { rows[r].insert(c); }
  };
  struct HvStaticPattern : HvPattern
  {
    void copy_from(const HvDynamicPattern &d)
    {
      rows = d.rows;
      for (unsigned int r = 0; r < rows.size(); ++r)
        rows[r].insert(r);
    }
  };
} // namespace dealii
#  define SparsityPattern HvStaticPattern
#  define DynamicSparsityPattern HvDynamicPattern
#endif
