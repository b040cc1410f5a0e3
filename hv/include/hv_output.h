// Stand-ins (assumed contracts) for writing derived fields: a field given at the integration points is turned
// into nodal values that reproduce it there, constraints are resolved afterwards, and the output object records
// what it is handed (it copies the values, as deal.II does).
#pragma once
#include <hv_fem.h>
#include <deal.II/base/aligned_vector.h>
#include <deal.II/matrix_free/operators.h>
#include <deal.II/numerics/data_out.h>
#include <string>
#include <utility>
#include <vector>

namespace hvo
{
  struct Field
  {
    std::string         name;
    std::vector<double> values;
    bool                ghosted;
  };
} // namespace hvo
namespace dealii
{
  namespace MatrixFreeOperators
  {
    // the element of hv_fem.h has a degree of freedom for the value at each point
    template <int dim>
    class CellwiseInverseMassMatrix<dim, -1, 1, double, VectorizedArray<double, HV_LANES>>
    {
    public:
      using VA = VectorizedArray<double, HV_LANES>;
      using Fe = FEEvaluation<dim, -1, 0, 1, double, VA>;
      const Fe &fe;
      CellwiseInverseMassMatrix(const Fe &fe)
        : fe(fe)
      {}
      void transform_from_q_points_to_basis(const unsigned int n, const VA *in, VA *out) const
      {
        hv_check_ieq(n, 1, "fields are converted one by one");
        for (unsigned int q = 0; q < hv::NQ; ++q)
          {
            out[q * (1 + dim)] = in[q];
            for (int d = 0; d < dim; ++d)
              out[q * (1 + dim) + 1 + d] = VA(0.);
          }
      }
    };
  } // namespace MatrixFreeOperators
  template <>
  class DataOut<2, 2>
  {
  public:
    std::vector<hvo::Field> fields;
    template <typename V>
    void add_data_vector(const V &v, const std::string &name)
    {
      fields.push_back({name, v.v, v.has_ghost_elements()});
    }
    // one value per cell
    void add_data_vector(const Vector<double> &v, const std::string &name)
    {
      fields.push_back({name, std::vector<double>(v.begin(), v.end()), false});
    }
    template <typename D, typename V>
    void add_data_vector(const D &, const V &v, const std::string &name)
    {
      fields.push_back({name, v.v, v.has_ghost_elements()});
    }
  };
} // namespace dealii
