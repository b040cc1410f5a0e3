// out-of-line members of deal.II's exception base: an exception carries no state the properties depend on
#pragma once
#include <deal.II/base/exceptions.h>
namespace dealii
{
  ExceptionBase::ExceptionBase()
    : file("")
    , line(0)
    , function("")
    , cond("")
    , exc("")
    , n_stacktrace_frames(0)
  {}
  ExceptionBase::ExceptionBase(const ExceptionBase &)
    : ExceptionBase()
  {}
  void ExceptionBase::set_fields(const char *, const int, const char *, const char *, const char *) {}
  const char *ExceptionBase::what() const noexcept { return "dealii exception"; }
  void ExceptionBase::print_info(std::ostream &) const {}
} // namespace dealii
