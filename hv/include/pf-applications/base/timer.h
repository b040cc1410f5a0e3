// stand-in for pf-applications/base/timer.h: timing has no effect on results
#pragma once
#include <deal.II/base/conditional_ostream.h>
#include <deal.II/base/timer.h>
#include <string>
class MyTimerOutput
{
public:
  MyTimerOutput(const bool = true) {}
  MyTimerOutput(std::ostream &, const bool = true) {}
  dealii::TimerOutput &operator()() { return *static_cast<dealii::TimerOutput *>(nullptr); }
  const dealii::TimerOutput &operator()() const { return *static_cast<const dealii::TimerOutput *>(nullptr); }
  void enter_subsection(const std::string) {}
  void leave_subsection(const std::string) {}
  void print_wall_time_statistics() const {}
  bool is_enabled() const { return false; }
};
class MyScope
{
public:
  MyScope(dealii::TimerOutput &, const std::string &, const bool = true) {}
  MyScope(MyTimerOutput &, const std::string &, const bool = true) {}
  MyScope(const std::string &, MyTimerOutput * = nullptr) {}
  ~MyScope() {}
};
class TimerPredicate
{
public:
  enum Type
  {
    never,
    n_calls,
    real_time,
    simulation_time
  };
  TimerPredicate(const std::string, const double = 0.0, const double = 0.0) {}
  TimerPredicate(const Type = Type::never, const double = 0.0, const double = 0.0) {}
  void reinit(const Type, const double, const double = 0.0) {}
  bool now(const double = 0.0) { return false; }
};
