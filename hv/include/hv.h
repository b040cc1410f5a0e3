// Specification interface.  Every spec is an extern "C" void spec_<name>().
// In the verifier the functions below are symbolic; in the compiled (replay /
// bounded) build hv_runtime.cc implements them on concrete values.
#pragma once
extern "C"
{
  double hv_real(const char *name, double lo, double hi); // arbitrary real; lo/hi only steer sampling
  long   hv_int(const char *name, long lo, long hi);      // arbitrary integer in [lo,hi]
  long   hv_pick(const char *name, long lo, long hi);     // case split over [lo,hi]
  bool   hv_bool(const char *name);
  void   hv_assume(bool);                                 // precondition
  void   hv_check(bool, const char *label);               // postcondition
  void   hv_lemma(bool, const char *label);               // proved, then usable
  void   hv_check_eq(double a, double b, const char *label);
  void   hv_check_le(double a, double b, const char *label);
  void   hv_check_ieq(long a, long b, const char *label);
  double hv_diff(double f, double x); // derivative of f with respect to the input x
  void   hv_cover(const char *label);
  int    hv_symbolic();
  bool   hv_close(double a, double b); // a == b over the reals
  void   hv_text(char *text, double x); // the text of a number (at most 32 characters)
  void   hv_fail(const char *label);
}
#define HV_SPEC(name) extern "C" __attribute__((used, noinline)) void spec_##name()
