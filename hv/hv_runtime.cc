// Concrete runtime of the specification interface: replays a counterexample or
// samples inputs and runs the real, natively compiled code under the spec.
#include "include/hv.h"
#include <dlfcn.h>
#include <unistd.h>
#include <signal.h>
#include <cmath>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <random>
#include <set>
#include <string>
#include <vector>

namespace
{
  struct Assume
  {};
  struct Stop
  {};

  std::mt19937_64 rng;
  std::map<std::string, double> given; // replay values
  bool                          have_given = false;

  struct In
  {
    std::string name;
    double      v;
    bool        real;
  };
  std::vector<In> ins;      // inputs of this trial (first pass)
  bool            replaying = false; // later passes of a trial re-use ins
  size_t          draw      = 0;
  int             perturb   = -1;
  double          dh        = 0;
  bool            plain     = true; // sampling style of this trial

  struct D
  {
    double f;
    int    in;
    double d;
  };
  std::vector<D> ds;
  size_t         dcall = 0;
  int            phase = 0; // 0 record, 1 perturbed, 2 check
  std::vector<double> dvals;
  bool           usesdiff = false;
  long           nchecks = 0, trials = 0, useful = 0;
  std::set<std::string> covers, labels;
  bool           failed = false;
  std::string    faillabel;
  char           failmsg[400];
  std::set<std::vector<double>> distinct;
  const char *   replayout = nullptr;
  const char *   specname  = "";
  double         tolbase   = 1e-7;

  void write_replay(const char *why)
  {
    if (!replayout)
      return;
    FILE *f = fopen(replayout, "w");
    if (!f)
      return;
    fprintf(f, "# spec %s\n# fails: %s\n", specname, why);
    for (auto &i : ins)
      fprintf(f, "%s %.17g\n", i.name.c_str(), i.v);
    fclose(f);
  }

  void bad(const char *label, const char *fmt, double a, double b)
  {
    if (phase != 2)
      return;
    if (!failed)
      {
        failed    = true;
        faillabel = label;
        snprintf(failmsg, sizeof failmsg, fmt, a, b);
      }
    throw Stop();
  }

  double uni(double a, double b)
  {
    return std::uniform_real_distribution<double>(a, b)(rng);
  }

  double sample_real(double lo, double hi)
  {
    if (plain || uni(0, 1) < 0.6)
      return uni(lo, hi);
    switch (rng() % 6)
      {
        case 0:
          return lo;
        case 1:
          return hi;
        case 2:
          return (lo <= 0 && hi >= 0) ? 0. : lo;
        case 3:
          return (lo <= 1 && hi >= 1) ? 1. : hi;
        case 4:
          return std::floor(uni(lo, hi));
        default:
          {
            std::vector<double> c;
            for (auto &i : ins)
              if (i.real && i.v >= lo && i.v <= hi)
                c.push_back(i.v);
            return c.empty() ? uni(lo, hi) : c[rng() % c.size()];
          }
      }
  }

  std::string key(const char *n)
  {
    return std::string(n) + "@" + std::to_string(draw);
  }

  double next(const char *n, bool real, double lo, double hi, bool integer)
  {
    const std::string k = key(n);
    if (replaying)
      {
        if (draw >= ins.size() || ins[draw].name != k)
          throw Assume(); // control flow changed under perturbation
        double v = ins[draw].v;
        if (perturb == (int)draw)
          v += dh;
        ++draw;
        return v;
      }
    double v;
    auto   g = given.find(k);
    if (have_given && g != given.end())
      v = g->second;
    else if (integer)
      {
        const long l = (long)lo, h = (long)hi;
        if (h - l > 4 && rng() % 4 == 0)
          v = (rng() % 2) ? l : h;
        else
          v = l + (long)(rng() % (unsigned long)(h - l + 1));
      }
    else
      {
        v = sample_real(lo, hi);
        if (usesdiff)
          for (auto &i : ins)
            if (i.real && i.v == v)
              v += uni(1e-3, 2e-3) * (1 + std::abs(v));
      }
    ins.push_back({k, v, real});
    ++draw;
    return v;
  }

  void (*spec)();

  // one execution of the spec; false when it ended in an assumption
  bool once()
  {
    draw  = 0;
    dcall = 0;
    try
      {
        spec();
      }
    catch (Assume &)
      {
        return false;
      }
    catch (Stop &)
      {
        return true;
      }
    catch (std::exception &e)
      {
        if (phase == 2)
          {
            failed    = true;
            faillabel = std::string("exception escapes: ") + e.what();
          }
        return phase == 2;
      }
    catch (...)
      {
        if (phase == 2)
          {
            failed    = true;
            faillabel = "exception escapes";
          }
        return phase == 2;
      }
    return true;
  }

  void crash(int s)
  {
    char b[64];
    const char *w = s == SIGALRM ? "does not terminate (20 s)" : "crash";
    snprintf(b, sizeof b, "%s (signal %d)", w, s);
    write_replay(b);
    printf("FAIL label=%s\n", b);
    fflush(stdout);
    _exit(3);
  }

  bool trial()
  {
    ins.clear();
    ds.clear();
    dvals.clear();
    replaying = false;
    perturb   = -1;
    failed    = false;
    phase     = 0;
    ++trials;
    alarm(20);
    // without derivatives one checked run suffices
    if (!usesdiff)
      {
        phase = 2;
        bool ok = once();
        if (usesdiff) // found out now
          return trial();
        alarm(0);
        if (!ok)
          return false;
        return true;
      }
    dvals.clear();
    if (!once())
      return false;
    std::vector<D> base = ds;
    replaying           = true;
    dvals.assign(base.size(), 0.);
    std::set<int> xs;
    for (auto &d : base)
      xs.insert(d.in);
    for (int x : xs)
      {
        std::vector<double> est[2], scale[2];
        const double        h0 = 2e-4 * (1 + std::abs(ins[x].v));
        for (int r = 0; r < 2; ++r)
          {
            // 4th-order central difference
            const double h     = h0 / (r ? 2 : 1);
            const double off[] = {-2 * h, -h, h, 2 * h};
            std::vector<double> val[4];
            for (int k = 0; k < 4; ++k)
              {
                perturb = x;
                dh      = off[k];
                phase   = 1;
                ds.clear();
                bool ok = once();
                perturb = -1;
                if (!ok || ds.size() != base.size())
                  return false;
                for (auto &d : ds)
                  val[k].push_back(d.f);
              }
            for (size_t i = 0; i < base.size(); ++i)
              {
                est[r].push_back((val[0][i] - 8 * val[1][i] + 8 * val[2][i] - val[3][i]) / (12 * h));
                scale[r].push_back(std::abs(val[0][i]) + std::abs(val[3][i]));
              }
          }
        for (size_t i = 0; i < base.size(); ++i)
          if (base[i].in == x)
            {
              // reject trials near kinks
              if (!(std::abs(est[0][i] - est[1][i]) <= 1e-5 * (1 + std::abs(est[1][i]) + scale[1][i])))
                return false;
              dvals[i] = est[1][i];
            }
      }
    phase = 2;
    ds.clear();
    bool ok = once();
    alarm(0);
    return ok;
  }
} // namespace

extern "C"
{
  void hv_text(char *text, double x)
  {
    snprintf(text, 32, "%.17g", x);
  }
  double hv_real(const char *n, double lo, double hi)
  {
    return next(n, true, lo, hi, false);
  }
  long hv_int(const char *n, long lo, long hi)
  {
    return (long)next(n, false, lo, hi, true);
  }
  long hv_pick(const char *n, long lo, long hi)
  {
    return (long)next(n, false, lo, hi, true);
  }
  bool hv_bool(const char *n)
  {
    return next(n, false, 0, 1, true) != 0;
  }
  void hv_assume(bool b)
  {
    if (!b)
      throw Assume();
  }
  void hv_check(bool b, const char *l)
  {
    if (phase == 2)
      {
        ++nchecks;
        labels.insert(l);
      }
    if (!b)
      bad(l, "condition false", 0, 0);
  }
  void hv_lemma(bool b, const char *l)
  {
    hv_check(b, l);
  }
  void hv_check_eq(double a, double b, const char *l)
  {
    if (phase == 2)
      {
        ++nchecks;
        labels.insert(l);
      }
    if (std::isnan(a) && std::isnan(b))
      return;
    const double tol = usesdiff ? 1e-3 : tolbase;
    if (a == b)
      return;
    if (!(std::abs(a - b) <= tol * (1 + std::max(std::abs(a), std::abs(b)))))
      bad(l, "got %.12g, expected %.12g", a, b);
  }
  void hv_check_le(double a, double b, const char *l)
  {
    if (phase == 2)
      {
        ++nchecks;
        labels.insert(l);
      }
    if (!(a <= b + tolbase * (1 + std::max(std::abs(a), std::abs(b)))))
      bad(l, "%.12g exceeds %.12g", a, b);
  }
  void hv_check_ieq(long a, long b, const char *l)
  {
    if (phase == 2)
      {
        ++nchecks;
        labels.insert(l);
      }
    if (a != b)
      bad(l, "got %.0f, expected %.0f", (double)a, (double)b);
  }
  double hv_diff(double f, double x)
  {
    if (!usesdiff)
      {
        usesdiff = true;
        throw Assume();
      }
    const size_t k = dcall++;
    if (phase == 2)
      return k < dvals.size() ? dvals[k] : NAN;
    int in = -1;
    if (phase == 0)
      {
        for (size_t i = 0; i < ins.size(); ++i)
          if (ins[i].real && ins[i].v == x)
            in = i;
        if (in < 0)
          throw Assume();
      }
    ds.push_back({f, in, 0});
    return 0;
  }
  void hv_cover(const char *l)
  {
    if (phase == 2)
      covers.insert(l);
  }
  int hv_symbolic()
  {
    return 0;
  }
  bool hv_close(double a, double b)
  {
    return std::abs(a - b) <= 1e-9 * (1 + std::max(std::abs(a), std::abs(b)));
  }
  void hv_fail(const char *l)
  {
    bad(l, "contract violated", 0, 0);
  }
}

// usage: exe SPEC [--trials N] [--seed S] [--time SECONDS] [--replay FILE] [--out FILE]
int main(int argc, char **argv)
{
  long   n = 1000, seed = 1;
  double tmax = 1e9;
  const char *rf = nullptr;
  specname = argv[1];
  for (int i = 2; i + 1 < argc; i += 2)
    {
      std::string a = argv[i];
      if (a == "--trials")
        n = atol(argv[i + 1]);
      if (a == "--seed")
        seed = atol(argv[i + 1]);
      if (a == "--time")
        tmax = atof(argv[i + 1]);
      if (a == "--replay")
        rf = argv[i + 1];
      if (a == "--out")
        replayout = argv[i + 1];
    }
  if (rf)
    {
      FILE *f = fopen(rf, "r");
      char  nm[512];
      char  buf[1024];
      while (f && fgets(buf, sizeof buf, f))
        {
          double v;
          if (buf[0] != '#' && sscanf(buf, "%511s %lf", nm, &v) == 2)
            given[nm] = v;
        }
      if (f)
        fclose(f);
      have_given = true;
    }
  spec = (void (*)())dlsym(RTLD_DEFAULT, (std::string("spec_") + specname).c_str());
  if (!spec)
    {
      printf("NOSPEC\n");
      return 2;
    }
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM})
    signal(s, crash);
  rng.seed(seed * 7919 + 17);
  auto t0 = std::chrono::steady_clock::now();
  for (long i = 0; i < n; ++i)
    {
      plain   = (i % 2 == 0);
      bool ok = trial();
      alarm(0);
      if (ok)
        {
          ++useful;
          std::vector<double> k;
          for (auto &x : ins)
            k.push_back(x.v);
          if (distinct.size() < 100000)
            distinct.insert(k);
          if (failed)
            {
              write_replay(faillabel.c_str());
              printf("FAIL label=%s :: %s\n", faillabel.c_str(), failmsg);
              printf("inputs:");
              for (auto &x : ins)
                printf(" %s=%.17g", x.name.c_str(), x.v);
              printf("\n");
              fflush(stdout);
              _exit(3);
            }
        }
      if ((i & 15) == 15 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > tmax)
        break;
    }
  printf("OK trials=%ld useful=%ld distinct=%ld checks=%ld\n", trials, useful, (long)distinct.size(), nchecks);
  printf("covers:");
  for (auto &c : covers)
    printf(" [%s]", c.c_str());
  printf("\n");
  fflush(stdout);
  _exit(0);
}
