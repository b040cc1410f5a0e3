// Contracts of the particle table reader: CSVRow, CSVIterator and read_particles.
// hv: assume istream, getline and strtod follow the C++ standard: the stream below keeps the state bits of std::istream
// hv: bound at most three rows of data
#include <hv_dealii.h>
#include <hv.h>
#include <exception>
#include <fstream>
#include <iostream>
#include <iterator>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>
// the characters of a file and the state bits of an input stream
namespace std
{
  class hv_istream
  {
  public:
    std::string text;
    std::size_t position = 0;
    bool        eof_bit = false, fail_bit = false;
    bool
    good() const
    {
      return !eof_bit && !fail_bit;
    }
    bool
    eof() const
    {
      return eof_bit;
    }
    bool
    fail() const
    {
      return fail_bit;
    }
    bool
    operator!() const
    {
      return fail_bit;
    }
    explicit operator bool() const
    {
      return !fail_bit;
    }
  };
  inline hv_istream &
  getline(hv_istream &stream, string &line, const char end = '\n')
  {
    if (!stream.good())
      {
        stream.fail_bit = true;
        return stream;
      }
    line.clear();
    while (stream.position < stream.text.size())
      {
        const char c = stream.text[stream.position++];
        if (c == end)
          return stream;
        line.push_back(c);
      }
    stream.eof_bit = true;
    if (line.empty())
      stream.fail_bit = true;
    return stream;
  }
} // namespace std
#define istream hv_istream
#include <pf-applications/sintering/particle.h>
#include <applications/sintering/src/csv_reader.cc>
#undef istream
using namespace Sintering;

static std::string number(const double x)
{
  char t[40];
  hv_text(t, x);
  return t;
}
struct Row
{
  double x[4];
};
static Row row()
{
  Row r;
  r.x[0] = hv_real("x", -100, 100);
  r.x[1] = hv_real("y", -100, 100);
  r.x[2] = hv_real("z", -100, 100);
  r.x[3] = hv_real("r", 0, 100);
  return r;
}
static std::string text(const Row &r, const std::string &separator, const unsigned int n = 4)
{
  std::string t;
  for (unsigned int i = 0; i < n; ++i)
    t += (i > 0 ? separator : "") + number(r.x[i]);
  return t;
}
template <int dim>
static void check_particles(const std::vector<Particle<dim>> &particles, const std::vector<Row> &rows)
{
  hv_check(particles.size() == rows.size(), "one particle for each row");
  for (unsigned int i = 0; i < rows.size() && i < particles.size(); ++i)
    {
      for (unsigned int d = 0; d < dim; ++d)
        hv_check_eq(particles[i].center[d], rows[i].x[d], "coordinates");
      hv_check_eq(particles[i].radius, rows[i].x[3], "radius");
      hv_check(particles[i].id == i, "particles are numbered consecutively");
      hv_check(particles[i].neighbours.empty(), "no neighbours yet");
    }
}
template <int dim>
static void complete()
{
  const long        n_rows = hv_pick("rows", 0, 3), style = hv_pick("style", 0, 4);
  std::hv_istream   file;
  std::vector<Row>  rows;
  const std::string separator = style == 1 ? ", " : ",", end = style == 2 ? "\r\n" : "\n";
  file.text = (style == 3 ? "" : "x,y,z,r") + end;
  for (long i = 0; i < n_rows; ++i)
    {
      rows.push_back(row());
      file.text += text(rows.back(), separator);
      // additional columns are allowed
      if (style == 3)
        file.text += "," + number(7.5);
      // the last line need not be terminated
      if (i + 1 < n_rows || style != 4)
        file.text += end;
    }
  std::vector<Particle<dim>> particles;
  bool                       rejected = false;
  try
    {
      particles = read_particles<dim>(file);
    }
  catch (const std::exception &)
    {
      rejected = true;
    }
  hv_check(!rejected, "well-formed tables are accepted");
  check_particles<dim>(particles, rows);
}
template <int dim>
static void malformed()
{
  const long      kind = hv_pick("kind", 0, 7), position = hv_pick("position", 0, 1);
  std::hv_istream file;
  file.text       = "x,y,z,r\n";
  const Row   bad = row();
  std::string line;
  const auto  n = [&](const unsigned int i) { return number(bad.x[i]); };
  switch (kind)
    {
      case 0: // empty line
        break;
      case 1: // not enough numbers
        line = text(bad, ",", 1);
        break;
      case 2:
        line = text(bad, ",", 2);
        break;
      case 3:
        line = text(bad, ",", 3);
        break;
      case 4: // no radius
        line = text(bad, ",", 3) + ",";
        break;
      case 5: // no first coordinate
        line = "," + n(1) + "," + n(2) + "," + n(3);
        break;
      case 6: // words
        line = n(0) + "," + n(1) + "," + n(2) + ",radius";
        break;
      case 7: // another separator
        line = text(bad, ";");
        break;
    }
  std::vector<Row> rows;
  for (long i = 0; i < position; ++i)
    {
      rows.push_back(row());
      file.text += text(rows.back(), ",") + "\n";
    }
  file.text += line + "\n";
  rows.push_back(row());
  file.text += text(rows.back(), ",") + "\n";
  bool rejected = false;
  try
    {
      read_particles<dim>(file);
    }
  catch (const std::exception &)
    {
      rejected = true;
    }
  hv_check(rejected, "rows without all numbers are rejected");
}
HV_SPEC(complete_2d)
{
  complete<2>();
}
HV_SPEC(complete_3d)
{
  complete<3>();
}
HV_SPEC(malformed_2d)
{
  malformed<2>();
}
HV_SPEC(malformed_3d)
{
  malformed<3>();
}
// what CSVIterator promises to its users
HV_SPEC(nothing)
{
  std::hv_istream file;
  const bool      failed = hv_bool("failed");
  file.fail_bit          = failed;
  const auto particles   = read_particles<3>(file);
  hv_check(particles.empty(), "nothing to read");
}
HV_SPEC(iterator)
{
  std::hv_istream file;
  const long      n = hv_pick("rows", 0, 3);
  std::vector<Row> rows;
  for (long i = 0; i < n; ++i)
    {
      rows.push_back(row());
      file.text += text(rows.back(), ",") + "\n";
    }
  long i = 0;
  for (internal::CSVIterator it(file); it != internal::CSVIterator(); ++it, ++i)
    {
      if (i >= n)
        break;
      hv_check(it->size() == 4, "number of columns");
      for (unsigned int c = 0; c < 4; ++c)
        {
          hv_check(std::string((*it)[c]) == number(rows[i].x[c]) || hv_symbolic(), "columns");
          hv_check_eq(std::stod(std::string((*it)[c])), rows[i].x[c], "values of the columns");
        }
    }
  hv_check(i == n, "number of rows");
}
