// Monitors for the file formats: IGES (C14), IRIT (C15), XML (C16), VTK (C17), conversion between them (C18) and
// damaged input files (C19).
#include <sys/stat.h>
#include <sys/wait.h>

#include "formats.h"
#include "iges_reader.h"
#include "iges_writer.h"
#include "io_converter.h"
#include "irit_reader.h"
#include "irit_writer.h"
#include "vtk_writer.h"
#include "xml_reader.h"
#include "xml_writer.h"

namespace {
using aio::ListOptions;
using aio::Tol;
using gen::ld;

struct Format {
  const char *name, *ending;
  int max_dim;
  Tol written;      // precision of what the writer stores
  bool weighted;    // coordinates stored multiplied by the weight
  bool pad;         // stored as three coordinates
  std::unique_ptr<io::Reader> (*reader)();
  std::unique_ptr<io::Writer> (*writer)();
  std::string (*parse)(const std::string &, std::vector<ref::Spline> *);
  std::string (*build)(vp::Rng *, const std::vector<ref::Spline> &);
};
const Tol kExact{0, 2e-15}, kSix{5.1e-7, 1e-14};
const Format kFormats[3] = {
    {"iges", ".iges", 2, kExact, false, true, [] { return std::unique_ptr<io::Reader>(new io::IGESReader); }, [] { return std::unique_ptr<io::Writer>(new io::IGESWriter); }, aio::ParseIges, aio::BuildIges},
    {"irit", ".itd", 3, kSix, true, false, [] { return std::unique_ptr<io::Reader>(new io::IRITReader); }, [] { return std::unique_ptr<io::Writer>(new io::IRITWriter); }, aio::ParseIrit, aio::BuildIrit},
    {"xml", ".xml", 4, kSix, false, false, [] { return std::unique_ptr<io::Reader>(new io::XMLReader); }, [] { return std::unique_ptr<io::Writer>(new io::XMLWriter); }, aio::ParseXml, aio::BuildXml}};

ListOptions Lists(const Format &f) {
  ListOptions o;
  o.max_dim = f.max_dim;
  o.max_pdim = f.pad ? 3 : 4;
  o.wild = f.written.abs == 0;
  return o;
}

// compares a list that was read or parsed with the list it has to be
bool Compare(vp::Ctx *c, const std::vector<ref::Spline> &got, const std::vector<ref::Spline> &want, const Format &f, Tol t, bool weighted, const std::string &key) {
  if (!c->Expect(got.size() == want.size(), key + "-count", [&] { return vp::Cat(got.size(), " splines instead of ", want.size()); })) return false;
  bool ok = true;
  for (size_t i = 0; i < want.size(); ++i) {
    std::string d = aio::Differs(got[i], f.pad ? aio::Pad3(want[i]) : want[i], t, weighted);
    ok &= c->Expect(d.empty(), key, [&] { return vp::Cat("spline ", i, ": ", d); });
    c->Count(vp::Cat("spline_dim", want[i].dim, want[i].rational ? "_rational" : "_polynomial"));
  }
  return ok;
}

bool ReadBack(vp::Ctx *c, const Format &f, const std::string &file, std::vector<ref::Spline> *out, const std::string &key) {
  std::vector<std::any> v;
  try {
    v = f.reader()->ReadFile(file.c_str());
  } catch (const std::exception &e) {
    c->Violate(key + "-rejected", vp::Cat("reading threw ", e.what()));
    return false;
  }
  for (auto &a : v) {
    ref::Spline s;
    std::string bad;
    if (!c->Expect(aio::CaptureAny(a, &s, &bad), key + "-type", [] { return std::string("not a spline"); })) return false;
    if (!c->Expect(bad.empty(), key + "-malformed", [&] { return bad; })) return false;
    out->push_back(s);
  }
  return true;
}

// storage faults: a directory that does not exist, a path that is a directory, a full device
template <typename F>
void FaultyTarget(vp::Ctx *c, vp::Rng *r, const std::string &ending, F write) {
  std::string path;
  int kind = r->Int(0, 2);
  if (kind == 0) path = c->tmpdir + "/nowhere/f" + ending;
  else path = c->tmpdir + "/fault" + ending;
  if (kind == 1) mkdir(path.c_str(), 0755);
  if (kind == 2 && (access("/dev/full", W_OK) != 0 || symlink("/dev/full", path.c_str()) != 0)) return;
  bool threw = false;
  try { write(path); } catch (const std::runtime_error &) { threw = true; }
  c->Expect(threw, "lost-output-not-reported", [&] { return vp::Cat(kind == 0 ? "missing directory " : kind == 1 ? "path is a directory " : "full device ", ending); });
  if (kind == 1) rmdir(path.c_str());
  if (kind == 2) unlink(path.c_str());
  c->Count(vp::Cat("storage_fault_", kind));
}

// ------------------------------------------------------------------------------------------------ C14, C15, C16
void RoundTrip(vp::Ctx *c, vp::Rng *r, const Format &f) {
  auto list = aio::MakeList(r, Lists(f));
  c->Input(aio::DescribeList(list));
  c->Distinct(aio::ListSignature(list));
  std::string file = c->tmpdir + "/f" + f.ending;
  if (r->Chance(0.6)) {
    auto any = aio::ToAny(list);
    if (r->Chance(0.2)) aio::WriteAll(file, std::string(5000, 'x'));   // existing content has to go
    f.writer()->WriteFile(any, file.c_str());
    // writing does not touch the splines
    for (size_t i = 0; i < list.size(); ++i) {
      ref::Spline s;
      c->Expect(aio::CaptureAny(any[i], &s) && gen::SameState(s, list[i]), "writer-modifies-spline", [&] { return vp::Cat("spline ", i); });
    }
    std::string text = aio::ReadAll(file);
    std::vector<ref::Spline> parsed, read;
    std::string e = f.parse(text, &parsed);
    if (c->Expect(e.empty(), "written-file-format", [&] { return e; })) Compare(c, parsed, list, f, f.written, f.weighted, "written-file");
    if (ReadBack(c, f, file, &read, "round-trip")) Compare(c, read, list, f, f.written, f.weighted, "round-trip");
    c->Count("written");
    // a second generation is identical to the first
    if (r->Chance(0.3) && !list.empty()) {
      std::string again = c->tmpdir + "/g" + f.ending;
      f.writer()->WriteFile(f.reader()->ReadFile(file.c_str()), again.c_str());
      std::vector<ref::Spline> second;
      if (ReadBack(c, f, again, &second, "second-generation")) Compare(c, second, read, f, f.weighted ? f.written : Tol{f.written.abs == 0 ? 0 : 1e-9, 2e-15}, f.weighted, "second-generation");
      c->Count("second_generation");
      unlink(again.c_str());
    }
  } else {
    std::string text = f.build(r, list);
    aio::WriteAll(file, text);
    c->Input(aio::DescribeList(list) + "\n" + text.substr(0, 3000));
    std::vector<ref::Spline> read;
    if (ReadBack(c, f, file, &read, "foreign-file")) Compare(c, read, list, f, Tol{1e-300, f.weighted ? 1e-14 : 2e-15}, false, "foreign-file");
    c->Count("foreign");
  }
  // a spline of too many directions is refused
  if (r->Chance(0.05) && f.max_dim < 4) {
    ListOptions o = Lists(f);
    o.exact_dim = f.max_dim + 1;
    auto bad = list;
    bad.insert(bad.begin() + r->Int(0, static_cast<int>(bad.size())), aio::MakeOne(r, f.max_dim + 1, o));
    bool threw = false;
    try { f.writer()->WriteFile(aio::ToAny(bad), file.c_str()); } catch (const std::runtime_error &) { threw = true; }
    c->Expect(threw, "unsupported-dimension-accepted", [&] { return vp::Cat("spline of ", f.max_dim + 1, " directions"); });
    c->Count("unsupported_dimension");
  }
  if (r->Chance(0.06)) FaultyTarget(c, r, f.ending, [&](const std::string &path) { f.writer()->WriteFile(aio::ToAny(list), path.c_str()); });
  unlink(file.c_str());
  // missing file
  if (r->Chance(0.02)) {
    bool threw = false;
    try { f.reader()->ReadFile((c->tmpdir + "/missing").c_str()); } catch (const std::runtime_error &) { threw = true; }
    c->Expect(threw, "missing-file-accepted", [] { return std::string(); });
  }
}

// ------------------------------------------------------------------------------------------------ C17
std::vector<std::vector<int>> Scattering(vp::Rng *r, const std::vector<ref::Spline> &list) {
  std::vector<std::vector<int>> v;
  for (auto &s : list) {
    std::vector<int> q;
    for (int d = 0; d < s.dim; ++d) q.push_back(r->Chance(0.15) ? 1 : r->Int(1, s.dim == 1 ? 40 : (s.dim == 2 ? 9 : 4)));
    v.push_back(q);
  }
  return v;
}
void CheckVtk(vp::Ctx *c, const std::string &text, const std::vector<ref::Spline> &list, const std::vector<std::vector<int>> &sc, double extra_tol) {
  aio::Vtk v;
  std::string e = aio::ParseVtk(text, &v);
  if (!c->Expect(e.empty(), "vtk-format", [&] { return e; })) return;
  size_t pos = 0;
  std::set<std::vector<long>> cells;
  for (size_t i = 0; i < v.cells.size(); ++i) {
    std::vector<long> key = v.cells[i];
    key.push_back(v.types[i]);
    c->Expect(cells.insert(key).second, "vtk-cell-twice", [&] { return vp::Cat("cell ", i); });
  }
  size_t expected_cells = 0;
  for (size_t i = 0; i < list.size(); ++i) {
    auto &s = list[i];
    long total = 1;
    std::vector<long> m;
    for (int x : sc[i]) { m.push_back(x + 1); total *= x + 1; }
    if (!c->Expect(pos + static_cast<size_t>(total) <= v.points.size(), "vtk-points-missing", [&] { return vp::Cat("spline ", i, " needs ", total, " points from ", pos, " of ", v.points.size()); })) return;
    ld tol = gen::EvalTol(s) + extra_tol;
    for (long p = 0; p < total; ++p) {
      std::vector<ld> u;
      long q = p;
      for (int d = 0; d < s.dim; ++d) { u.push_back(s.First(d) + (s.Last(d) - s.First(d)) * (q % m[d]) / sc[i][d]); q /= m[d]; }
      auto want = s.Eval(u);
      for (int j = 0; j < 3; ++j) {
        ld w = j < s.pdim ? want[j] : 0;
        double g = v.points[pos + static_cast<size_t>(p)][j];
        c->Expect(std::fabs(g - w) <= tol + 5.1e-6L * std::fabs(w), "vtk-point", [&] { return vp::Cat("spline ", i, " point ", p, " coordinate ", j, " is ", g, " instead of ", static_cast<double>(w)); });
      }
    }
    // cells
    auto id = [&](long a, long b, long k) { return static_cast<long>(pos) + a + (s.dim > 1 ? b * m[0] : 0) + (s.dim > 2 ? k * m[0] * m[1] : 0); };
    for (long k = 0; k < (s.dim > 2 ? sc[i][2] : 1); ++k)
      for (long b = 0; b < (s.dim > 1 ? sc[i][1] : 1); ++b)
        for (long a = 0; a < sc[i][0]; ++a) {
          std::vector<long> want;
          if (s.dim == 1) want = {id(a, 0, 0), id(a + 1, 0, 0), 3};
          else if (s.dim == 2) want = {id(a, b, 0), id(a + 1, b, 0), id(a + 1, b + 1, 0), id(a, b + 1, 0), 9};
          else want = {id(a, b, k), id(a + 1, b, k), id(a + 1, b + 1, k), id(a, b + 1, k), id(a, b, k + 1), id(a + 1, b, k + 1), id(a + 1, b + 1, k + 1), id(a, b + 1, k + 1), 12};
          ++expected_cells;
          c->Expect(cells.count(want) == 1, "vtk-cell-missing", [&] { return vp::Cat("spline ", i, " cell (", a, ",", b, ",", k, ") of scattering"); });
        }
    pos += static_cast<size_t>(total);
    c->Count(vp::Cat("vtk_dim", s.dim));
  }
  c->Expect(pos == v.points.size(), "vtk-points-superfluous", [&] { return vp::Cat(v.points.size(), " points instead of ", pos); });
  c->Expect(expected_cells == v.cells.size(), "vtk-cells-superfluous", [&] { return vp::Cat(v.cells.size(), " cells instead of ", expected_cells); });
}
ListOptions VtkLists() {
  ListOptions o;
  o.max_dim = 3;
  o.max_pdim = 4;
  o.max_splines = 3;
  return o;
}
// discontinuous splines are not sampled reliably at the break
bool Continuous(const std::vector<ref::Spline> &v) {
  for (auto &s : v) for (int d = 0; d < s.dim; ++d) for (ld u : ref::Unique(s.knots[d]))
    if (u > s.First(d) && u < s.Last(d) && ref::Multiplicity(s.knots[d], u) > s.deg[d]) return false;
  return true;
}
void Vtk(vp::Ctx *c, vp::Rng *r) {
  std::vector<ref::Spline> list;
  do list = aio::MakeList(r, VtkLists()); while (!Continuous(list));
  auto sc = Scattering(r, list);
  std::string in = aio::DescribeList(list), sig = aio::ListSignature(list);
  for (auto &q : sc) { in += " ["; for (int x : q) { in += vp::Cat(x, " "); sig += vp::Cat(x, ","); } in += "]"; }
  c->Input(in);
  c->Distinct(sig);
  std::string file = c->tmpdir + "/f.vtk";
  auto any = aio::ToAny(list);
  io::VTKWriter w;
  if (r->Chance(0.05) && !list.empty()) {
    auto bad = sc;
    std::string what;
    switch (r->Int(0, 2)) {
      case 0: bad.pop_back(); what = "entry missing"; break;
      case 1: bad[r->Int(0, static_cast<int>(bad.size()) - 1)].push_back(3); what = "direction too many"; break;
      default: bad.push_back({2}); what = "entry too many";
    }
    bool threw = false;
    try { w.WriteFile(any, file, bad); } catch (const std::runtime_error &) { threw = true; }
    c->Expect(threw, "vtk-wrong-scattering-accepted", [&] { return what; });
    c->Count("wrong_scattering");
  }
  if (r->Chance(0.06)) FaultyTarget(c, r, ".vtk", [&](const std::string &path) { w.WriteFile(any, path, sc); });
  if (r->Chance(0.05)) {
    auto more = any;
    auto more_sc = sc;
    ListOptions four = VtkLists();
    more.push_back(aio::MakeAny(aio::MakeOne(r, 4, four)));
    more_sc.push_back({2, 2, 2, 2});
    bool threw = false;
    try { w.WriteFile(more, file, more_sc); } catch (const std::runtime_error &) { threw = true; }
    c->Expect(threw, "vtk-four-directions-accepted", [] { return std::string(); });
    c->Count("unsupported_dimension");
  }
  w.WriteFile(any, file, sc);
  for (size_t i = 0; i < list.size(); ++i) {
    ref::Spline s;
    c->Expect(aio::CaptureAny(any[i], &s) && gen::SameState(s, list[i]), "writer-modifies-spline", [&] { return vp::Cat("spline ", i); });
  }
  CheckVtk(c, aio::ReadAll(file), list, sc, 0);
  unlink(file.c_str());
}

// ------------------------------------------------------------------------------------------------ C18
int Execute(const std::string &exe, const std::string &arg, const std::string &err, int *sanitizer) {
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(fd, 1);
    dup2(fd, 2);
    execl(exe.c_str(), exe.c_str(), arg.c_str(), static_cast<char *>(nullptr));
    _exit(127);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  std::string t = aio::ReadAll(err);
  *sanitizer = t.find("Sanitizer") != std::string::npos || t.find("runtime error") != std::string::npos || t.find("Assertion") != std::string::npos;
  return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}

void Convert(vp::Ctx *c, vp::Rng *r) {
  const Format &in = kFormats[r->Int(0, 2)];
  int out = std::min(3, r->Int(0, 4));     // 3: vtk
  ListOptions o = Lists(in);
  o.wild = false;
  o.max_points = 60;
  o.max_splines = 5;
  o.max_pdim = 3;
  std::vector<ref::Spline> list;
  do list = aio::MakeList(r, o); while (!Continuous(list));
  if (in.pad) for (auto &s : list) s = aio::Pad3(s);
  int max_dim = out == 3 ? 3 : kFormats[out].max_dim;
  // names: endings decide, wherever else they occur in the path
  static const std::vector<std::string> stems{"f", "a.xml", "b.iges", "c.itd.vtk", "x.y", "iges", ".xml", "d.vtk"};
  std::string infile = c->tmpdir + "/in_" + r->Pick(stems) + in.ending;
  std::string outfile = c->tmpdir + "/out_" + r->Pick(stems) + (out == 3 ? ".vtk" : kFormats[out].ending);
  if (r->Chance(0.15)) outfile = c->tmpdir + "/o" + (out == 3 ? ".vtk" : kFormats[out].ending) + (out == 3 ? ".vtk" : kFormats[out].ending);
  aio::WriteAll(infile, in.build(r, list));
  std::vector<int> possible, positions, want;
  for (size_t i = 0; i < list.size(); ++i) if (list[i].dim <= max_dim) possible.push_back(static_cast<int>(i));
  bool all = r->Chance(0.4);
  if (!all) {
    int n = r->Int(1, 5);
    for (int i = 0; i < n; ++i) positions.push_back(i > 0 && r->Chance(0.25) ? r->Pick(positions) : r->Chance(0.12) ? r->Int(0, 30) : r->Int(0, std::max(0, static_cast<int>(list.size()) - 1)));
    for (int p : positions) if (std::find(possible.begin(), possible.end(), p) != possible.end()) want.push_back(p);
  } else want = possible;
  std::vector<std::vector<int>> sc, want_sc;
  if (out == 3) {
    std::vector<ref::Spline> of;
    static const ref::Spline dummy = [] { ref::Spline s; s.dim = 1; return s; }();
    if (all) of = list;
    else for (int p : positions) of.push_back(p < static_cast<int>(list.size()) ? list[p] : dummy);
    sc = Scattering(r, of);
    if (all) for (int p : want) want_sc.push_back(sc[p]);
    else for (size_t i = 0; i < positions.size(); ++i) if (std::find(want.begin(), want.end(), positions[i]) != want.end()) want_sc.push_back(sc[i]);
  }
  std::vector<ref::Spline> selected;
  for (int p : want) selected.push_back(list[p]);
  std::string desc = vp::Cat(infile, " -> ", outfile, " positions");
  for (int p : positions) desc += vp::Cat(" ", p);
  c->Input(desc + " of " + aio::DescribeList(list));
  c->Distinct(vp::Cat(in.name, out, all, positions.size(), "/", want.size()) + aio::ListSignature(list));
  c->Count(vp::Cat(in.name, "_to_", out == 3 ? "vtk" : kFormats[out].name));
  auto check_output = [&](const std::string &how) {
    std::string text = aio::ReadAll(outfile);
    if (out == 3) { CheckVtk(c, text, selected, want_sc, 0); return; }
    const Format &f = kFormats[out];
    std::vector<ref::Spline> parsed;
    std::string e = f.parse(text, &parsed);
    if (c->Expect(e.empty(), how + "-output-format", [&] { return e; })) Compare(c, parsed, selected, f, f.written.abs == 0 ? Tol{1e-300, 1e-13} : f.written, f.weighted, how + "-output");
    // what was written can be read again
    std::vector<ref::Spline> read;
    if (!selected.empty() && ReadBack(c, f, outfile, &read, how + "-output-read")) Compare(c, read, selected, f, f.written.abs == 0 ? Tol{1e-300, 1e-13} : f.written, f.weighted, how + "-output-read");
  };
  bool program = r->Chance(0.35) && !(out < 3 && kFormats[out].name == in.name);
  if (!program) {
    io::IOConverter conv(infile.c_str(), outfile.c_str());
    int times = r->Chance(0.25) ? 2 : 1;
    for (int t = 0; t < times; ++t) {
      unlink(outfile.c_str());
      auto got = conv.ConvertFile(positions, sc);
      c->Expect(got == want, "converter-positions", [&] { return vp::Cat("call ", t + 1, " reports ", got.size(), " written splines, expected ", want.size()); });
      check_output("converter");
    }
    c->Count(times == 2 ? "converted_twice" : "converted");
    if (r->Chance(0.1)) FaultyTarget(c, r, out == 3 ? ".vtk" : kFormats[out].ending, [&](const std::string &path) { io::IOConverter(infile.c_str(), path.c_str()).ConvertFile(positions, sc); });
    // unknown formats
    if (r->Chance(0.2)) {
      static const std::vector<std::string> odd{"data", "xml", "out", "itd", "f.xml2", "f.iges.txt", "vtk", "abc", "ab", "a", "x.XML"};
      std::string name = r->Pick(odd);
      bool threw = false, rel = r->Chance(0.5);
      std::string path = rel ? name : c->tmpdir + "/" + name;
      try { io::IOConverter(infile.c_str(), path.c_str()).ConvertFile(positions, sc); } catch (const std::runtime_error &) { threw = true; }
      c->Expect(threw, "unknown-output-format-accepted", [&] { return path; });
      threw = false;
      aio::WriteAll(path, aio::ReadAll(infile));
      try { io::IOConverter(path.c_str(), outfile.c_str()).ConvertFile(positions, sc); } catch (const std::runtime_error &) { threw = true; }
      c->Expect(threw, "unknown-input-format-accepted", [&] { return path; });
      unlink(path.c_str());
      c->Count("unknown_format");
    }
  } else {
    std::string exe = c->bindir + "/" + in.name + "_to_" + (out == 3 ? "vtk" : kFormats[out].name);
    std::string logfile = c->tmpdir + "/log.txt", err = c->tmpdir + "/err.txt";
    if (!all && r->Chance(0.08)) {   // a log file that asks for nothing
      positions.clear();
      want.clear();
      selected.clear();
      sc.clear();
      want_sc.clear();
      c->Count("program_runs_for_nothing");
    }
    std::vector<std::string> sections = {"input:\n" + infile + "\n", "output:\n" + outfile + "\n", "options:\n"};
    if (all) sections[2] += "all\n"; else for (int p : positions) sections[2] += std::to_string(p) + "\n";
    if (out == 3) {
      sections.emplace_back("scattering:\n");
      for (auto &q : sc) { for (size_t d = 0; d < q.size(); ++d) sections[3] += (d ? " " : "") + std::to_string(q[d]); sections[3] += "\n"; }
    }
    if (r->Chance(0.3)) for (size_t i = sections.size(); i > 1; --i) std::swap(sections[i - 1], sections[r->Next() % i]);
    std::string log;
    for (auto &q : sections) log += (log.empty() ? "" : "\n") + q;
    int ending = r->Int(0, 2);
    if (ending == 0) log.pop_back(); else if (ending == 1) log += "\n";
    aio::WriteAll(logfile, log);
    std::string before = log;
    for (int t = 0; t < (r->Chance(0.3) ? 2 : 1); ++t) {
      unlink(outfile.c_str());
      int san;
      int rc = Execute(exe, logfile, err, &san);
      if (!c->Expect(rc == 0 && san == 0, "program-fails", [&] { return vp::Cat("run ", t + 1, " exit ", rc, ": ", aio::ReadAll(err).substr(0, 1500)); })) break;
      check_output("program");
      std::string after = aio::ReadAll(logfile);
      c->Expect(after.size() > before.size() && after.compare(0, before.size(), before) == 0, "log-overwritten", [&] { return after; });
      std::string tail = after.size() > before.size() ? after.substr(before.size()) : "";
      std::string say;
      if (want.empty()) say = "No splines in file " + infile + " have been written to " + outfile;
      else {
        say = want.size() == 1 ? "The spline at position " : "The splines at positions ";
        for (size_t i = 0; i < want.size(); ++i) say += (i ? ", " : "") + std::to_string(want[i]);
        say += " in file " + infile + (want.size() == 1 ? " has" : " have") + " been written to " + outfile;
      }
      c->Expect(tail.find("log:\n") != std::string::npos && tail.find(say) != std::string::npos, "log-entry", [&] { return tail + " -- expected: " + say; });
      before = after;
      c->Count(t == 0 ? "program_runs" : "program_runs_again");
    }
    unlink(logfile.c_str());
    unlink(err.c_str());
  }
  unlink(infile.c_str());
  unlink(outfile.c_str());
}

// ------------------------------------------------------------------------------------------------ C19
std::string Damage(vp::Rng *r, std::string t, std::string *what) {
  int n = r->Chance(0.6) ? 1 : r->Int(2, 6);
  auto number_at = [&](size_t from, size_t *a, size_t *b) {
    *a = t.find_first_of("0123456789", from);
    if (*a == std::string::npos) return false;
    *b = *a;
    while (*b < t.size() && isdigit(static_cast<unsigned char>(t[*b]))) ++*b;
    return true;
  };
  for (int q = 0; q < n && !t.empty(); ++q) {
    int k = r->Int(0, 12);
    size_t i = static_cast<size_t>(r->Int(0, static_cast<int>(t.size()) - 1)), a, b;
    *what += vp::Cat(" ", k, "@", i);
    switch (k) {
      case 0: t.resize(i); break;                                              // truncated
      case 1: t[i] = static_cast<char>(r->Int(0, 255)); break;                 // any byte
      case 2: t.erase(i, static_cast<size_t>(r->Int(1, 20))); break;
      case 3: t.insert(i, t.substr(i, static_cast<size_t>(r->Int(1, 40)))); break;
      case 4:                                                                  // another number
      case 5:
        if (number_at(i, &a, &b)) t.replace(a, b - a, r->Pick(std::vector<std::string>{"0", "1", "2", "3", "4", "7", "-1", "-7", "99", "1000", "100000", "2147483647", "2147483648", "-2147483648", "99999999999999999999", "1e9", "1e300", "0.5", "nan", "inf"}));
        break;
      case 6: {                                                                // a line lost
        size_t e = t.find('\n', i);
        t.erase(i, e == std::string::npos ? std::string::npos : e - i + 1);
        break;
      }
      case 7: {                                                                // a line twice
        size_t s = t.rfind('\n', i), e = t.find('\n', i);
        if (s != std::string::npos && e != std::string::npos && e > s) t.insert(e, t.substr(s, e - s));
        break;
      }
      case 8: t[i] = " \n\t,;[]<>.-+eE\"/"[r->Int(0, 16)]; break;
      case 9: t.insert(i, std::string(static_cast<size_t>(r->Int(1, 100)), " \n["[r->Int(0, 2)])); break;
      case 10: {                                                               // a word replaced by another one of the file
        auto w = aio::Words(t);
        if (!w.empty()) { std::string x = r->Pick(w), y = r->Pick(w); size_t p = t.find(x, i); if (p != std::string::npos) t.replace(p, x.size(), y); }
        break;
      }
      case 11: if (number_at(i, &a, &b)) t.erase(a, b - a); break;
      default: t.insert(i, r->Pick(std::vector<std::string>{"[KV ", "]", "BSPLINE ", "[SURFACE BSPLINE ", "[", "<", "</SplineEntry>", "<SplineEntry/>", "<wght></wght>", ";", ",", ",,", "E", "\r\n", "P3"}));
    }
  }
  return t;
}
void Damaged(vp::Ctx *c, vp::Rng *r) {
  const Format &f = kFormats[r->Int(0, 2)];
  ListOptions o = Lists(f);
  o.max_points = 40;
  o.max_splines = 2;
  auto list = aio::MakeList(r, o);
  std::string file = c->tmpdir + "/d" + f.ending, text, what = f.name;
  if (r->Chance(0.5)) {
    f.writer()->WriteFile(aio::ToAny(list), file.c_str());
    text = aio::ReadAll(file);
  } else {
    text = f.build(r, list);
  }
  text = Damage(r, text, &what);
  aio::WriteAll(file, text);
  aio::WriteAll(c->tmpdir + "/last", text);   // survives a crash of this process for inspection under --replay
  c->Input(what + "\n" + text.substr(0, 3000));
  c->Distinct(text);
  try {
    auto v = f.reader()->ReadFile(file.c_str());
    for (auto &a : v) {
      ref::Spline s;
      std::string bad;
      bool ok = aio::CaptureAny(a, &s, &bad);
      c->Expect(ok, "damaged-file-no-spline", [] { return std::string("an entry that is no spline"); });
      if (ok && !bad.empty() && bad.find("finite") == std::string::npos) c->Violate("damaged-file-malformed-spline", bad);
      if (ok && bad.empty()) aio::Exercise(a, r);
      c->Observe();
    }
    c->Count("accepted");
  } catch (const std::bad_alloc &e) {
    c->Violate("damaged-file-memory", vp::Cat("reading exhausts memory: ", e.what()));
  } catch (const std::exception &e) {
    c->Observe();
    c->Count(std::string("rejected_") + typeid(e).name());
  }
  unlink(file.c_str());
}
}  // namespace

int main(int argc, char **argv) {
  vp::Ctx c;
  c.Parse(argc, argv);
  vp::RunCases(&c, [](vp::Ctx *x, vp::Rng *r) {
    if (x->prop == "C14") RoundTrip(x, r, kFormats[0]);
    else if (x->prop == "C15") RoundTrip(x, r, kFormats[1]);
    else if (x->prop == "C16") RoundTrip(x, r, kFormats[2]);
    else if (x->prop == "C17") Vtk(x, r);
    else if (x->prop == "C18") Convert(x, r);
    else if (x->prop == "C19") Damaged(x, r);
    else { fprintf(stderr, "unknown property\n"); exit(3); }
  });
  c.WriteReport();
  return 0;
}
