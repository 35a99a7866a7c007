// Concurrency monitor (C13): queries of shared splines are pure.  Every query of a random list is answered once
// sequentially; then several threads ask the same queries of the same objects in their own random order, with random
// delays, under ThreadSanitizer.  Other threads work on objects of their own (copies of the shared splines) at the same
// time: modifications, copies, files.  All answers have to agree bit by bit with the sequential ones.
#include <atomic>
#include <functional>
#include <thread>

#include <sys/stat.h>

#include "b_spline.h"
#include "element_generator.h"
#include "iges_reader.h"
#include "iges_writer.h"
#include "io_converter.h"
#include "irit_reader.h"
#include "irit_writer.h"
#include "nurbs.h"
#include "projection.h"
#include "vtk_writer.h"
#include "xml_reader.h"
#include "xml_writer.h"

#include "anyspline.h"
#include "gen.h"
#include "vp.h"

namespace {
using Answer = std::vector<double>;
// a query gets a scratch directory of the asking thread
struct Query { std::string name; std::function<void(Answer *, const std::string &)> ask; };

void Put(Answer *a, const std::vector<double> &v) { a->insert(a->end(), v.begin(), v.end()); a->push_back(static_cast<double>(v.size())); }
void Put(Answer *a, const ref::Spline &s) {
  for (int d = 0; d < s.dim; ++d) { a->push_back(s.deg[d]); a->push_back(s.n[d]); for (auto x : s.knots[d]) a->push_back(static_cast<double>(x)); }
  for (auto &q : s.cp) for (auto x : q) a->push_back(static_cast<double>(x));
  for (auto x : s.w) a->push_back(static_cast<double>(x));
}
void PutText(Answer *a, const std::string &t) { for (size_t i = 0; i < t.size(); i += 7) { double x = 0; for (size_t j = i; j < std::min(t.size(), i + 7); ++j) x = x * 256 + static_cast<unsigned char>(t[j]); a->push_back(x); } }

Answer Run(const Query &q, const std::string &dir) {
  Answer a;
  try {
    q.ask(&a, dir);
  } catch (const std::exception &e) {
    a.push_back(-4711);
    PutText(&a, typeid(e).name());
  }
  return a;
}
bool Same(const Answer &a, const Answer &b) { return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0); }

std::string FileText(const std::string &f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }

// queries of one shared spline (and another one of its type)
template<int DIM> void SharedQueries(vp::Rng *r, const ref::Spline &s, const ref::Spline &s2, std::vector<Query> *out) {
  std::shared_ptr<spl::Spline<DIM>> l = gen::MakeLib<DIM>(s), l2 = gen::MakeLib<DIM>(s2);
  auto dims = gen::Iota(s.pdim);
  bool rational = s.rational;
  for (auto &u : gen::Tuples(r, s, 1, 6)) {
    auto p = gen::LibParam<DIM>(u);
    out->push_back({"Evaluate", [=](Answer *a, const std::string &) { Put(a, l->Evaluate(p, dims)); }});
    std::array<int, DIM> der{};
    for (auto &x : der) x = r->Int(0, 2);
    if (DIM == 3) for (auto &x : der) x = std::min(x, 1);
    out->push_back({"EvaluateDerivative", [=](Answer *a, const std::string &) { Put(a, l->EvaluateDerivative(p, dims, der)); }});
    int d = r->Int(0, DIM - 1), order = r->Int(0, 2);
    out->push_back({"BasisFunctions", [=](Answer *a, const std::string &) {
      Put(a, l->EvaluateAllNonZeroBasisFunctions(d, p[d]));
      Put(a, l->EvaluateAllNonZeroBasisFunctionDerivatives(d, p[d], order));
      a->push_back(l->GetKnotVector(d)->GetKnotSpan(p[d]).get());
      a->push_back(static_cast<double>(l->GetKnotVector(d)->GetMultiplicity(p[d])));
      a->push_back(l->GetKnotVectorRange(d));
    }});
  }
  std::vector<double> out_u;
  for (int d = 0; d < DIM; ++d) out_u.push_back(static_cast<double>(s.Last(d)) + 1);
  out->push_back({"EvaluateOutside", [=](Answer *a, const std::string &) { Put(a, l->Evaluate(gen::LibParam<DIM>(out_u), dims)); }});
  out->push_back({"Getters", [=](Answer *a, const std::string &) { Put(a, gen::Capture<DIM>(*l, rational)); a->push_back(l->GetExpansion()); a->push_back(l->GetNumberOfControlPoints()); }});
  out->push_back({"GeometricallyEqual", [=](Answer *a, const std::string &) { a->push_back(l->AreGeometricallyEqual(*l)); a->push_back(l->AreGeometricallyEqual(*l2)); }});
  out->push_back({"Elements", [=](Answer *a, const std::string &) {
    util::ElementGenerator<DIM> g(l);
    for (int d = 0; d < DIM; ++d) for (auto &e : g.GetElementList(d)) { a->push_back(e.GetLowerBound().get()); a->push_back(e.GetUpperBound().get()); }
  }});
  if (DIM <= 2) {
    std::vector<double> q;
    for (auto &x : s.cp[static_cast<size_t>(r->Int(0, s.Count() - 1))]) q.push_back(static_cast<double>(x) + r->Real(-0.1, 0.1));
    out->push_back({"Projection", [=](Answer *a, const std::string &) {
      if constexpr (DIM == 1) a->push_back(spl::Projection<1>::ProjectionOnCurve(q, l, 0.5)[0].get());
      if constexpr (DIM == 2) { auto u = spl::Projection<2>::ProjectionOnSurface(q, l, {2, 2}, 100.0); a->push_back(u[0].get()); a->push_back(u[1].get()); }
    }});
  }
  // copies of the shared spline are the asking thread's own
  int d = r->Int(0, DIM - 1);
  double knot = static_cast<double>(s.First(d)) + static_cast<double>(s.Last(d) - s.First(d)) * r->Real(0.1, 0.9);
  auto copies = [=](auto &typed) {
    using T = std::decay_t<decltype(*typed)>;
    out->push_back({"CopyAndModify", [=](Answer *a, const std::string &) {
      T own(*typed);
      own.InsertKnot(ParamCoord{knot}, d);
      Put(a, gen::Capture<DIM>(own, rational));
      own.ElevateDegreeForDimension(d);
      a->push_back(static_cast<double>(own.RemoveKnot(ParamCoord{knot}, d, 1e-6)));
      a->push_back(own.ReduceDegreeForDimension(d, 1e-6));
      Put(a, gen::Capture<DIM>(own, rational));
    }});
    out->push_back({"CopyAndSubdivide", [=](Answer *a, const std::string &) {
      T own(*typed);
      auto parts = own.SudivideSpline(ParamCoord{knot}, d);
      for (auto &x : parts) Put(a, gen::Capture<DIM>(*x, rational));
    }});
    out->push_back({"AssignAndCompare", [=](Answer *a, const std::string &) {
      T own(*typed);
      own = *typed;
      a->push_back(own.AreEqual(*typed));
      own.InsertKnot(ParamCoord{knot}, d);
      a->push_back(typed->AreEqual(own));
    }});
  };
  if (rational) { auto t = std::dynamic_pointer_cast<spl::NURBS<DIM>>(l); copies(t); }
  else { auto t = std::dynamic_pointer_cast<spl::BSpline<DIM>>(l); copies(t); }
  // files of the shared spline, one per asking thread
  std::any any = rational ? std::any(std::dynamic_pointer_cast<spl::NURBS<DIM>>(l)) : std::any(std::dynamic_pointer_cast<spl::BSpline<DIM>>(l));
  std::vector<std::any> list = {any};
  out->push_back({"XML", [=](Answer *a, const std::string &dir) {
    std::string f = dir + "/x.xml";
    io::XMLWriter().WriteFile(list, f.c_str());
    PutText(a, FileText(f));
    for (auto &x : io::XMLReader().ReadFile(f.c_str())) { ref::Spline t; aio::CaptureAny(x, &t); Put(a, t); }
  }});
  out->push_back({"IRIT", [=](Answer *a, const std::string &dir) {
    std::string f = dir + "/x.itd";
    io::IRITWriter().WriteFile(list, f.c_str());
    PutText(a, FileText(f));
    for (auto &x : io::IRITReader().ReadFile(f.c_str())) { ref::Spline t; aio::CaptureAny(x, &t); Put(a, t); }
  }});
  out->push_back({"VTK", [=](Answer *a, const std::string &dir) {
    std::string f = dir + "/x.vtk";
    io::VTKWriter().WriteFile(list, f.c_str(), {std::vector<int>(DIM, 2)});
    PutText(a, FileText(f));
  }});
  if (DIM <= 2 && s.pdim <= 3) out->push_back({"IGES", [=](Answer *a, const std::string &dir) {
    std::string f = dir + "/x.iges";
    io::IGESWriter().WriteFile(list, f.c_str());   // contains the time of day: only what is read back counts
    for (auto &x : io::IGESReader().ReadFile(f.c_str())) { ref::Spline t; aio::CaptureAny(x, &t); Put(a, t); }
  }});
}

void Case(vp::Ctx *c, vp::Rng *r) {
  std::vector<Query> q;
  std::string what;
  int splines = r->Int(1, 2);
  for (int i = 0; i < splines; ++i) {
    gen::Options o;
    o.max_deg = 3;
    o.max_interior = 2;
    o.max_mult = 2;
    o.max_points = 60;
    int dim = r->Int(1, 3);
    if (dim == 3) o.max_deg = 2;
    ref::Spline s = gen::Make(r, dim, o);
    ref::Spline s2 = s;
    s2.cp[0][0] += 1;
    if (dim == 1) SharedQueries<1>(r, s, s2, &q); else if (dim == 2) SharedQueries<2>(r, s, s2, &q); else SharedQueries<3>(r, s, s2, &q);
    what += gen::Describe(s) + " ";
    c->Distinct("structure" + gen::Signature(s));
  }
  c->Input("shared " + what);
  std::string base = c->tmpdir + "/seq";
  mkdir(base.c_str(), 0755);
  // purity: asked twice in different order, the answers agree
  std::vector<Answer> want(q.size());
  for (size_t i = 0; i < q.size(); ++i) want[i] = Run(q[i], base);
  for (size_t i = q.size(); i-- > 0;) {
    if (r->Chance(0.5)) continue;
    Answer a = Run(q[i], base);
    c->Expect(Same(a, want[i]), "query-not-repeatable", [&] { return "asked again in another order, " + q[i].name + " gives another answer"; });
  }
  int threads = r->Int(2, 6);
  std::atomic<int> waiting{0};
  std::atomic<unsigned> ticket{0};
  std::vector<std::vector<std::pair<unsigned, size_t>>> log(static_cast<size_t>(threads));
  std::vector<std::vector<size_t>> wrong(static_cast<size_t>(threads));
  std::vector<uint64_t> seeds;
  for (int t = 0; t < threads; ++t) { seeds.push_back(r->Next()); mkdir(vp::Cat(c->tmpdir, "/t", t).c_str(), 0755); }
  bool same_order = r->Chance(0.3);
  int rounds = r->Int(1, 2);
  std::vector<std::thread> pool;
  for (int t = 0; t < threads; ++t) {
    pool.emplace_back([&, t] {
      vp::Rng mine(same_order ? seeds[0] : seeds[t]);
      std::string dir = vp::Cat(c->tmpdir, "/t", t);
      waiting.fetch_add(1, std::memory_order_relaxed);
      while (waiting.load(std::memory_order_relaxed) < threads) std::this_thread::yield();
      for (int round = 0; round < rounds; ++round) {
        std::vector<size_t> order(q.size());
        for (size_t i = 0; i < order.size(); ++i) order[i] = i;
        for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[mine.Next() % i]);
        for (size_t i : order) {
          if (mine.Chance(0.1)) std::this_thread::yield();
          if (mine.Chance(0.02)) usleep(static_cast<unsigned>(mine.Int(1, 300)));
          log[t].emplace_back(ticket.fetch_add(1, std::memory_order_relaxed), i);
          if (!Same(Run(q[i], dir), want[i])) wrong[t].push_back(i);
        }
      }
    });
  }
  for (auto &t : pool) t.join();
  // which thread asked when: the observed interleaving
  std::vector<std::pair<unsigned, int>> trace;
  for (int t = 0; t < threads; ++t) {
    for (auto &e : log[t]) trace.emplace_back(e.first, t);
    for (size_t i : wrong[t]) c->Violate("concurrent-answer", "asked by several threads, " + q[i].name + " gives another answer than sequentially");
    c->Observe(static_cast<long>(log[t].size()));
  }
  std::sort(trace.begin(), trace.end());
  std::string inter;
  long switches = 0;
  for (size_t i = 0; i < trace.size(); ++i) { inter += static_cast<char>('a' + trace[i].second); if (i > 0 && trace[i].second != trace[i - 1].second) ++switches; }
  c->Distinct("interleaving" + inter);
  c->Count("concurrent_queries", static_cast<long>(trace.size()));
  c->Count("context_switches_between_queries", switches);
  c->Count(vp::Cat("threads_", threads));
  // and the shared objects are as they were
  for (size_t i = 0; i < q.size(); ++i) {
    Answer a = Run(q[i], base);
    c->Expect(Same(a, want[i]), "query-changed-object", [&] { return "after the concurrent queries " + q[i].name + " gives another answer"; });
  }
}
}  // namespace

int main(int argc, char **argv) {
  vp::Ctx c;
  c.Parse(argc, argv);
  vp::RunCases(&c, Case, 120);
  c.WriteReport();
  return 0;
}
