// Monitors for the shape-modifying operations: knot insertion/refinement (C05), knot removal (C06), degree elevation
// (C07), degree reduction (C08), subdivision (C09) and arbitrary operation histories (C12).
// Compiled once per parametric dimension (VP_DIM) and once as main (VP_MAIN).
#include "vp.h"
#ifdef VP_MAIN
void Run1(vp::Ctx *c, vp::Rng *r);
void Run2(vp::Ctx *c, vp::Rng *r);
void Run3(vp::Ctx *c, vp::Rng *r);
int main(int argc, char **argv) {
  vp::Ctx c;
  c.Parse(argc, argv);
  vp::RunCases(&c, [](vp::Ctx *x, vp::Rng *r) {
    int k = r->Int(0, 9);
    if (k < 5) Run1(x, r);
    else if (k < 8) Run2(x, r);
    else Run3(x, r);
  });
  c.WriteReport();
  return 0;
}
#else
#include "gen.h"

namespace {
constexpr int D = VP_DIM;
using gen::ld;
using Lib = std::shared_ptr<spl::Spline<D>>;

int Samples(const vp::Ctx *c) { return D == 1 ? 60 : (D == 2 ? 40 : 24) * (c->Thorough() ? 2 : 1); }

ref::Spline Look(vp::Ctx *c, const Lib &l, bool rational, const std::string &after) {
  // GetPointsPerDirection must be sane before the grid is walked
  auto n = l->GetPointsPerDirection();
  long total = 1;
  for (int d = 0; d < D; ++d) total *= n[d];
  if (!c->Expect(total > 0 && total == l->GetNumberOfControlPoints(), "malformed-after-" + after, [&] { return vp::Cat("grid of ", total, " points but GetNumberOfControlPoints()=", l->GetNumberOfControlPoints()); })) {
    throw std::runtime_error("malformed spline after " + after);
  }
  ref::Spline s = gen::Capture<D>(*l, rational);
  std::string m = gen::Malformed(s, l->GetNumberOfControlPoints());
  if (!c->Expect(m.empty(), "malformed-after-" + after, [&] { return m + ": " + gen::Describe(s); })) {
    throw std::runtime_error("malformed spline after " + after + ": " + m);
  }
  // the largest absolute coordinate is one of the numbers a spline reports about its own control points
  ld far = s.MaxAbs();
  double expansion = l->GetExpansion();
  c->Expect(std::fabs(expansion - far) <= 1e-12L * far, "expansion-after-" + after, [&] { return vp::Cat("GetExpansion() is ", expansion, ", control points reach ", static_cast<double>(far)); });
  return s;
}

// A spline whose Bezier decomposition in direction d involves only binary fractions, so that no operation on it rounds:
// linear with any knots, quadratic with gap ratios 1:1 and 1:3, or any degree with two segments of equal length.
ref::Spline MakeExact(vp::Rng *r, int d, int degree) {
  gen::Options o;
  o.min_deg = 1;
  o.max_deg = D == 1 ? degree : 2;
  o.max_interior = 2;
  o.max_points = D == 3 ? 60 : 120;
  ref::Spline s = gen::Make(r, D, o);
  double a = r->Int(-4, 4), h = std::ldexp(1.0, r->Int(-3, 3));
  std::vector<ld> inner;
  double b = a + 2 * h;
  if (degree == 1) {
    int k = r->Int(0, 4);
    b = a;
    for (int i = 0; i < k; ++i) { b += h * r->Int(1, 9); inner.push_back(b); }
    b += h * r->Int(1, 9);
  } else if (degree == 2) {
    bool uneven = r->Chance(0.4);
    int k = r->Int(1, 4);
    b = a;
    for (int i = 0; i <= k; ++i) {
      b += h * (uneven && i % 2 == 1 ? 3 : 1);
      if (i < k) for (int q = r->Int(1, 2); q > 0; --q) inner.push_back(b);
    }
  } else {
    for (int q = r->Int(1, degree); q > 0; --q) inner.push_back(a + h);
  }
  s.deg[d] = degree;
  s.knots[d].assign(static_cast<size_t>(degree + 1), a);
  s.knots[d].insert(s.knots[d].end(), inner.begin(), inner.end());
  s.knots[d].insert(s.knots[d].end(), static_cast<size_t>(degree + 1), b);
  s.n[d] = static_cast<int>(s.knots[d].size()) - degree - 1;
  gen::Points(r, o, &s);
  for (auto &q : s.cp) for (auto &x : q) x = 16 * r->Int(-40, 40);
  for (auto &w : s.w) w = 1;
  return s;
}

// interior candidates in direction d whose multiplicity is below `limit`, or a fresh value inside a random span
double PickKnot(vp::Rng *r, const ref::Spline &s, int d, int limit, int *mult) {
  auto u = ref::Unique(s.knots[d]);
  if (u.size() > 2 && r->Chance(0.45)) {
    ld x = u[r->Int(1, static_cast<int>(u.size()) - 2)];
    int m = ref::Multiplicity(s.knots[d], x);
    if (m < limit) { *mult = m; return static_cast<double>(x); }
  }
  int i = r->Int(0, static_cast<int>(u.size()) - 2);
  double a = static_cast<double>(u[i]), b = static_cast<double>(u[i + 1]);
  double x = r->Chance(0.3) ? a + (b - a) * 0.5 : a + (b - a) * r->Real(0.05, 0.95);
  *mult = 0;
  return x;
}

void SameOtherDirections(vp::Ctx *c, const ref::Spline &a, const ref::Spline &b, int d, const std::string &op) {
  for (int e = 0; e < D; ++e) {
    if (e == d) continue;
    c->Expect(a.deg[e] == b.deg[e] && a.knots[e] == b.knots[e] && a.n[e] == b.n[e], op + "-touches-other-direction",
              [&] { return vp::Cat("direction ", e, " changed by an operation on direction ", d); });
  }
}

std::string KnotStr(const std::vector<ld> &k) { return gen::Str(k); }

// ---------------------------------------------------------------- C05
void Insertion(vp::Ctx *c, vp::Rng *r) {
  gen::Options o;
  o.rescale = true;
  o.min_deg = r->Chance(0.1) ? 0 : 1;
  o.max_deg = D == 1 ? 6 : 4;
  o.extra_mult = r->Chance(0.1) ? 1 : 0;
  o.max_points = D == 3 ? 250 : 400;
  ref::Spline s = gen::Make(r, D, o);
  Lib l = gen::MakeLib<D>(s);
  auto tuples = gen::Tuples(r, s, 4, Samples(c));
  int d = r->Int(0, D - 1);
  std::vector<ld> want = s.knots[d];
  std::string what;
  if (r->Chance(0.6)) {
    int m;
    double u = PickKnot(r, s, d, s.deg[d] + 1, &m);
    int times = r->Int(1, std::max(1, s.deg[d] + (r->Chance(0.2) ? 1 : 0) - m));
    if (m + times > s.deg[d] + 1) times = s.deg[d] + 1 - m;
    if (times == 1 && r->Chance(0.5)) what = "InsertKnot-default"; else what = vp::Cat("InsertKnot x", times);
    c->Input(vp::Cat(gen::Describe(s), " | InsertKnot(", u, ", dir ", d, ", ", times, ")"));
    if (what == "InsertKnot-default") l->InsertKnot(ParamCoord{u}, d);
    else l->InsertKnot(ParamCoord{u}, d, static_cast<size_t>(times));
    want = ref::WithKnot(want, u, times);
    c->Count("insert_mult_" + std::to_string(times));
    c->Count(m > 0 ? "insert_at_existing_knot" : "insert_new_knot");
  } else {
    std::vector<ParamCoord> list;
    std::string ls;
    ref::Spline t = s;
    int count = r->Int(1, 5);
    double last = 0;
    bool again = r->Chance(0.4);   // lists that name the same knot several times, up to multiplicity degree + 1
    int limit = std::max(1, s.deg[d] + (again && s.deg[d] > 0 && r->Chance(0.6) ? 1 : 0));
    if (again) count += limit;
    for (int i = 0; i < count; ++i) {
      int m;
      double u = PickKnot(r, t, d, limit, &m);
      if (again && i > 0 && r->Chance(0.7)) u = last;
      last = u;
      if (t.deg[d] == 0 && m == 0 && ref::Multiplicity(t.knots[d], u) > 0) continue;
      if (ref::Multiplicity(t.knots[d], u) >= limit) continue;
      list.emplace_back(u);
      ls += vp::Cat(u, " ");
      t.knots[d] = ref::WithKnot(t.knots[d], u, 1);
    }
    c->Input(vp::Cat(gen::Describe(s), " | RefineKnots({", ls, "}, dir ", d, ")"));
    l->RefineKnots(list, d);
    want = t.knots[d];
    c->Count("refine");
    what = "RefineKnots";
  }
  ref::Spline t = Look(c, l, s.rational, "insertion");
  c->Expect(t.knots[d] == want, "insertion-wrong-knots", [&] { return "knots are " + KnotStr(t.knots[d]) + ", expected " + KnotStr(want); });
  c->Expect(t.deg[d] == s.deg[d], "insertion-changes-degree", [&] { return vp::Cat(t.deg[d]); });
  SameOtherDirections(c, s, t, d, "insertion");
  ld tol = gen::EvalTol(s);
  gen::CompareGeometry(c, s, t, tuples, tol, "insertion-moves-geometry");
  gen::CompareEvaluation<D>(c, *l, s, tuples, tol, "insertion-evaluation-changed");
  c->Distinct(gen::Signature(s) + what);
}

// ---------------------------------------------------------------- C06
void Removal(vp::Ctx *c, vp::Rng *r) {
  gen::Options o;
  o.rescale = true;
  o.min_deg = 1;
  o.max_deg = D == 1 ? 5 : 3;
  o.max_interior = D == 1 ? 5 : 3;
  o.max_points = D == 3 ? 200 : 350;
  int scenario = r->Int(0, 9);
  if (scenario >= 8) o.extra_mult = 1;
  if (D == 1 && r->Chance(0.08)) { o.min_deg = 6; o.max_deg = 10; o.max_interior = 2; c->Count("high_degree"); }
  ref::Spline s = gen::Make(r, D, o);
  int d = r->Int(0, D - 1);
  if (scenario <= 2) {
    // a knot that is removable by construction
    int m;
    double u = PickKnot(r, s, d, s.deg[d], &m);
    int times = r->Int(1, s.deg[d] - m);
    ref::Spline big = ref::Fit(s, d, ref::WithKnot(s.knots[d], u, times), s.deg[d]);
    Lib l = gen::MakeLib<D>(big);
    int ask = r->Chance(0.25) ? times + r->Int(1, 2) : (r->Chance(0.3) ? r->Int(1, times) : times);
    double tol = 1e-6 * (1 + static_cast<double>(s.MaxAbs()));
    c->Input(vp::Cat(gen::Describe(big), " | RemoveKnot(", u, ", dir ", d, ", tol ", tol, ", ", ask, ") [inserted ", times, " on ", m, "]"));
    auto tuples = gen::Tuples(r, s, 3, Samples(c));
    size_t got = l->RemoveKnot(ParamCoord{u}, d, tol, static_cast<size_t>(ask));
    ref::Spline t = Look(c, l, s.rational, "removal");
    c->Count("removable_knot");
    c->Expect(static_cast<int>(got) >= std::min(ask, times) && static_cast<int>(got) <= std::min(ask, times + m), "removal-refuses-removable-knot",
              [&] { return vp::Cat("removed ", got, " of ", std::min(ask, times), " removable"); });
    std::vector<ld> want = ref::WithKnot(s.knots[d], u, times);
    for (size_t i = 0; i < got; ++i) want.erase(std::find(want.begin(), want.end(), static_cast<ld>(u)));
    c->Expect(t.knots[d] == want && t.deg[d] == s.deg[d], "removal-wrong-knots", [&] { return "knots are " + KnotStr(t.knots[d]) + ", expected " + KnotStr(want); });
    SameOtherDirections(c, big, t, d, "removal");
    ld allowed = 1e-7L * (1 + s.MaxAbs()) * s.MaxWeight() / s.MinWeight();
    if (static_cast<int>(got) > times) allowed += 2 * static_cast<ld>(tol) * static_cast<int>(got);
    gen::CompareGeometry(c, s, t, tuples, allowed, "removal-moves-geometry");
    gen::CompareEvaluation<D>(c, *l, s, tuples, allowed, "removal-evaluation-changed");
    c->Distinct("rem" + gen::Signature(big) + std::to_string(ask));
    return;
  }
  if (scenario == 3) {
    // nothing to remove: a parameter that is no knot, or an end knot -> refused, nothing changes
    Lib l = gen::MakeLib<D>(s);
    auto u = ref::Unique(s.knots[d]);
    double x;
    int k = r->Int(0, 2);
    if (k == 0) x = static_cast<double>(u.front());
    else if (k == 1) x = static_cast<double>(u.back());
    else { int i = r->Int(0, static_cast<int>(u.size()) - 2); x = static_cast<double>(u[i]) + 0.37 * static_cast<double>(u[i + 1] - u[i]); }
    double tol = r->Chance(0.5) ? 1e-6 : 1.0;
    c->Input(vp::Cat(gen::Describe(s), " | RemoveKnot(", x, ", dir ", d, ", tol ", tol, ") [not an interior knot]"));
    size_t got = l->RemoveKnot(ParamCoord{x}, d, tol, 1);
    ref::Spline t = Look(c, l, s.rational, "removal");
    c->Count(k == 2 ? "absent_knot" : "end_knot");
    c->Expect(got == 0 && gen::SameState(s, t), "removal-of-non-interior-knot", [&] { return vp::Cat("RemoveKnot returned ", got, ", state ", gen::SameState(s, t) ? "unchanged" : "changed"); });
    c->Distinct("norem" + gen::Signature(s) + std::to_string(k));
    return;
  }
  auto u = ref::Unique(s.knots[d]);
  if (u.size() <= 2) {
    s.knots[d] = ref::WithKnot(s.knots[d], static_cast<double>((u[0] + u[1]) / 2), r->Int(1, s.deg[d]));
    s.n[d] = static_cast<int>(s.knots[d].size()) - s.deg[d] - 1;
    gen::Points(r, o, &s);
    u = ref::Unique(s.knots[d]);
  }
  ld x = u[r->Int(1, static_cast<int>(u.size()) - 2)];
  x = static_cast<double>(x);
  if (scenario <= 5) {
    // a knot that is removable everywhere but around one control point
    int m;
    double y = PickKnot(r, s, d, s.deg[d], &m);
    if (m < s.deg[d]) {
      s = ref::Fit(s, d, ref::WithKnot(s.knots[d], y, 1), s.deg[d]);
      // ... anywhere, or in the first or last row of the other directions
      int at = r->Int(0, s.Count() - 1);
      if (D > 1 && r->Chance(0.5)) {
        at = 0;
        for (int f = 0, stride = 1; f < D; stride *= s.n[f], ++f) at += stride * (f == d ? r->Int(0, s.n[f] - 1) : (r->Chance(0.6) ? s.n[f] - 1 : 0));
      }
      auto &q = s.cp[static_cast<size_t>(at)];
      auto &e = q[static_cast<size_t>(r->Int(0, s.pdim - 1))];
      e = static_cast<double>(e + static_cast<ld>(r->Pick(std::vector<double>{1e-6, 1e-2, 1.0})));
      x = y;
      c->Count("unremovable_at_one_point");
    }
  }
  int m = ref::Multiplicity(s.knots[d], x);
  if (m == 0) return;
  Lib l = gen::MakeLib<D>(s);
  double tol = r->Pick(std::vector<double>{1e-10, 1e-6, 1e-3, 0.05, 0.3});
  int ask = r->Int(1, m + (r->Chance(0.2) ? 1 : 0));
  c->Input(vp::Cat(gen::Describe(s), " | RemoveKnot(", static_cast<double>(x), ", dir ", d, ", tol ", tol, ", ", ask, ")"));
  auto tuples = gen::Tuples(r, s, 4, Samples(c));
  size_t got = l->RemoveKnot(ParamCoord{static_cast<double>(x)}, d, tol, static_cast<size_t>(ask));
  ref::Spline t = Look(c, l, s.rational, "removal");
  c->Count(got == 0 ? "refused" : "accepted");
  if (m == s.deg[d] + 1) c->Count("full_multiplicity");
  c->Expect(static_cast<int>(got) <= std::min(ask, m), "removal-count-too-high", [&] { return vp::Cat("removed ", got, ", multiplicity ", m, ", asked ", ask); });
  std::vector<ld> want = s.knots[d];
  for (size_t i = 0; i < got && std::count(want.begin(), want.end(), x) > 0; ++i) want.erase(std::find(want.begin(), want.end(), x));
  c->Expect(t.knots[d] == want, "removal-wrong-knots", [&] { return vp::Cat("removed ", got, ": knots are ") + KnotStr(t.knots[d]) + ", expected " + KnotStr(want); });
  SameOtherDirections(c, s, t, d, "removal");
  if (got == 0) {
    c->Expect(gen::SameState(s, t), "refused-removal-changes-spline", [&] { return gen::Describe(t); });
  }
  ld allowed = (s.rational ? 2.0L : 1.0001L) * tol * static_cast<ld>(got) + std::max(gen::EvalTol(s), gen::EvalTol(t));
  gen::CompareGeometry(c, s, t, tuples, allowed, "removal-moves-geometry");
  gen::CompareEvaluation<D>(c, *l, s, tuples, allowed, "removal-evaluation-changed");
  c->Distinct("arb" + gen::Signature(s) + vp::Cat(ask, tol));
}

// ---------------------------------------------------------------- C07
// no operation rounds, so that the auxiliary Bezier knots have to disappear again
void ExactElevation(vp::Ctx *c, vp::Rng *r) {
  int d = r->Int(0, D - 1);
  ref::Spline s = MakeExact(r, d, r->Chance(0.3) ? 1 : 3);
  Lib l = gen::MakeLib<D>(s);
  c->Input(vp::Cat(gen::Describe(s), " | ElevateDegreeForDimension(", d, ") [nothing rounds]"));
  auto tuples = gen::Tuples(r, s, 4, Samples(c));
  l->ElevateDegreeForDimension(d);
  ref::Spline t = Look(c, l, s.rational, "elevation");
  c->Count("exact");
  c->Expect(t.deg[d] == s.deg[d] + 1, "elevation-wrong-degree", [&] { return vp::Cat("degree ", t.deg[d], " after elevating ", s.deg[d]); });
  c->Expect(t.knots[d] == ref::Elevated(s.knots[d]), "elevation-leaves-auxiliary-knots", [&] { return "knots " + KnotStr(s.knots[d]) + " became " + KnotStr(t.knots[d]); });
  SameOtherDirections(c, s, t, d, "elevation");
  gen::CompareGeometry(c, s, t, tuples, gen::EvalTol(s), "elevation-moves-geometry");
  gen::CompareEvaluation<D>(c, *l, s, tuples, gen::EvalTol(s), "elevation-evaluation-changed");
  c->Distinct("exact" + gen::Signature(s) + vp::Cat(d));
}

void Elevation(vp::Ctx *c, vp::Rng *r) {
  if (r->Chance(0.12)) return ExactElevation(c, r);
  gen::Options o;
  o.rescale = true;
  o.min_deg = 1;
  o.max_deg = D == 1 ? 5 : 3;
  o.max_interior = D == 1 ? 4 : 3;
  o.max_points = D == 3 ? 120 : 250;
  ref::Spline s = gen::Make(r, D, o);
  int d = r->Int(0, D - 1);
  int times = r->Chance(0.25) ? 2 : 1;
  if (D == 3) times = 1;
  Lib l = gen::MakeLib<D>(s);
  c->Input(vp::Cat(gen::Describe(s), " | ElevateDegreeForDimension(", d, ") x", times));
  auto tuples = gen::Tuples(r, s, 4, Samples(c));
  for (int i = 0; i < times; ++i) l->ElevateDegreeForDimension(d);
  ref::Spline t = Look(c, l, s.rational, "elevation");
  c->Count("elevate_from_" + std::to_string(s.deg[d]), 1);
  c->Expect(t.deg[d] == s.deg[d] + times, "elevation-wrong-degree", [&] { return vp::Cat("degree ", t.deg[d], " after elevating ", s.deg[d], " ", times, " time(s)"); });
  SameOtherDirections(c, s, t, d, "elevation");
  bool kn = ref::Unique(s.knots[d]) == ref::Unique(t.knots[d]);
  for (ld x : ref::Unique(s.knots[d])) {
    int a = ref::Multiplicity(s.knots[d], x) + times, b = ref::Multiplicity(t.knots[d], x);
    if (b < a || b > t.deg[d] + 1) kn = false;
    if ((x == s.First(d) || x == s.Last(d)) && b != t.deg[d] + 1) kn = false;
  }
  c->Expect(kn, "elevation-wrong-knots", [&] { return "knots " + KnotStr(s.knots[d]) + " became " + KnotStr(t.knots[d]); });
  ld tol = 10 * gen::EvalTol(s);
  gen::CompareGeometry(c, s, t, tuples, tol, "elevation-moves-geometry");
  gen::CompareEvaluation<D>(c, *l, s, tuples, tol, "elevation-evaluation-changed");
  if (s.rational) {
    for (auto &u : tuples) {
      double w = l->Evaluate(gen::LibParam<D>(u), {s.pdim})[0];
      ld e = s.Weight(gen::Ld(u));
      c->Expect(std::fabs(w - e) <= 1e-9L * s.MaxWeight(), "elevation-changes-weight-function", [&] { return vp::Cat("at ", gen::Str(u), " weight ", w, " expected ", static_cast<double>(e)); });
    }
  }
  c->Distinct(gen::Signature(s) + vp::Cat(d, times));
}

// ---------------------------------------------------------------- C08
void ExactReduction(vp::Ctx *c, vp::Rng *r) {
  int d = r->Int(0, D - 1);
  int mode = r->Int(0, 2);
  bool elevated = mode == 0;
  ref::Spline s = MakeExact(r, d, elevated ? (r->Chance(0.5) ? 1 : 3) : r->Int(1, D == 1 ? 5 : 3)), big = s;
  auto exact = [&] {   // everything is a binary fraction, up to the rounding of Fit
    for (auto &q : big.cp) for (auto &x : q) x = std::ldexp(std::round(std::ldexp(x, 20)), -20);
    for (auto &w : big.w) w = 1;
  };
  if (elevated) {
    big = ref::Fit(s, d, ref::Elevated(s.knots[d]), s.deg[d] + 1);
    exact();
  } else if (mode == 1) {   // might happen to be of lower degree without this
    big.cp[static_cast<size_t>(r->Int(0, big.Count() - 1))][static_cast<size_t>(r->Int(0, big.pdim - 1))] += 4096;
  } else {                  // of lower degree, except on the first or the last of two segments
    ld a = s.First(d), h = s.Last(d) - a;
    int q = s.deg[d];
    s.knots[d].assign(static_cast<size_t>(q + 1), a);
    s.knots[d].insert(s.knots[d].end(), static_cast<size_t>(q + 1), a + h);
    s.n[d] = q + 1;
    gen::Options o;
    gen::Points(r, o, &s);
    for (auto &x : s.cp) for (auto &y : x) y = 240 * r->Int(-9, 9);
    for (auto &w : s.w) w = 1;
    std::vector<ld> k(static_cast<size_t>(q + 2), a);
    k.insert(k.end(), static_cast<size_t>(r->Int(1, q + 1)), a + h / 2);
    k.insert(k.end(), static_cast<size_t>(q + 2), a + h);
    big = ref::Fit(s, d, k, q + 1);
    exact();
    bool last = r->Chance(0.6);
    std::array<int, D> at;
    for (int e = 0; e < D; ++e) at[e] = e == d ? (last ? big.n[e] - 1 : 0) : r->Int(0, big.n[e] - 1);
    size_t i = 0;
    for (int e = D - 1; e >= 0; --e) i = i * static_cast<size_t>(big.n[e]) + static_cast<size_t>(at[e]);
    big.cp[i][static_cast<size_t>(r->Int(0, big.pdim - 1))] += 4096;
    c->Count(last ? "exact_last_segment" : "exact_first_segment");
  }
  Lib l = gen::MakeLib<D>(big);
  double tol = 1e-3;
  c->Input(vp::Cat(gen::Describe(big), " | ReduceDegreeForDimension(", d, ", ", tol, ") [nothing rounds]"));
  bool ok = l->ReduceDegreeForDimension(d, tol);
  ref::Spline t = Look(c, l, s.rational, "reduction");
  c->Count(elevated ? "exact_reduced" : "exact_refused");
  c->Expect(ok == elevated, elevated ? "reduction-refuses-reducible" : "reduction-accepts-irreducible", [&] { return vp::Cat("returned ", ok); });
  if (ok == elevated) c->Expect(gen::SameState(s = elevated ? s : big, t), elevated ? "reduction-of-elevated-differs" : "refused-reduction-changes-spline", [&] { return gen::Describe(t); });
  c->Distinct("exact" + gen::Signature(s) + vp::Cat(d));
}

void Reduction(vp::Ctx *c, vp::Rng *r) {
  if (r->Chance(0.15)) return ExactReduction(c, r);
  gen::Options o;
  o.rescale = true;
  o.max_interior = D == 1 ? 4 : 2;
  o.max_points = D == 3 ? 100 : 220;
  int scenario = r->Int(0, 5);
  if (D > 1 && scenario == 2) scenario = 5;
  int d = r->Int(0, D - 1);
  if (scenario <= 2) {
    o.min_deg = 1;
    o.max_deg = D == 1 ? 5 : 3;
    ref::Spline s = gen::Make(r, D, o);
    ref::Spline big = ref::Fit(s, d, ref::Elevated(s.knots[d]), s.deg[d] + 1);
    // optionally more (removable) knots, or a knot the reduced curve does not need at all
    if (r->Chance(0.5)) {
      int m;
      double u = PickKnot(r, big, d, big.deg[d], &m);
      int times = r->Int(1, big.deg[d] - m);
      big = ref::Fit(big, d, ref::WithKnot(big.knots[d], u, times), big.deg[d]);
      c->Count("reducible_with_extra_knot");
    }
    Lib l = gen::MakeLib<D>(big);
    double tol = 1e-6 * (1 + static_cast<double>(s.MaxAbs()));
    c->Input(vp::Cat(gen::Describe(big), " | ReduceDegreeForDimension(", d, ", ", tol, ") [elevated by construction]"));
    auto tuples = gen::Tuples(r, big, 3, Samples(c));
    bool ok = l->ReduceDegreeForDimension(d, tol);
    ref::Spline t = Look(c, l, s.rational, "reduction");
    c->Count("reducible");
    c->Expect(ok, "reduction-refuses-reducible", [&] { return std::string("ReduceDegreeForDimension returned false"); });
    c->Expect(t.deg[d] == s.deg[d] + (ok ? 0 : 1), "reduction-wrong-degree", [&] { return vp::Cat("degree ", t.deg[d]); });
    SameOtherDirections(c, big, t, d, "reduction");
    ld allowed = 1e-7L * (1 + s.MaxAbs()) * s.MaxWeight() / s.MinWeight();
    gen::CompareGeometry(c, s, t, tuples, allowed, "reduction-moves-geometry");
    gen::CompareEvaluation<D>(c, *l, s, tuples, allowed, "reduction-evaluation-changed");
    c->Distinct("red" + gen::Signature(big));
    return;
  }
  o.min_deg = 1;
  o.max_deg = D == 1 ? 6 : 3;
  ref::Spline s = gen::Make(r, D, o);
  double tol = r->Pick(std::vector<double>{1e-14, 1e-8, 1e-3, 0.05, 0.2});
  if (scenario == 5 && s.deg[d] >= 2) {
    // close to reducible: perturb an elevated spline by about the tolerance
    ref::Spline low = s;
    o.max_deg = s.deg[d] - 1;
    low = gen::Make(r, D, o);
    s = ref::Fit(low, d, ref::Elevated(low.knots[d]), low.deg[d] + 1);
    if (r->Chance(0.5)) {
      for (auto &q : s.cp) for (auto &x : q) x = static_cast<double>(x + static_cast<ld>(tol * r->Real(-1, 1)));
      c->Count("nearly_reducible");
    } else {
      // everything is reducible except around one control point
      auto &q = r->Pick(s.cp);
      auto &x = const_cast<ld &>(q[static_cast<size_t>(r->Int(0, s.pdim - 1))]);
      x = static_cast<double>(x + static_cast<ld>(r->Pick(std::vector<double>{3 * tol, 100 * tol, 1.0})));
      c->Count("irreducible_at_one_point");
    }
  }
  Lib l = gen::MakeLib<D>(s);
  c->Input(vp::Cat(gen::Describe(s), " | ReduceDegreeForDimension(", d, ", ", tol, ")"));
  auto tuples = gen::Tuples(r, s, 4, Samples(c));
  bool ok = l->ReduceDegreeForDimension(d, tol);
  ref::Spline t = Look(c, l, s.rational, "reduction");
  c->Count(ok ? "reduced" : "refused");
  c->Expect(t.deg[d] == s.deg[d] - (ok ? 1 : 0), "reduction-wrong-degree", [&] { return vp::Cat("returned ", ok, ", degree ", s.deg[d], " -> ", t.deg[d]); });
  SameOtherDirections(c, s, t, d, "reduction");
  c->Expect(s.First(d) == t.First(d) && s.Last(d) == t.Last(d), "reduction-changes-domain", [&] { return KnotStr(t.knots[d]); });
  if (!ok) {
    bool kn = true;
    for (ld x : ref::Unique(s.knots[d])) if (ref::Multiplicity(t.knots[d], x) < ref::Multiplicity(s.knots[d], x)) kn = false;
    c->Expect(kn && ref::Unique(s.knots[d]) == ref::Unique(t.knots[d]), "refused-reduction-changes-knots", [&] { return "knots " + KnotStr(s.knots[d]) + " became " + KnotStr(t.knots[d]); });
  }
  ld allowed = 10 * gen::EvalTol(s) + std::min(gen::EvalTol(t), 1e-7L * (1 + s.MaxAbs()));
  if (ok) allowed += 2.0L * tol * (s.rational ? (1 + s.MaxAbs() * std::sqrt(static_cast<ld>(s.pdim))) / s.MinWeight() : 1.0L);
  gen::CompareGeometry(c, s, t, tuples, allowed, ok ? "reduction-moves-geometry" : "refused-reduction-moves-geometry");
  gen::CompareEvaluation<D>(c, *l, s, tuples, allowed, ok ? "reduction-evaluation-changed" : "refused-reduction-evaluation-changed");
  c->Distinct("arb" + gen::Signature(s) + vp::Cat(d, tol, ok));
}

// ---------------------------------------------------------------- C09
template<class S> void SubdivideOne(vp::Ctx *c, vp::Rng *r, const ref::Spline &s, std::shared_ptr<S> l, int d, double u) {
  auto pieces = l->SudivideSpline(ParamCoord{u}, d);
  ld tol = gen::EvalTol(s);
  auto tuples = gen::Tuples(r, s, 4, Samples(c));
  ref::Spline orig = Look(c, l, s.rational, "subdivision-original");
  gen::CompareGeometry(c, s, orig, tuples, tol, "subdivision-moves-original");
  for (int i = 0; i < 2; ++i) {
    if (!c->Expect(pieces[i] != nullptr, "subdivision-missing-piece", [&] { return vp::Cat("piece ", i); })) continue;
    ref::Spline t = Look(c, pieces[i], s.rational, "subdivision-piece");
    SameOtherDirections(c, s, t, d, "subdivision");
    ld a = i == 0 ? s.First(d) : static_cast<ld>(u), b = i == 0 ? static_cast<ld>(u) : s.Last(d);
    std::vector<ld> want;
    for (int q = 0; q <= s.deg[d]; ++q) want.push_back(a);
    for (ld x : s.knots[d]) if (x > a && x < b) want.push_back(x);
    for (int q = 0; q <= s.deg[d]; ++q) want.push_back(b);
    c->Expect(t.deg[d] == s.deg[d] && t.knots[d] == want, "subdivision-wrong-knots", [&] { return vp::Cat("piece ", i, " has knots ") + KnotStr(t.knots[d]) + ", expected " + KnotStr(want); });
    auto tt = gen::Tuples(r, t, 4, Samples(c));
    if (i == 0 && s.deg[d] == 0) continue;
    // the end of the first piece is a limit from the left: compare at parameters strictly inside, and at the end by continuity
    bool continuous = ref::Multiplicity(s.knots[d], u) <= s.deg[d];
    std::vector<std::vector<double>> use;
    for (auto &x : tt) if (i == 1 || continuous || x[d] < u) use.push_back(x);
    gen::CompareGeometry(c, s, t, use, tol, "subdivision-piece-wrong-geometry");
    gen::CompareEvaluation<D>(c, *pieces[i], s, use, tol, "subdivision-piece-wrong-evaluation");
  }
}

void Subdivision(vp::Ctx *c, vp::Rng *r) {
  gen::Options o;
  o.rescale = true;
  o.min_deg = 1;
  o.max_deg = D == 1 ? 6 : 4;
  o.max_points = D == 3 ? 200 : 350;
  o.extra_mult = r->Chance(0.1) ? 1 : 0;
  ref::Spline s = gen::Make(r, D, o);
  int d = r->Int(0, D - 1), m;
  double u = PickKnot(r, s, d, s.deg[d] + 2, &m);
  c->Input(vp::Cat(gen::Describe(s), " | SudivideSpline(", u, ", dir ", d, ")"));
  c->Count(m > 0 ? "split_at_knot_mult_" + std::to_string(m) : "split_between_knots");
  if (s.rational) SubdivideOne(c, r, s, gen::MakeN<D>(s), d, u);
  else SubdivideOne(c, r, s, gen::MakeB<D>(s), d, u);
  c->Distinct(gen::Signature(s) + vp::Cat(d, m));
}

// ---------------------------------------------------------------- C12
template<class S> void HistoryOf(vp::Ctx *c, vp::Rng *r, const ref::Spline &s, std::shared_ptr<S> l) {
  ref::Spline now = s;
  std::string log = gen::Describe(s) + " |";
  int steps = r->Int(2, D == 1 ? 8 : (D == 2 ? 6 : 4));
  ld tol = 1e-8L * (1 + s.MaxAbs()) * s.MaxWeight() / s.MinWeight();
  std::vector<bool> discontinuous(D, false);
  std::string ops;
  // other objects derived on the way, which must keep their own geometry
  struct Kept { std::shared_ptr<S> l; ref::Spline state; };
  std::vector<Kept> kept;
  for (int step = 0; step < steps; ++step) {
    int d = r->Int(0, D - 1), m;
    int op = r->Int(0, 6);
    if (now.Count() > (D == 1 ? 40 : 260) && (op == 0 || op == 1 || op == 3)) op = 2;
    switch (op) {
      case 0: {
        double u = PickKnot(r, now, d, now.deg[d], &m);
        int times = r->Int(1, std::max(1, now.deg[d] - m));
        log += vp::Cat(" Insert(", u, ",", d, ",", times, ")");
        c->Input(log);
        l->InsertKnot(ParamCoord{u}, d, static_cast<size_t>(times));
        ops += "I";
        break;
      }
      case 1: {
        std::vector<ParamCoord> list;
        ref::Spline t = now;
        log += " Refine(";
        for (int i = 0; i < 3; ++i) {
          double u = PickKnot(r, t, d, t.deg[d], &m);
          if (ref::Multiplicity(t.knots[d], u) >= t.deg[d]) continue;
          t.knots[d] = ref::WithKnot(t.knots[d], u, 1);
          list.emplace_back(u);
          log += vp::Cat(u, " ");
        }
        log += vp::Cat(",", d, ")");
        c->Input(log);
        l->RefineKnots(list, d);
        ops += "F";
        break;
      }
      case 2: {
        auto u = ref::Unique(now.knots[d]);
        if (u.size() <= 2) break;
        double x = static_cast<double>(u[r->Int(1, static_cast<int>(u.size()) - 2)]);
        log += vp::Cat(" Remove(", x, ",", d, ")");
        c->Input(log);
        size_t got = l->RemoveKnot(ParamCoord{x}, d, 1e-10, static_cast<size_t>(r->Int(1, 2)));
        c->Count("history_knots_removed", static_cast<long>(got));
        ops += got > 0 ? "R" : "r";
        break;
      }
      case 3: {
        if (discontinuous[d] || now.deg[d] >= (D == 1 ? 6 : 4)) break;
        log += vp::Cat(" Elevate(", d, ")");
        c->Input(log);
        l->ElevateDegreeForDimension(d);
        ops += "E";
        break;
      }
      case 4: {
        if (discontinuous[d]) break;
        log += vp::Cat(" Reduce(", d, ")");
        c->Input(log);
        bool ok = l->ReduceDegreeForDimension(d, 1e-9);
        c->Count(ok ? "history_reduced" : "history_reduction_refused");
        ops += ok ? "D" : "d";
        break;
      }
      case 5: {
        double u = PickKnot(r, now, d, now.deg[d] + 1, &m);
        log += vp::Cat(" Subdivide(", u, ",", d, ")");
        c->Input(log);
        auto pieces = l->SudivideSpline(ParamCoord{u}, d);
        int keep = r->Int(0, 2);
        log += vp::Cat("->", keep == 2 ? std::string("original") : vp::Cat("piece", keep));
        ops += "S" + std::to_string(keep);
        if (keep == 2) {
          discontinuous[d] = true;
        } else {
          kept.push_back({l, gen::Capture<D>(*l, s.rational)});
          kept.push_back({pieces[1 - keep], gen::Capture<D>(*pieces[1 - keep], s.rational)});
          l = pieces[keep];
        }
        break;
      }
      default: {
        log += " Copy";
        c->Input(log);
        auto copy = std::make_shared<S>(*l);
        kept.push_back({l, gen::Capture<D>(*l, s.rational)});
        l = copy;
        ops += "C";
      }
    }
    now = Look(c, l, s.rational, "history-step");
    // a knot of multiplicity p+1 may only remain where the history put it
    auto tuples = gen::Tuples(r, now, 2, D == 1 ? 24 : 16);
    std::vector<std::vector<double>> use;
    for (auto &u : tuples) {
      bool ok = true;
      for (int e = 0; e < D; ++e) if (u[e] < static_cast<double>(s.First(e)) || u[e] > static_cast<double>(s.Last(e))) ok = false;
      if (ok) use.push_back(u);
    }
    int bad = gen::CompareGeometry(c, s, now, use, tol, "history-moves-geometry");
    bad += gen::CompareEvaluation<D>(c, *l, s, use, tol, "history-evaluation-changed");
    if (bad) break;
  }
  for (auto &k : kept) {
    ref::Spline t = gen::Capture<D>(*k.l, s.rational);
    c->Expect(gen::SameState(t, k.state), "history-changes-other-object", [&] { return "an object the history had left behind changed: " + gen::Describe(t); });
  }
  c->Count("history_steps", static_cast<long>(ops.size()));
  c->Distinct(gen::Signature(s) + ops);
}

void History(vp::Ctx *c, vp::Rng *r) {
  gen::Options o;
  o.rescale = true;
  o.min_deg = 1;
  o.max_deg = D == 1 ? 4 : (D == 2 ? 3 : 2);
  o.max_interior = D == 1 ? 4 : 2;
  o.max_points = D == 3 ? 60 : 120;
  o.max_weight_ratio = 9;
  ref::Spline s = gen::Make(r, D, o);
  c->Input(gen::Describe(s));
  if (s.rational) HistoryOf(c, r, s, gen::MakeN<D>(s));
  else HistoryOf(c, r, s, gen::MakeB<D>(s));
}
}  // namespace

#define CONCAT2(a, b) a##b
#define CONCAT(a, b) CONCAT2(a, b)
void CONCAT(Run, VP_DIM)(vp::Ctx *c, vp::Rng *r) {
  c->Count("dim" + std::to_string(D));
  if (c->prop == "C05") Insertion(c, r);
  else if (c->prop == "C06") Removal(c, r);
  else if (c->prop == "C07") Elevation(c, r);
  else if (c->prop == "C08") Reduction(c, r);
  else if (c->prop == "C09") Subdivision(c, r);
  else if (c->prop == "C12") History(c, r);
  else { fprintf(stderr, "unknown property\n"); exit(3); }
}
#endif
