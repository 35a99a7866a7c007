// Monitors for basis functions (C01), evaluation (C02), derivatives (C03), validation of inputs (C04), value semantics
// (C10), equality predicates (C11).  Compiled once per parametric dimension (VP_DIM) and once as main (VP_MAIN).
#include "vp.h"
#ifdef VP_MAIN
void Run1(vp::Ctx *c, vp::Rng *r);
void Run2(vp::Ctx *c, vp::Rng *r);
void Run3(vp::Ctx *c, vp::Rng *r);
void Run4(vp::Ctx *c, vp::Rng *r);
int main(int argc, char **argv) {
  vp::Ctx c;
  c.Parse(argc, argv);
  vp::RunCases(&c, [](vp::Ctx *x, vp::Rng *r) {
    int k = r->Int(0, 9);
    if (x->prop == "C01" || k < 4) Run1(x, r);
    else if (k < 7) Run2(x, r);
    else if (k < 9) Run3(x, r);
    else Run4(x, r);
  });
  c.WriteReport();
  return 0;
}
#else
#include "gen.h"
#include "basis_function_factory.h"

namespace {
constexpr int D = VP_DIM;
using gen::ld;
using Lib = std::shared_ptr<spl::Spline<D>>;

gen::Options EvalOptions(vp::Rng *r) {
  gen::Options o;
  o.min_deg = r->Chance(0.15) ? 0 : 1;
  o.max_deg = D == 1 ? 7 : (D == 2 ? 4 : (D == 3 ? 3 : 2));
  o.max_interior = D == 1 ? 6 : 3;
  o.extra_mult = r->Chance(0.15) ? 1 : 0;
  o.tiny = r->Chance(0.15);
  o.max_points = D >= 3 ? 300 : 400;
  return o;
}

// the several ways to build one and the same spline
Lib Build(vp::Ctx *c, vp::Rng *r, const ref::Spline &s) {
  int how = r->Int(0, 3);
  c->Count("constructed_way_" + std::to_string(how));
  auto kv = gen::LibKnots<D>(s);
  auto deg = gen::LibDegrees<D>(s);
  if (s.rational) {
    if (how == 0) return std::make_shared<spl::NURBS<D>>(spl::NURBSGenerator<D>(kv, deg, gen::LibPoints(s), gen::LibWeights(s)));
    if (how == 1) { auto x = gen::MakeN<D>(s); return std::make_shared<spl::NURBS<D>>(*x); }
    if (how == 2) {
      ref::Spline other = s;
      for (auto &q : other.cp) for (auto &x : q) x = static_cast<double>(x * 2 + 1);
      auto x = gen::MakeN<D>(other);
      return std::make_shared<spl::NURBS<D>>(*x, gen::LibPoints(s));
    }
    return gen::MakeN<D>(s);
  }
  if (how == 0) return std::make_shared<spl::BSpline<D>>(spl::BSplineGenerator<D>(kv, deg, gen::LibPoints(s)));
  if (how == 1) { auto x = gen::MakeB<D>(s); return std::make_shared<spl::BSpline<D>>(*x); }
  return gen::MakeB<D>(s);
}

// ---------------------------------------------------------------- C01
void Basis(vp::Ctx *c, vp::Rng *r) {
  gen::Options o;
  o.max_interior = 8;
  o.extra_mult = r->Chance(0.3) ? 1 : 0;
  o.tiny = r->Chance(0.25);
  int p = r->Int(0, 7);
  auto k = gen::Knots(r, o, p);
  int n = static_cast<int>(k.size()) - p - 1;
  std::vector<ParamCoord> lk;
  for (ld x : k) lk.emplace_back(static_cast<double>(x));
  baf::KnotVector kv(lk);
  c->Input(vp::Cat("degree ", p, " knots ") + gen::Str(k));
  std::vector<std::unique_ptr<baf::BasisFunction>> f;
  for (int i = 0; i < n; ++i) f.emplace_back(baf::BasisFunctionFactory::CreateDynamic(kv, KnotSpan{i}, Degree{p}));
  // a spline over the same space, for the "all non-zero" queries
  ref::Spline s;
  s.dim = 1; s.pdim = 1; s.deg = {p}; s.knots = {k}; s.n = {n};
  for (int i = 0; i < n; ++i) { s.cp.push_back({1.0L}); s.w.push_back(1.0L); }
  auto spline = gen::MakeB<1>(s);
  ref::Curve base;
  base.p = p; base.m = n; base.k = k;
  for (int i = 0; i < n; ++i) { std::vector<ld> e(static_cast<size_t>(n), 0.0L); e[i] = 1; base.c.push_back(e); }
  std::vector<ref::Curve> ders{base};
  for (int q = 1; q <= p; ++q) ders.push_back(ders.back().Derivative());
  for (double u : gen::Abscissae(r, k, 3)) {
    int span = ref::Span(k, p, u);
    // values
    auto want = base.Eval(u, span);
    ld sum = 0;
    std::vector<double> got;
    for (int i = 0; i < n; ++i) {
      double v = f[i]->Evaluate(ParamCoord{u});
      got.push_back(v);
      sum += v;
      c->Expect(std::fabs(v - want[i]) <= 1e-12L, "basis-value", [&] { return vp::Cat("N_", i, ",", p, "(", u, ")=", v, ", expected ", static_cast<double>(want[i])); });
      c->Expect(v >= -1e-15, "basis-negative", [&] { return vp::Cat("N_", i, ",", p, "(", u, ")=", v); });
      bool inside = k[i] <= u && (u < k[i + p + 1] || (u == k.back() && k[i + p + 1] == k.back()));
      if (!inside) c->Expect(v == 0, "basis-support", [&] { return vp::Cat("N_", i, ",", p, "(", u, ")=", v, " outside its support"); });
    }
    c->Expect(std::fabs(sum - 1) <= 1e-12L, "basis-partition-of-unity", [&] { return vp::Cat("sum at ", u, " is ", static_cast<double>(sum)); });
    auto nz = spline->EvaluateAllNonZeroBasisFunctions(0, ParamCoord{u});
    c->Expect(static_cast<int>(nz.size()) == p + 1, "nonzero-basis-count", [&] { return vp::Cat(nz.size()); });
    for (int q = 0; q <= p && q < static_cast<int>(nz.size()); ++q) {
      c->Expect(std::fabs(nz[q] - got[span - p + q]) <= 1e-13 && std::fabs(nz[q] - want[span - p + q]) <= 1e-12L, "nonzero-basis-values", [&] { return vp::Cat("entry ", q, " at ", u, " is ", nz[q], ", function ", span - p + q, " is ", got[span - p + q]); });
    }
    // derivatives of every order up to p + 2
    for (int d = 1; d <= p + 2; ++d) {
      std::vector<ld> wd(static_cast<size_t>(n), 0.0L);
      ld scale = 1;
      if (d <= p) {
        wd = ders[d].Eval(u, span - d);
        scale = 0;
        for (auto &x : ders[d].c) for (ld y : x) scale = std::max(scale, std::fabs(y));
      }
      auto nd = spline->EvaluateAllNonZeroBasisFunctionDerivatives(0, ParamCoord{u}, d);
      ld dsum = 0;
      for (int i = 0; i < n; ++i) {
        double v = f[i]->EvaluateDerivative(ParamCoord{u}, Derivative{d});
        dsum += v;
        c->Expect(std::fabs(v - wd[i]) <= 1e-11L * scale, d > p ? "basis-derivative-beyond-degree" : "basis-derivative", [&] { return vp::Cat("D^", d, " N_", i, ",", p, "(", u, ")=", v, ", expected ", static_cast<double>(wd[i])); });
        int q = i - (span - p);
        if (q >= 0 && q <= p) c->Expect(q < static_cast<int>(nd.size()) && std::fabs(nd[q] - v) <= 1e-12L * scale, "nonzero-basis-derivatives", [&] { return vp::Cat("order ", d, " entry ", q, " at ", u); });
        else c->Expect(v == 0, "basis-derivative-support", [&] { return vp::Cat("D^", d, " N_", i, ",", p, "(", u, ")=", v); });
      }
      c->Expect(std::fabs(dsum) <= 1e-11L * scale * (p + 1), "basis-derivative-sum", [&] { return vp::Cat("derivatives of order ", d, " at ", u, " sum to ", static_cast<double>(dsum)); });
    }
    for (int i = 0; i < n; ++i) c->Expect(std::fabs(f[i]->EvaluateDerivative(ParamCoord{u}, Derivative{0}) - got[i]) <= 1e-13, "basis-derivative-zero", [&] { return vp::Cat("order 0 of function ", i, " at ", u); });
    c->Count("parameters");
    if (u == k.back()) c->Count("right_end");
    else if (ref::Multiplicity(k, u) > 0) c->Count("at_knot");
  }
  // outside the domain every function vanishes
  for (double u : {static_cast<double>(k.front()) - 0.25, static_cast<double>(k.back()) + 0.25}) {
    for (int i = 0; i < n; ++i) {
      c->Expect(f[i]->Evaluate(ParamCoord{u}) == 0 && f[i]->EvaluateDerivative(ParamCoord{u}, Derivative{1}) == 0, "basis-outside-domain", [&] { return vp::Cat("function ", i, " at ", u); });
    }
  }
  s.pdim = 1;
  c->Distinct(gen::Signature(s));
}

// ---------------------------------------------------------------- C02
void Evaluation(vp::Ctx *c, vp::Rng *r) {
  ref::Spline s = gen::Make(r, D, EvalOptions(r));
  c->Input(gen::Describe(s));
  Lib l = Build(c, r, s);
  ref::Spline seen = gen::Capture<D>(*l, s.rational);
  c->Expect(gen::SameState(s, seen), "constructed-state", [&] { return "getters report " + gen::Describe(seen); });
  for (int d = 0; d < D; ++d) c->Expect(l->GetKnotVectorRange(d) == static_cast<double>(s.Last(d)) - static_cast<double>(s.First(d)), "knot-vector-range", [&] { return vp::Cat("direction ", d); });
  for (int i = 0; i < s.Count(); i += 1 + s.Count() / 7) {
    auto idx = gen::Unflatten<D>(i, s.n);
    auto q = l->GetControlPoint(idx);
    bool ok = q.GetDimension() == s.pdim;
    for (int j = 0; ok && j < s.pdim; ++j) ok = q.GetValue(j) == s.cp[i][j];
    c->Expect(ok, "control-point-getter", [&] { return vp::Cat("point ", i); });
  }
  ld expansion = 0, distance = 0, least = s.w.empty() ? 1 : s.w[0];
  for (int i = 0; i < s.Count(); ++i) {
    ld q = 0;
    for (ld x : s.cp[i]) { expansion = std::max(expansion, std::abs(x)); q += x * x; }
    distance = std::max(distance, std::sqrt(q));
    if (s.rational) least = std::min(least, s.w[i]);
  }
  c->Expect(l->GetExpansion() == static_cast<double>(expansion), "expansion", [&] { return vp::Cat(l->GetExpansion(), " instead of ", expansion); });
  {
    auto points = gen::LibPoints(s);
    std::array<int, D> n;
    std::copy(s.n.begin(), s.n.end(), n.begin());
    spl::PhysicalSpace<D> plain(points, n);
    c->Expect(std::abs(plain.GetMaximumDistanceFromOrigin() - distance) <= 1e-13L * distance, "maximum-distance", [&] { return vp::Cat(plain.GetMaximumDistanceFromOrigin(), " instead of ", distance); });
    auto top = plain.GetMaximumPointIndexInEachDirection();
    bool ok = plain.GetNumberOfControlPoints() == s.Count() && plain.GetDimension() == s.pdim;
    for (int d = 0; d < D; ++d) ok = ok && top[d] == s.n[d] - 1;
    c->Expect(ok, "physical-space-sizes", [&] { return std::string("number of points, maximum indices or dimension"); });
    if (s.rational) {
      std::vector<double> w(s.w.begin(), s.w.end());
      spl::WeightedPhysicalSpace<D> weighted(points, w, n);
      c->Expect(weighted.GetMinimumWeight() == static_cast<double>(least), "minimum-weight", [&] { return vp::Cat(weighted.GetMinimumWeight(), " instead of ", least); });
      auto idx = gen::Unflatten<D>(r->Int(0, s.Count() - 1), s.n);
      auto h = weighted.GetHomogenousControlPoint(idx);
      ok = h.GetDimension() == s.pdim + 1;
      int f = 0;
      for (int d = D - 1; d >= 0; --d) f = f * s.n[d] + idx[d];
      for (int j = 0; ok && j < s.pdim; ++j) ok = std::abs(h.GetValue(j) - s.cp[f][j] * s.w[f]) <= 1e-14L * std::abs(s.cp[f][j] * s.w[f]);
      ok = ok && h.GetValue(s.pdim) == s.w[f];
      c->Expect(ok, "homogeneous-control-point", [&] { return vp::Cat("point ", f); });
    }
  }
  int limit = D == 1 ? 120 : (D == 2 ? 60 : (D == 3 ? 30 : 16));
  auto tuples = gen::Tuples(r, s, 4, limit);
  ld tol = 1e-13L * (s.MaxAbs() + 1e-30L) * (s.MaxWeight() / s.MinWeight()) * 50;
  gen::CompareEvaluation<D>(c, *l, s, tuples, tol, "evaluation");
  std::vector<ld> lo(static_cast<size_t>(s.pdim), 1e300L), hi(static_cast<size_t>(s.pdim), -1e300L);
  for (auto &u : tuples) {
    c->Count("parameters");
    // components are independent of which other components are asked for, in which order, how often
    std::vector<int> ask;
    int m = r->Int(0, 4);
    for (int i = 0; i < m; ++i) ask.push_back(r->Int(0, s.pdim - 1 + (s.rational ? 1 : 0)));
    auto got = l->Evaluate(gen::LibParam<D>(u), ask);
    auto full = l->Evaluate(gen::LibParam<D>(u), gen::Iota(s.pdim));
    bool ok = got.size() == ask.size();
    for (size_t i = 0; ok && i < ask.size(); ++i) {
      if (ask[i] < s.pdim) ok = std::fabs(got[i] - full[ask[i]]) <= tol;
      else {
        ld w = s.Weight(gen::Ld(u));
        ok = std::fabs(got[i] - w) <= 1e-12L * s.MaxWeight();
        c->Count("weight_component");
      }
    }
    c->Expect(ok, "component-selection", [&] { return vp::Cat("at ", gen::Str(u), " got ", gen::Str(got), " of ", gen::Str(full)); });
    // convex hull (bounding box of the active control points)
    std::vector<int> first;
    std::fill(lo.begin(), lo.end(), 1e300L);
    std::fill(hi.begin(), hi.end(), -1e300L);
    for (int i = 0; i < s.Count(); ++i) {
      auto idx = gen::Unflatten<D>(i, s.n);
      bool active = true;
      for (int d = 0; d < D; ++d) {
        int sp = ref::Span(s.knots[d], s.deg[d], u[d]);
        if (idx[d] < sp - s.deg[d] || idx[d] > sp) active = false;
      }
      if (!active) continue;
      for (int j = 0; j < s.pdim; ++j) { lo[j] = std::min(lo[j], s.cp[i][j]); hi[j] = std::max(hi[j], s.cp[i][j]); }
    }
    for (int j = 0; j < s.pdim; ++j) c->Expect(full[j] >= lo[j] - tol && full[j] <= hi[j] + tol, "convex-hull", [&] { return vp::Cat("at ", gen::Str(u), " component ", j, " is ", full[j], " outside [", static_cast<double>(lo[j]), ",", static_cast<double>(hi[j]), "]"); });
  }
  // corners interpolate the corner control points
  for (int q = 0; q < (1 << D); ++q) {
    std::array<ParamCoord, D> u;
    std::array<int, D> idx;
    int flat = 0, stride = 1;
    for (int d = 0; d < D; ++d) {
      bool last = (q >> d) & 1;
      u[d] = ParamCoord{static_cast<double>(last ? s.Last(d) : s.First(d))};
      idx[d] = last ? s.n[d] - 1 : 0;
      flat += idx[d] * stride;
      stride *= s.n[d];
    }
    auto got = l->Evaluate(u, gen::Iota(s.pdim));
    for (int j = 0; j < s.pdim; ++j) c->Expect(std::fabs(got[j] - s.cp[flat][j]) <= tol, "corner-interpolation", [&] { return vp::Cat("corner ", q, " component ", j, ": ", got[j]); });
  }
  // a NURBS with equal weights is the B-spline over the same data
  if (s.rational && r->Chance(0.3)) {
    ref::Spline e = s;
    double w = r->Pick(std::vector<double>{1, 0.5, 3.7});
    for (auto &x : e.w) x = w;
    auto a = gen::MakeN<D>(e);
    auto b = gen::MakeB<D>(e);
    for (size_t i = 0; i < tuples.size(); i += 3) {
      auto x = a->Evaluate(gen::LibParam<D>(tuples[i]), gen::Iota(s.pdim)), y = b->Evaluate(gen::LibParam<D>(tuples[i]), gen::Iota(s.pdim));
      c->Expect(gen::Dist(gen::Ld(x), gen::Ld(y)) <= tol, "equal-weights", [&] { return vp::Cat("at ", gen::Str(tuples[i]), " ", gen::Str(x), " vs ", gen::Str(y)); });
    }
  }
  // projective invariance: scaling all weights changes nothing
  if (s.rational && r->Chance(0.3)) {
    ref::Spline e = s;
    for (auto &x : e.w) x = static_cast<double>(x * 8);
    auto a = gen::MakeN<D>(e);
    for (size_t i = 0; i < tuples.size(); i += 3) {
      auto x = a->Evaluate(gen::LibParam<D>(tuples[i]), gen::Iota(s.pdim)), y = l->Evaluate(gen::LibParam<D>(tuples[i]), gen::Iota(s.pdim));
      c->Expect(gen::Dist(gen::Ld(x), gen::Ld(y)) <= tol, "weight-scaling", [&] { return vp::Cat("at ", gen::Str(tuples[i]), " ", gen::Str(x), " vs ", gen::Str(y)); });
    }
  }
  c->Distinct(gen::Signature(s));
}

// ---------------------------------------------------------------- C03
void Derivatives(vp::Ctx *c, vp::Rng *r) {
  auto o = EvalOptions(r);
  o.max_deg = std::min(o.max_deg, 5);
  o.max_weight_ratio = 9;
  o.max_points = D >= 3 ? 120 : 300;
  ref::Spline s = gen::Make(r, D, o);
  c->Input(gen::Describe(s));
  Lib l = Build(c, r, s);
  int limit = D == 1 ? 60 : (D == 2 ? 14 : (D == 3 ? 6 : 3));
  auto tuples = gen::Tuples(r, s, 3, limit + (1 << D));
  int high = D == 1 ? 6 : 3;
  for (auto &u : tuples) {
    for (int rep = 0; rep < (D == 1 ? 3 : 2); ++rep) {
      std::array<int, D> der{};
      std::vector<int> dv;
      int budget = D == 1 ? 5 : (D == 2 ? 4 : 3), total = 0;
      for (int d = 0; d < D; ++d) {
        int q = r->Int(0, std::max(0, std::min(budget - total, s.deg[d] + 1)));
        if (D > 1 && rep == 0) q = std::min(q, 1);
        // high orders: a rational function has derivatives of any order
        if (D == 1 && rep == 2 && high > 0 && --high >= 0) q = r->Chance(0.1) ? r->Int(9, 14) : r->Int(5, 8);
        if (D == 2 && rep == 1 && high > 0 && d == 0 && --high >= 0) q = r->Int(3, 5), budget = q + r->Int(0, 3);
        der[d] = q;
        total += q;
        dv.push_back(q);
      }
      auto got = l->EvaluateDerivative(gen::LibParam<D>(u), gen::Iota(s.pdim), der);
      auto want = s.Derivative(gen::Ld(u), dv);
      c->Count("order_" + std::to_string(total));
      int mixed = 0;
      for (int x : dv) if (x > 0) ++mixed;
      if (mixed > 1) c->Count("mixed");
      bool ok = static_cast<int>(got.size()) == s.pdim;
      for (int j = 0; ok && j < s.pdim; ++j) ok = std::fabs(got[j] - want.v[j]) <= 1e-10L * want.scale[j] + 1e-13L * s.MaxAbs();
      c->Expect(ok, s.rational ? "rational-derivative" : "derivative", [&] {
        return vp::Cat("order ", gen::Str(std::vector<double>(dv.begin(), dv.end())), " at ", gen::Str(u), " is ", gen::Str(got), ", expected ", gen::Str(want.v), " scale ", gen::Str(want.scale)); });
      if (s.pdim > 1) {
        int j = r->Int(0, s.pdim - 1);
        auto one = l->EvaluateDerivative(gen::LibParam<D>(u), {j, 0}, der);
        c->Expect(one.size() == 2 && std::fabs(one[0] - got[j]) <= 1e-10L * want.scale[j] + 1e-13L * s.MaxAbs() && std::fabs(one[1] - got[0]) <= 1e-10L * want.scale[0] + 1e-13L * s.MaxAbs(), "derivative-component-selection", [&] { return vp::Cat("component ", j); });
      }
      c->Distinct(gen::Signature(s) + gen::Str(std::vector<double>(dv.begin(), dv.end())));
    }
    auto zero = l->EvaluateDerivative(gen::LibParam<D>(u), gen::Iota(s.pdim), std::array<int, D>{});
    auto value = l->Evaluate(gen::LibParam<D>(u), gen::Iota(s.pdim));
    c->Expect(gen::Dist(gen::Ld(zero), gen::Ld(value)) <= gen::EvalTol(s), "zeroth-derivative", [&] { return vp::Cat("at ", gen::Str(u), " ", gen::Str(zero), " vs ", gen::Str(value)); });
  }
}

// ---------------------------------------------------------------- C04
template<class F> std::string Outcome(F f) {
  try {
    f();
  } catch (const std::range_error &) {
    return "range_error";
  } catch (const std::runtime_error &) {
    return "runtime_error";
  } catch (const std::exception &e) {
    return std::string("other: ") + e.what();
  }
  return "accepted";
}

void Validation(vp::Ctx *c, vp::Rng *r) {
  gen::Options o = EvalOptions(r);
  o.min_deg = 1;
  o.tiny = false;
  o.max_points = 150;
  ref::Spline s = gen::Make(r, D, o);
  auto construct = [&](const ref::Spline &x, const std::vector<baf::ControlPoint> &pts, const std::vector<double> &w, int how) {
    auto kv = gen::LibKnots<D>(x);
    auto deg = gen::LibDegrees<D>(x);
    if (x.rational) {
      if (how == 1) spl::NURBS<D> n(spl::NURBSGenerator<D>(kv, deg, pts, w));
      else spl::NURBS<D> n(kv, deg, pts, w);
    } else {
      if (how == 1) spl::BSpline<D> b(spl::BSplineGenerator<D>(kv, deg, pts));
      else spl::BSpline<D> b(kv, deg, pts);
    }
  };
  int how = r->Int(0, 1);
  c->Input(gen::Describe(s));
  c->Expect(Outcome([&] { construct(s, gen::LibPoints(s), gen::LibWeights(s), how); }) == "accepted", "valid-rejected", [&] { return std::string("a well-formed spline was rejected"); });
  int d = r->Int(0, D - 1), p = s.deg[d];
  // one defect at a time
  ref::Spline bad = s;
  auto pts = gen::LibPoints(s);
  auto w = gen::LibWeights(s);
  int kind = r->Int(0, 12);
  std::string what;
  double shift = r->Pick(std::vector<double>{1e-12, 1e-6, 0.3}) * static_cast<double>(s.Last(d) - s.First(d));
  auto &k = bad.knots[d];
  switch (kind) {
    case 0: {   // first knot has multiplicity <= p: one of the copies is moved inwards
      int i = r->Int(1, p);
      for (int q = i; q <= p; ++q) k[q] = std::min(k[q] + shift, s.Last(d));
      what = "start-not-clamped";
      if (!(k[p] != k[0])) return;
      break;
    }
    case 1: {
      int i = r->Int(1, p);
      size_t m = k.size();
      for (int q = i; q <= p; ++q) k[m - 1 - q] = std::max(k[m - 1 - q] - shift, s.First(d));
      what = "end-not-clamped";
      if (!(k[m - 1 - p] != k[m - 1])) return;
      break;
    }
    case 2: {   // too few knots for the degree
      int cut = r->Int(1, 2 * p + 1);
      ld a = k.front();
      k.assign(static_cast<size_t>(cut), a);
      what = "too-few-knots";
      break;
    }
    case 3: pts.pop_back(); if (s.rational) w.pop_back(); what = "one-point-missing"; break;
    case 4: pts.push_back(pts.back()); if (s.rational) w.push_back(1); what = "one-point-too-many"; break;
    case 5: {   // one point of another dimension
      if (pts.size() < 2) return;
      size_t i = static_cast<size_t>(r->Int(0, static_cast<int>(pts.size()) - 1));
      int q = r->Chance(0.5) && s.pdim > 1 ? s.pdim - 1 : s.pdim + 1;
      pts[i] = baf::ControlPoint(std::vector<double>(static_cast<size_t>(q), 1.0));
      what = "point-dimension";
      break;
    }
    case 6: if (!s.rational) return; w.pop_back(); what = "weight-missing"; break;
    case 7: if (!s.rational) return; w.push_back(1); what = "weight-too-many"; break;
    case 8: bad.deg[d] = r->Pick(std::vector<int>{-1, -2, -3, std::numeric_limits<int>::min(), std::numeric_limits<int>::max(), 1 << 30}); what = "impossible-degree"; break;
    case 10: {   // two neighbouring different knots exchanged
      std::vector<size_t> at;
      for (size_t i = static_cast<size_t>(p) + 1; i + p + 2 < k.size(); ++i) if (k[i] < k[i + 1]) at.push_back(i);
      if (at.empty()) return;
      size_t i = r->Pick(at);
      std::swap(k[i], k[i + 1]);
      what = "unsorted-knots";
      break;
    }
    case 11: { ld v = r->Pick(k); for (auto &x : k) x = v; what = "no-interval"; break; }
    case 12: for (auto &x : pts) x = baf::ControlPoint(std::vector<double>{}); what = "no-coordinates"; break;
    default: pts.clear(); if (r->Chance(0.5)) w.clear(); what = "no-points"; break;
  }
  c->Input(gen::Describe(bad) + " defect: " + what + vp::Cat(" (direction ", d, ", way ", how, ")"));
  std::string res = Outcome([&] { construct(bad, pts, w, how); });
  c->Count("defect_" + what);
  c->Expect(res == "runtime_error", "ill-formed-" + what, [&] { return "construction outcome: " + res; });
  // parameters outside the domain
  Lib l = Build(c, r, s);
  ref::Spline before = gen::Capture<D>(*l, s.rational);
  std::vector<double> u;
  for (int e = 0; e < D; ++e) u.push_back(static_cast<double>(s.First(e)) + r->Unit() * static_cast<double>(s.Last(e) - s.First(e)));
  double a = static_cast<double>(s.First(d)), b = static_cast<double>(s.Last(d));
  std::vector<double> outside{std::nextafter(a, -1e300), std::nextafter(b, 1e300), a - 1e-9, b + 1e-9, a - 1.0, b + 1.0, -1e300, 1e300, HUGE_VAL, -HUGE_VAL, NAN};
  for (double x : outside) {
    u[d] = x;
    std::string e = Outcome([&] { l->Evaluate(gen::LibParam<D>(u), {0}); });
    c->Expect(e == "range_error", "evaluate-outside-domain", [&] { return vp::Cat("Evaluate", gen::Str(u), ": ", e); });
    std::array<int, D> der{};
    der[r->Int(0, D - 1)] = r->Int(0, 2);
    e = Outcome([&] { l->EvaluateDerivative(gen::LibParam<D>(u), {0}, der); });
    c->Expect(e == "range_error", "derivative-outside-domain", [&] { return vp::Cat("EvaluateDerivative", gen::Str(u), ": ", e); });
    e = Outcome([&] { l->InsertKnot(ParamCoord{x}, d); });
    c->Expect(e == "range_error", "insert-outside-domain", [&] { return vp::Cat("InsertKnot(", x, ",", d, "): ", e); });
    e = Outcome([&] {
      if (auto n = std::dynamic_pointer_cast<spl::NURBS<D>>(l)) n->SudivideSpline(ParamCoord{x}, d);
      else std::dynamic_pointer_cast<spl::BSpline<D>>(l)->SudivideSpline(ParamCoord{x}, d);
    });
    c->Expect(e == "range_error", "subdivide-outside-domain", [&] { return vp::Cat("SudivideSpline(", x, ",", d, "): ", e); });
    c->Count("outside_parameters");
  }
  {
    // knots beyond multiplicity p + 1
    auto uq = ref::Unique(s.knots[d]);
    ld x = uq[static_cast<size_t>(r->Int(0, static_cast<int>(uq.size()) - 1))];
    size_t times = static_cast<size_t>(p + 2 - ref::Multiplicity(s.knots[d], x) + r->Int(0, 2));
    std::string e = Outcome([&] { l->InsertKnot(ParamCoord{static_cast<double>(x)}, d, times); });
    c->Expect(e == "runtime_error", "insert-too-often", [&] { return vp::Cat("InsertKnot(", static_cast<double>(x), ",", d, ",", times, "): ", e); });
  }
  c->Expect(gen::SameState(before, gen::Capture<D>(*l, s.rational)), "rejection-changes-spline", [&] { return std::string("state changed by rejected calls"); });
  // ... and everything inside is accepted, ends included
  for (double x : {a, b, std::nextafter(a, 1e300), std::nextafter(b, -1e300)}) {
    u[d] = x;
    std::string e = Outcome([&] { l->Evaluate(gen::LibParam<D>(u), {0}); l->EvaluateDerivative(gen::LibParam<D>(u), {0}, std::array<int, D>{}); });
    c->Expect(e == "accepted", "evaluate-inside-domain", [&] { return vp::Cat("Evaluate", gen::Str(u), ": ", e); });
  }
  c->Distinct(gen::Signature(s) + what);
}

// ---------------------------------------------------------------- C10
// some modification of l (any kind), returns its name
template<class S> std::string Modify(vp::Rng *r, S *l, const ref::Spline &s) {
  int d = r->Int(0, D - 1);
  auto u = ref::Unique(s.knots[d]);
  int i = r->Int(0, static_cast<int>(u.size()) - 2);
  double x = static_cast<double>((u[i] + u[i + 1]) / 2);
  switch (r->Int(0, 4)) {
    case 0: l->InsertKnot(ParamCoord{x}, d); return "insert";
    case 1: l->ElevateDegreeForDimension(d); return "elevate";
    case 2: l->SudivideSpline(ParamCoord{x}, d); return "subdivide";
    case 3: l->RefineKnots({ParamCoord{x}}, d); return "refine";
    default:
      if (u.size() > 2) l->RemoveKnot(ParamCoord{static_cast<double>(u[1])}, d, 1e6); else l->InsertKnot(ParamCoord{x}, d);
      return "remove";
  }
}

template<class S> void Values(vp::Ctx *c, vp::Rng *r, const ref::Spline &s, std::shared_ptr<S> a) {
  std::string log;
  struct Obj { std::shared_ptr<S> l; ref::Spline state; };
  std::vector<Obj> objs{{a, s}};
  ref::Spline other = s;
  for (auto &q : other.cp) for (auto &x : q) x = static_cast<double>(x * 0.5L - 1);
  {
    std::shared_ptr<S> b;
    if constexpr (std::is_same<S, spl::NURBS<D>>::value) b = gen::MakeN<D>(other); else b = gen::MakeB<D>(other);
    objs.push_back({b, other});
  }
  int steps = r->Int(2, 6);
  std::string ops;
  for (int step = 0; step < steps; ++step) {
    size_t i = static_cast<size_t>(r->Int(0, static_cast<int>(objs.size()) - 1));
    int op = r->Int(0, 4);
    if (op == 0) {
      objs.push_back({std::make_shared<S>(*objs[i].l), objs[i].state});
      log += vp::Cat(" copy#", i);
      ops += "c";
    } else if (op == 1) {
      size_t j = static_cast<size_t>(r->Int(0, static_cast<int>(objs.size()) - 1));
      *objs[j].l = *objs[i].l;
      objs[j].state = objs[i].state;
      log += vp::Cat(" assign#", j, "=#", i);
      ops += "a";
    } else if (op == 2) {
      // subdivision: the pieces are objects of their own
      int d = r->Int(0, D - 1);
      auto u = ref::Unique(objs[i].state.knots[d]);
      int q = r->Int(0, static_cast<int>(u.size()) - 2);
      bool full = false;
      for (size_t t = 1; t + 1 < u.size(); ++t) if (ref::Multiplicity(objs[i].state.knots[d], u[t]) > objs[i].state.deg[d]) full = true;
      if (full) continue;
      auto pieces = objs[i].l->SudivideSpline(ParamCoord{static_cast<double>((u[q] + u[q + 1]) / 2)}, d);
      objs[i].state = gen::Capture<D>(*objs[i].l, s.rational);
      // the original now has a knot of full multiplicity; it stays but is only copied/assigned from here on
      objs.push_back({pieces[0], gen::Capture<D>(*pieces[0], s.rational)});
      objs.push_back({pieces[1], gen::Capture<D>(*pieces[1], s.rational)});
      log += vp::Cat(" split#", i);
      ops += "s";
    } else {
      bool full = false;
      for (int d = 0; d < D; ++d) {
        auto u = ref::Unique(objs[i].state.knots[d]);
        for (size_t t = 1; t + 1 < u.size(); ++t) if (ref::Multiplicity(objs[i].state.knots[d], u[t]) > objs[i].state.deg[d]) full = true;
      }
      if (full || objs[i].state.Count() > 150) continue;
      std::string what = Modify(r, objs[i].l.get(), objs[i].state);
      ref::Spline now = gen::Capture<D>(*objs[i].l, s.rational);
      objs[i].state = now;
      log += " " + what + vp::Cat("#", i);
      ops += what[0];
      c->Count("modify_" + what);
    }
    c->Input(gen::Describe(s) + " |" + log);
    for (size_t j = 0; j < objs.size(); ++j) {
      ref::Spline now = gen::Capture<D>(*objs[j].l, s.rational);
      if (!c->Expect(gen::SameState(now, objs[j].state), "object-changed-by-operation-on-another", [&] { return vp::Cat("object #", j, " changed after:", log); })) return;
      // evaluation uses the object's own state, too
      auto t = gen::Tuples(r, objs[j].state, 1, 3);
      if (gen::CompareEvaluation<D>(c, *objs[j].l, objs[j].state, t, gen::EvalTol(objs[j].state), "object-evaluation-changed")) return;
    }
  }
  // destroying everything else leaves the survivor intact
  size_t keep = static_cast<size_t>(r->Int(0, static_cast<int>(objs.size()) - 1));
  Obj last = objs[keep];
  objs.clear();
  a.reset();
  c->Expect(gen::SameState(gen::Capture<D>(*last.l, s.rational), last.state), "survivor-changed", [&] { return log; });
  c->Distinct(gen::Signature(s) + ops);
}

void ValueSemantics(vp::Ctx *c, vp::Rng *r) {
  gen::Options o;
  o.max_deg = D == 1 ? 4 : 2;
  o.max_interior = 2;
  o.max_points = 60;
  ref::Spline s = gen::Make(r, D, o);
  c->Input(gen::Describe(s));
  // construction copies its arguments
  {
    auto kv = gen::LibKnots<D>(s);
    auto pts = gen::LibPoints(s);
    auto w = gen::LibWeights(s);
    Lib l;
    if (s.rational) l = std::make_shared<spl::NURBS<D>>(kv, gen::LibDegrees<D>(s), pts, w);
    else l = std::make_shared<spl::BSpline<D>>(kv, gen::LibDegrees<D>(s), pts);
    int d = r->Int(0, D - 1);
    double x = static_cast<double>((s.First(d) + s.Last(d)) / 2);
    kv[d]->InsertKnot(ParamCoord{x});
    if (kv[d]->GetNumberOfKnots() > 2) (*kv[d])[1] = ParamCoord{x};
    pts[0].SetValue(0, 1e9);
    w[0] = 77;
    c->Expect(gen::SameState(gen::Capture<D>(*l, s.rational), s), "construction-aliases-arguments", [&] { return std::string("spline changed with the arguments of its constructor"); });
    auto t = gen::Tuples(r, s, 1, 4);
    gen::CompareEvaluation<D>(c, *l, s, t, gen::EvalTol(s), "construction-aliases-arguments-evaluation");
    size_t nk = kv[d]->GetNumberOfKnots();
    bool full = false;
    if (ref::Multiplicity(s.knots[d], x) >= s.deg[d]) full = true;
    if (!full) l->InsertKnot(ParamCoord{x}, d);
    c->Expect(kv[d]->GetNumberOfKnots() == nk, "operation-changes-constructor-argument", [&] { return std::string("knot vector argument changed"); });
    // the same knot vector objects serve several splines
    auto kv2 = gen::LibKnots<D>(s);
    if (s.rational) {
      spl::NURBS<D> p1(kv2, gen::LibDegrees<D>(s), gen::LibPoints(s), gen::LibWeights(s)), p2(kv2, gen::LibDegrees<D>(s), gen::LibPoints(s), gen::LibWeights(s));
      if (!full) p1.InsertKnot(ParamCoord{x}, d);
      c->Expect(gen::SameState(gen::Capture<D>(p2, true), s), "splines-share-knot-vector", [&] { return std::string(); });
    } else {
      spl::BSpline<D> p1(kv2, gen::LibDegrees<D>(s), gen::LibPoints(s)), p2(kv2, gen::LibDegrees<D>(s), gen::LibPoints(s));
      if (!full) p1.InsertKnot(ParamCoord{x}, d);
      c->Expect(gen::SameState(gen::Capture<D>(p2, false), s), "splines-share-knot-vector", [&] { return std::string(); });
    }
    // copied spline of a generator is independent of the generator
    if (s.rational) {
      spl::NURBSGenerator<D> g(gen::LibKnots<D>(s), gen::LibDegrees<D>(s), gen::LibPoints(s), gen::LibWeights(s));
      spl::NURBS<D> first(g);
      spl::NURBS<D> copy(first);
      if (!full) first.InsertKnot(ParamCoord{x}, d);
      c->Expect(gen::SameState(gen::Capture<D>(copy, true), s), "copy-of-generated-spline", [&] { return std::string("changed with its original"); });
    } else {
      spl::BSplineGenerator<D> g(gen::LibKnots<D>(s), gen::LibDegrees<D>(s), gen::LibPoints(s));
      spl::BSpline<D> first(g);
      spl::BSpline<D> copy(first);
      if (!full) first.InsertKnot(ParamCoord{x}, d);
      c->Expect(gen::SameState(gen::Capture<D>(copy, false), s), "copy-of-generated-spline", [&] { return std::string("changed with its original"); });
    }
  }
  if (s.rational) Values(c, r, s, gen::MakeN<D>(s));
  else Values(c, r, s, gen::MakeB<D>(s));
}

// ---------------------------------------------------------------- C11
template<class S> std::shared_ptr<S> Make(const ref::Spline &s) {
  if constexpr (std::is_same<S, spl::NURBS<D>>::value) return gen::MakeN<D>(s); else return gen::MakeB<D>(s);
}

template<class S> void Equal(vp::Ctx *c, vp::Rng *r, const ref::Spline &s) {
  auto a = Make<S>(s);
  S copy(*a);
  c->Expect(a->AreEqual(*a) && a->AreEqual(copy) && copy.AreEqual(*a), "equality-not-reflexive", [&] { return std::string("a spline is not equal to its copy"); });
  double tol = r->Pick(std::vector<double>{1e-12, 1e-6, 1e-2});
  // one entry perturbed by clearly more / clearly less than the tolerance
  for (double factor : {0.5, 2.0}) {
    ref::Spline t = s;
    int what = r->Int(0, s.rational ? 2 : 1);
    std::string name;
    double eps = tol * factor * (r->Chance(0.5) ? 1 : -1);
    ld *entry = nullptr;
    if (what == 0) { auto &q = r->Int(0, 1) ? t.cp.front() : t.cp[static_cast<size_t>(r->Int(0, s.Count() - 1))]; entry = &q[static_cast<size_t>(r->Int(0, s.pdim - 1))]; name = "control point"; }
    else if (what == 2) { entry = &t.w[static_cast<size_t>(r->Int(0, s.Count() - 1))]; name = "weight"; }
    else {
      int d = r->Int(0, D - 1);
      name = "knot";
      // move an interior knot (all copies) or the end knots (all copies)
      auto u = ref::Unique(t.knots[d]);
      ld x = u[static_cast<size_t>(r->Int(0, static_cast<int>(u.size()) - 1))];
      for (ld y : u) if (y != x && std::fabs(y - x) < 4 * tol * factor) return;
      for (auto &k : t.knots[d]) if (k == x) k = static_cast<double>(k + eps);
    }
    if (entry != nullptr) {
      if (std::fabs(*entry) > 1e3) continue;
      *entry = static_cast<double>(*entry + eps);
      if (name == "weight" && *entry <= 0) continue;
    }
    // rounding of the perturbed value itself
    auto b = Make<S>(t);
    bool want = factor < 1;
    if (std::fabs(eps) < 1e-11) { if (s.MaxAbs() > 100) continue; for (int d = 0; d < D; ++d) if (std::fabs(s.Last(d)) > 100 || std::fabs(s.First(d)) > 100) return; }
    c->Input(gen::Describe(s) + vp::Cat(" | ", name, " moved by ", eps, ", tolerance ", tol));
    c->Count(want ? "equal_within_tolerance" : "different");
    c->Expect(a->AreEqual(*b, tol) == want, want ? "equality-misses-tolerance" : "equality-misses-difference", [&] { return vp::Cat(name, " moved by ", eps, ", tolerance ", tol, ": AreEqual says ", !want); });
    c->Expect(b->AreEqual(*a, tol) == want, "equality-not-symmetric", [&] { return vp::Cat(name, " moved by ", eps, ", tolerance ", tol); });
    // default tolerance is strict
    if (std::fabs(eps) > 1e-11) c->Expect(!a->AreEqual(*b), "equality-default-tolerance", [&] { return vp::Cat(name, " moved by ", eps); });
    c->Distinct(gen::Signature(s) + name + vp::Cat(want, tol));
  }
  // different structure is never equal
  {
    S b(*a);
    int d = r->Int(0, D - 1);
    auto u = ref::Unique(s.knots[d]);
    double x = static_cast<double>(u[0] + (u[1] - u[0]) * 0.4L);
    b.InsertKnot(ParamCoord{x}, d);
    c->Input(gen::Describe(s) + vp::Cat(" | knot ", x, " inserted in direction ", d));
    c->Expect(!a->AreEqual(b, 1e-3) && !b.AreEqual(*a, 1e-3), "equality-ignores-structure", [&] { return vp::Cat("equal after inserting ", x); });
    c->Expect(a->AreGeometricallyEqual(b, 1e-9 * (1 + static_cast<double>(s.MaxAbs()))) && b.AreGeometricallyEqual(*a, 1e-9 * (1 + static_cast<double>(s.MaxAbs()))),
              "geometric-equality-after-insertion", [&] { return vp::Cat("not geometrically equal after inserting ", x); });
    c->Count("structure");
  }
  if (D > 1 && s.n[0] != s.n[1] && s.deg[0] == s.deg[1] && s.knots[0] != s.knots[1]) {
    // same number of points, directions exchanged
    ref::Spline t = s;
    std::swap(t.knots[0], t.knots[1]);
    std::swap(t.n[0], t.n[1]);
    auto b = Make<S>(t);
    c->Expect(!a->AreEqual(*b, 1e-9), "equality-ignores-structure", [&] { return std::string("equal with exchanged directions"); });
  }
}

void Equality(vp::Ctx *c, vp::Rng *r) {
  gen::Options o;
  o.max_deg = D == 1 ? 5 : (D <= 3 ? 2 : 1);
  if (D == 2 && r->Chance(0.3)) o.max_deg = 3;
  if (D >= 3) o.max_points = 60;
  if (D == 4) o.min_deg = 1;
  o.max_interior = D == 4 ? 1 : 3;
  o.max_pdim = D >= 3 ? 2 : 4;
  o.max_points = D >= 3 ? 100 : 200;
  o.max_weight_ratio = 9;
  ref::Spline s = gen::Make(r, D, o);
  c->Input(gen::Describe(s));
  if (s.rational) Equal<spl::NURBS<D>>(c, r, s);
  else Equal<spl::BSpline<D>>(c, r, s);
  // geometric equality (same parameter domain)
  c->Input(gen::Describe(s));
  Lib a = gen::MakeLib<D>(s);
  double tol = 1e-9 * (1 + static_cast<double>(s.MaxAbs()));
  c->Expect(a->AreGeometricallyEqual(*a, tol), "geometric-equality-reflexive", [&] { return std::string("not geometrically equal to itself"); });
  int d = r->Int(0, D - 1);
  {
    ref::Spline e = ref::Fit(s, d, ref::Elevated(s.knots[d]), s.deg[d] + 1);
    Lib b = gen::MakeLib<D>(e);
    c->Expect(a->AreGeometricallyEqual(*b, 1e-7 * (1 + static_cast<double>(s.MaxAbs()))) && b->AreGeometricallyEqual(*a, 1e-7 * (1 + static_cast<double>(s.MaxAbs()))), "geometric-equality-elevated", [&] { return vp::Cat("not geometrically equal to its elevated form in direction ", d); });
  }
  if (!s.rational) {
    ref::Spline n = s;
    n.rational = true;
    Lib b = gen::MakeLib<D>(n);
    c->Expect(a->AreGeometricallyEqual(*b, tol) && b->AreGeometricallyEqual(*a, tol), "geometric-equality-rational-form", [&] { return std::string("B-spline and unit-weight NURBS differ"); });
  }
  // moved geometry: translation of everything, and a change confined to one end of the domain
  for (int k = D >= 3 ? r->Int(0, 2) : 0, k1 = D >= 3 ? k + 1 : 3; k < k1; ++k) {
    ref::Spline t = s;
    double delta = 1e-3 * (1 + static_cast<double>(s.MaxAbs())), below = r->Pick(std::vector<double>{0.5, 0.997});
    int comp = r->Int(0, s.pdim - 1);
    std::string what;
    if (k == 0) { for (auto &q : t.cp) q[comp] = static_cast<double>(q[comp] + delta); what = "all points moved"; }
    else {
      // a corner control point: the corner itself is interpolated
      int flat = 0, stride = 1;
      int corner = k == 1 ? 0 : (1 << D) - 1;
      for (int e = 0; e < D; ++e) { flat += ((corner >> e) & 1 ? s.n[e] - 1 : 0) * stride; stride *= s.n[e]; }
      t.cp[flat][comp] = static_cast<double>(t.cp[flat][comp] + delta);
      what = vp::Cat("corner point ", flat, " moved");
    }
    Lib b = gen::MakeLib<D>(t);
    c->Input(gen::Describe(s) + " | " + what + vp::Cat(" by ", delta, " in component ", comp));
    c->Expect(!a->AreGeometricallyEqual(*b, delta * below) && !b->AreGeometricallyEqual(*a, delta * below), "geometric-equality-misses-difference", [&] { return what + vp::Cat(" by ", delta); });
    c->Expect(a->AreGeometricallyEqual(*b, delta * 1.003) && b->AreGeometricallyEqual(*a, delta * 1.003), "geometric-equality-misses-tolerance", [&] { return what + vp::Cat(" by ", delta, ", tolerance ", 1.003 * delta); });
    c->Count("geometric_pairs");
  }
  // missing coordinates count as zero
  if (r->Chance(0.3)) {
    ref::Spline t = s;
    t.pdim += 1;
    for (auto &q : t.cp) q.push_back(0.0L);
    Lib b = gen::MakeLib<D>(t);
    c->Input(gen::Describe(s) + " | embedded in one more dimension");
    c->Expect(a->AreGeometricallyEqual(*b, tol) && b->AreGeometricallyEqual(*a, tol), "geometric-equality-embedding", [&] { return vp::Cat("point dimensions ", s.pdim, " and ", t.pdim); });
    for (auto &q : t.cp) q.back() = 1.0L;
    b = gen::MakeLib<D>(t);
    c->Expect(!a->AreGeometricallyEqual(*b, 0.5) && !b->AreGeometricallyEqual(*a, 0.5), "geometric-equality-ignores-dimension", [&] { return vp::Cat("point dimensions ", s.pdim, " and ", t.pdim, ", offset 1"); });
    c->Count("embedded");
  }
}
}  // namespace

#define CONCAT2(a, b) a##b
#define CONCAT(a, b) CONCAT2(a, b)
void CONCAT(Run, VP_DIM)(vp::Ctx *c, vp::Rng *r) {
  c->Count("dim" + std::to_string(D));
  if (c->prop == "C01") {
    if constexpr (D == 1) Basis(c, r);
  } else if (c->prop == "C02") Evaluation(c, r);
  else if (c->prop == "C03") Derivatives(c, r);
  else if (c->prop == "C04") Validation(c, r);
  else if (c->prop == "C10") ValueSemantics(c, r);
  else if (c->prop == "C11") Equality(c, r);
  else { fprintf(stderr, "unknown property\n"); exit(3); }
}
#endif
