// Monitors for projection (C20), generated surfaces (C21), square and random generators (C22), multi-index arithmetic
// (C23), knot vectors and element lists (C24), vector, control point and string helpers (C25).
#include <cstdio>
#include <sstream>

#include "b_spline.h"
#include "element_generator.h"
#include "multi_index_handler.h"
#include "nurbs.h"
#include "projection.h"
#include "random_b_spline_generator.h"
#include "random_nurbs_generator.h"
#include "square_generator.h"
#include "string_operations.h"
#include "surface_generator.h"
#include "vector_utils.h"

#include "gen.h"
#include "ref.h"
#include "vp.h"

namespace {
using ref::ld;
using Vec = std::vector<ld>;

ld Dot(const Vec &a, const Vec &b) { ld s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
ld Norm(const Vec &a) { return std::sqrt(Dot(a, a)); }
Vec Sub(const Vec &a, const Vec &b) { Vec c(a.size()); for (size_t i = 0; i < a.size(); ++i) c[i] = a[i] - b[i]; return c; }
Vec Axpy(const Vec &a, ld f, const Vec &b) { Vec c(a.size()); for (size_t i = 0; i < a.size(); ++i) c[i] = a[i] + f * b[i]; return c; }
Vec Cross(const Vec &a, const Vec &b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
Vec RandVec(vp::Rng *r, int n, double m) { Vec v(n); for (auto &x : v) x = r->Real(-m, m); return v; }
std::vector<double> D(const Vec &v) { return std::vector<double>(v.begin(), v.end()); }
ld MaxAbs(const Vec &v) { ld m = 0; for (ld x : v) m = std::max(m, std::fabs(x)); return m; }

// ---------------------------------------------------------------------------------------------------------------- C20
// Splines whose tangents stay in a narrow cone around constant directions: S'(u) = B_d + e, |e| <= cone |B_d|.
ref::Spline ConeSpline(vp::Rng *r, int dim, double cone, bool smooth, std::vector<Vec> *tangents, bool orthogonal) {
  gen::Options o;
  o.max_deg = dim == 1 ? 4 : 3;
  o.max_interior = dim == 1 ? 4 : 2;
  ref::Spline s;
  s.dim = dim;
  s.pdim = dim == 1 ? r->Int(1, 4) : r->Int(2, 4);
  s.rational = r->Chance(0.5);
  for (int d = 0; d < dim; ++d) {
    int p = r->Int(1, o.max_deg);
    gen::Options q = o;
    if (smooth) { q.max_mult = p - 1; if (p == 1) q.max_interior = 0; }
    s.deg.push_back(p);
    s.knots.push_back(gen::Knots(r, q, p));
    s.n.push_back(static_cast<int>(s.knots[d].size()) - p - 1);
  }
  Vec a = RandVec(r, s.pdim, 5);
  std::vector<Vec> b;
  for (int d = 0; d < dim; ++d) {
    while (true) {
      Vec v = RandVec(r, s.pdim, 1);
      ld n = Norm(v);
      if (n < 0.2) continue;
      if (d == 1) {
        if (orthogonal) v = Axpy(v, -Dot(v, b[0]) / Dot(b[0], b[0]), b[0]);
        n = Norm(v);
        if (n < 0.2 || std::fabs(Dot(v, b[0])) > 0.6L * n * Norm(b[0])) continue;
      }
      ld len = r->Real(0.5, 4) / (s.Last(d) - s.First(d)) * r->Pick(std::vector<double>{1, 1, 3});
      for (auto &x : v) x *= len / n;
      b.push_back(v);
      break;
    }
  }
  // perturbation of one curve per direction, summed up (keeps the cone property per direction)
  std::vector<std::vector<Vec>> line(static_cast<size_t>(dim));
  for (int d = 0; d < dim; ++d) {
    int p = s.deg[d];
    Vec q(static_cast<size_t>(s.pdim), 0.0L);
    q = Axpy(q, s.First(d), b[d]);
    line[d].push_back(q);
    for (int i = 0; i + 1 < s.n[d]; ++i) {
      Vec e = b[d];
      if (cone > 0) { Vec v = RandVec(r, s.pdim, 1); ld n = Norm(v); if (n > 0) e = Axpy(e, cone * r->Unit() * Norm(b[d]) / n, v); }
      q = Axpy(q, (s.knots[d][i + p + 1] - s.knots[d][i + 1]) / p, e);
      line[d].push_back(q);
    }
  }
  int total = s.Count();
  ld w = r->Chance(0.5) ? 1 : r->Real(0.3, 3);
  for (int i = 0; i < total; ++i) {
    Vec q = a;
    int k = i;
    for (int d = 0; d < dim; ++d) { q = Axpy(q, 1, line[d][k % s.n[d]]); k /= s.n[d]; }
    for (auto &x : q) x = static_cast<double>(x);
    s.cp.push_back(q);
    s.w.push_back(s.rational ? static_cast<double>(w) : 1.0);
  }
  *tangents = b;
  return s;
}

// A surface that is its own mirror image under u <-> v (or under u <-> first + last - v): iterations started on the axis of
// symmetry move by exactly opposite (equal) steps in the two directions.
ref::Spline MirrorSpline(vp::Rng *r, bool opposite, double cone, std::vector<Vec> *tangents) {
  gen::Options q;
  ref::Spline s;
  s.dim = 2;
  s.pdim = r->Int(2, 3);
  s.rational = r->Chance(0.5);
  int p = r->Int(1, 3);
  q.max_mult = p - 1;
  q.max_interior = p == 1 ? 0 : 2;
  auto k = gen::Knots(r, q, p), m = k;
  if (opposite) { for (auto &x : m) x = static_cast<double>(k.front() + k.back() - x); std::reverse(m.begin(), m.end()); for (int i = 0; i <= p; ++i) { m[i] = k[i]; m[m.size() - 1 - i] = k.back(); } }
  s.deg = {p, p};
  s.knots = {k, m};
  int n = static_cast<int>(k.size()) - p - 1;
  s.n = {n, n};
  ld slope = r->Real(0.5, 4) / (k.back() - k.front());
  std::vector<ld> f{0};
  for (int i = 0; i + 1 < n; ++i) f.push_back(f.back() + (k[i + p + 1] - k[i + 1]) / p * slope * static_cast<ld>(r->Real(1 - cone, 1 + cone)));
  Vec a = RandVec(r, s.pdim, 3);
  for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) {
    Vec x = a;
    x[0] = static_cast<double>(x[0] + f[i]);
    x[1] = static_cast<double>(x[1] + (opposite ? f[n - 1] - f[n - 1 - j] : f[j]));
    for (auto &e : x) e = static_cast<double>(e);
    s.cp.push_back(x);
    s.w.push_back(1.0L);
  }
  Vec b0(static_cast<size_t>(s.pdim), 0.0L), b1 = b0;
  b0[0] = b1[1] = slope;
  *tangents = {b0, b1};
  return s;
}

template<int DIM> std::array<ParamCoord, DIM> Project(const std::vector<double> &q, const std::shared_ptr<spl::Spline<DIM>> &l, double tol, std::array<int, 2> sc) {
  if constexpr (DIM == 1) {
    (void) sc;
    if (tol == 0) return spl::Projection<1>::ProjectionOnCurve(q, l);
    return spl::Projection<1>::ProjectionOnCurve(q, l, tol);
  } else {
    if (tol == 0) return spl::Projection<2>::ProjectionOnSurface(q, l, sc);
    return spl::Projection<2>::ProjectionOnSurface(q, l, sc, tol);
  }
}

// Winding curves of many elements (arcs, spirals, waves): other branches of the curve are near in space or opposite in
// direction, so the search has to start from the right element, and points at a good part of the radius of curvature need
// many iterations.
void WindingProjection(vp::Ctx *c, vp::Rng *r) {
  ref::Spline s;
  s.dim = 1;
  s.pdim = r->Int(2, 3);
  s.rational = r->Chance(0.4);
  int p = r->Int(2, 4), elements = r->Int(8, 20), n = elements + p;
  double a = r->Chance(0.4) ? 0 : r->Real(-5, 5), len = r->Pick(std::vector<double>{1, static_cast<double>(elements), 10, 0.5});
  s.deg = {p};
  s.n = {n};
  std::vector<ld> k;
  for (int i = 0; i < n + p + 1; ++i) k.push_back(a + len * std::min(std::max(i - p, 0), elements) / elements);
  for (int i = 0; i <= p; ++i) k[static_cast<size_t>(n + i)] = k[static_cast<size_t>(n)];
  s.knots = {k};
  int shape = r->Int(0, 2);
  double angle = r->Real(2.5, 5.2), grow = r->Real(0, 0.6), amp = r->Real(0.3, 0.8), turns = r->Real(1, 2);
  for (int i = 0; i < n; ++i) {
    ld g = 0;   // Greville abscissa on [0,1]
    for (int j = 1; j <= p; ++j) g += (k[static_cast<size_t>(i + j)] - k[0]) / p / (k.back() - k[0]);
    Vec q(static_cast<size_t>(s.pdim), 0.0L);
    if (shape == 0) { q[0] = std::cos(angle * g); q[1] = std::sin(angle * g); }
    else if (shape == 1) { q[0] = (1 + grow * g) * std::cos(angle * g); q[1] = (1 + grow * g) * std::sin(angle * g); }
    else { q[0] = 6 * g; q[1] = amp * std::sin(2 * 3.14159265L * turns * g); }
    if (s.pdim == 3) q[2] = 0.3L * g;
    for (auto &x : q) x = static_cast<double>(x);
    s.cp.push_back(q);
    s.w.push_back(s.rational ? 1.5L : 1.0L);
  }
  auto l = gen::MakeLib<1>(s);
  double u0 = static_cast<double>(s.First(0) + (s.Last(0) - s.First(0)) * static_cast<ld>(r->Real(0.01, 0.99)));
  Vec foot = s.Eval({u0}), t = s.Derivative({u0}, {1}).v, dd = s.Derivative({u0}, {2}).v;
  Vec nrm = Axpy(dd, -Dot(dd, t) / Dot(t, t), t);
  ld curvature = Norm(nrm) / Dot(t, t);
  if (r->Chance(0.3) || curvature < 1e-3) { Vec v = RandVec(r, s.pdim, 1); nrm = Axpy(v, -Dot(v, t) / Dot(t, t), t); }
  if (Norm(nrm) < 1e-6) return;
  ld rate = r->Chance(0.2) ? 0 : static_cast<ld>(r->Real(0, 0.6)), off = std::min(rate / std::max(curvature, 0.5L), 0.5L) * (r->Chance(0.4) ? -1 : 1);
  Vec q = Axpy(foot, off / Norm(nrm), nrm);
  for (auto &x : q) x = static_cast<double>(x);
  // the foot point is the only one near
  for (int i = 0; i <= 400; ++i) {
    ld u = s.First(0) + (s.Last(0) - s.First(0)) * i / 400;
    if (std::fabs(u - u0) > (s.Last(0) - s.First(0)) / elements && Norm(Sub(s.Eval({u}), q)) < 1.5L * std::fabs(off) + 0.02L) return;
  }
  double tol = r->Pick(std::vector<double>{0, 1e-4, 1e-6, 1e-8}), eff = tol != 0 ? tol : 1e-4;
  if (eff > 0.02 * len / elements) tol = eff = 1e-6;
  c->Input(vp::Cat("projection of ", gen::Str(q), " at ", static_cast<double>(off), " from parameter ", u0, ", tolerance ", eff, ", on ", gen::Describe(s)));
  c->Distinct(vp::Cat("winding", shape, elements, p));
  auto u = Project<1>(D(q), l, tol, {10, 10})[0].get();
  c->Count("winding_curves");
  ld allowed = 4 * eff + 1e-9L * len;
  c->Expect(std::fabs(u - u0) <= allowed, "projection-foot-point", [&] { return vp::Cat("projected to ", u, ", foot point at ", u0, ", allowed ", static_cast<double>(allowed)); });
  c->Expect(gen::SameState(gen::Capture<1>(*l, s.rational), s), "projection-modifies-spline", [] { return std::string(); });
}

template<int DIM> void ProjectionCase(vp::Ctx *c, vp::Rng *r) {
  int kind = r->Int(0, 9);   // 0-3 affine, 4-8 curved, 9 arbitrary
  std::array<int, 2> sc = {r->Int(1, 12), r->Int(1, 12)};
  double tol = r->Chance(0.4) ? 0 : r->Pick(std::vector<double>{1e-3, 1e-5, 1e-7, 1e-9});
  double eff = tol != 0 ? tol : (DIM == 1 ? 1e-4 : 1e-5);
  if (kind == 9) {
    gen::Options o;
    o.max_deg = DIM == 1 ? 4 : 2;
    o.max_interior = DIM == 1 ? 4 : 1;
    o.min_pdim = DIM == 1 ? 1 : 2;
    ref::Spline s = gen::Make(r, DIM, o);
    for (auto &q : s.cp) for (auto &x : q) x = r->Real(-10, 10);
    auto l = gen::MakeLib<DIM>(s);
    Vec q = RandVec(r, s.pdim, 15);
    c->Input(vp::Cat("projection of ", gen::Str(q), " on ", gen::Describe(s)));
    c->Distinct(vp::Cat("arbitrary", gen::Signature(s)));
    auto u = Project<DIM>(D(q), l, tol, sc);
    c->Count("arbitrary");
    for (int d = 0; d < DIM; ++d) {
      c->Expect(u[d].get() >= s.First(d) && u[d].get() <= s.Last(d), "projection-outside-domain", [&] { return vp::Cat("direction ", d, ": ", u[d].get()); });
    }
    c->Expect(gen::SameState(gen::Capture<DIM>(*l, s.rational), s), "projection-modifies-spline", [] { return std::string(); });
    return;
  }
  bool affine = kind <= 3;
  bool outside = r->Chance(0.35);
  std::vector<Vec> b;
  bool mirror = DIM == 2 && !affine && r->Chance(0.3), opposite = r->Chance(0.6);
  ref::Spline s = mirror ? MirrorSpline(r, opposite, 0.15, &b) : ConeSpline(r, DIM, affine ? 0 : 0.15, !affine, &b, outside);
  if (mirror) { sc[1] = sc[0]; c->Count("mirror_symmetric"); }
  auto l = gen::MakeLib<DIM>(s);
  // the parameters of the foot point and of the extrapolated target
  Vec t(DIM), inside(DIM);
  bool is_out = false;
  for (int d = 0; d < DIM; ++d) {
    ld range = s.Last(d) - s.First(d);
    int where = outside ? r->Int(0, 5) : 5;
    if (where == 0) { inside[d] = s.First(d); t[d] = inside[d] - range * r->Real(0.01, 3); is_out = true; }
    else if (where == 1) { inside[d] = s.Last(d); t[d] = inside[d] + range * r->Real(0.01, 3); is_out = true; }
    else if (where == 2) t[d] = inside[d] = s.First(d);
    else if (where == 3) t[d] = inside[d] = s.Last(d);
    else if (affine && r->Chance(0.2)) t[d] = inside[d] = r->Pick(s.knots[d]);
    else t[d] = inside[d] = s.First(d) + range * r->Real(0.02, 0.98);
  }
  if (is_out && !affine && DIM == 2) { t = inside; is_out = false; }
  if (mirror && r->Chance(0.8)) t[DIM - 1] = inside[DIM - 1] = opposite ? std::min(std::max(s.First(0), static_cast<ld>(static_cast<double>(s.First(0) + s.Last(0) - inside[0]))), s.Last(0)) : inside[0];
  Vec foot = s.Eval(inside);
  std::vector<Vec> tang;
  for (int d = 0; d < DIM; ++d) {
    std::vector<int> e(DIM, 0);
    e[d] = 1;
    tang.push_back(s.Derivative(inside, e).v);
  }
  Vec q = foot;
  for (int d = 0; d < DIM; ++d) q = Axpy(q, t[d] - inside[d], affine ? b[d] : tang[d]);
  // normal offset, small against the radius of curvature (affine: arbitrary)
  Vec n = RandVec(r, s.pdim, 1);
  for (int it = 0; it < 3; ++it) {
    for (int d = 0; d < DIM; ++d) n = Axpy(n, -Dot(n, tang[d]) / Dot(tang[d], tang[d]), tang[d]);
    if (DIM == 2) {
      Vec o2 = Axpy(tang[1], -Dot(tang[1], tang[0]) / Dot(tang[0], tang[0]), tang[0]);
      n = Axpy(n, -Dot(n, o2) / Dot(o2, o2), o2);
    }
  }
  bool has_normal = s.pdim > DIM && Norm(n) > 1e-3;
  ld size = 0;
  for (int d = 0; d < DIM; ++d) size = std::max(size, Norm(b[d]) * (s.Last(d) - s.First(d)));
  ld off = 0;
  if (has_normal) {
    off = affine ? r->Real(0, 3) * size : r->Real(0, 0.1) * size;
    if (!affine) {
      // bound by curvature over the whole spline
      ld curv = 0;
      for (auto &u : gen::Tuples(r, s, 3, 40)) {
        for (int d = 0; d < DIM; ++d) for (int e = 0; e < DIM; ++e) {
          std::vector<int> o2(DIM, 0);
          ++o2[d];
          ++o2[e];
          curv = std::max(curv, Norm(s.Derivative(gen::Ld(u), o2).v) / (Norm(b[d]) * Norm(b[e])));
        }
      }
      if (curv > 0) off = std::min(off, static_cast<ld>(DIM == 2 ? 0.4L : 0.15L) / curv);
    }
    if (r->Chance(0.2)) off = 0;
    q = Axpy(q, off / Norm(n), n);
  }
  std::vector<double> qd = D(q);
  c->Input(vp::Cat("projection of ", gen::Str(qd), " on ", gen::Describe(s), " foot point at ", gen::Str(inside), " tolerance ", tol, " scattering ", sc[0], "x", sc[1]));
  c->Distinct(vp::Cat(gen::Signature(s), affine, is_out, off > 0));
  auto u = Project<DIM>(qd, l, tol, sc);
  c->Count(affine ? "affine" : "curved");
  if (is_out) c->Count("foot_point_at_boundary");
  Vec ul(DIM);
  for (int d = 0; d < DIM; ++d) {
    ul[d] = u[d].get();
    if (!c->Expect(ul[d] >= s.First(d) && ul[d] <= s.Last(d), "projection-outside-domain", [&] { return vp::Cat("direction ", d, ": ", u[d].get()); })) return;
  }
  ld slack = affine ? 0 : 3 * eff;
  for (int d = 0; d < DIM; ++d) {
    ld allowed = slack + 1e-9L * (s.Last(d) - s.First(d)) + 1e-12L * (std::fabs(s.First(d)) + (MaxAbs(q) + s.MaxAbs()) / Norm(b[d]));
    c->Expect(std::fabs(ul[d] - inside[d]) <= allowed, affine ? "projection-affine-foot-point" : "projection-foot-point",
              [&] { return vp::Cat("projected to ", gen::Str(ul), ", foot point at ", gen::Str(inside), ", allowed ", static_cast<double>(allowed)); });
  }
  // no sampled point is closer than the returned one
  ld got = Norm(Sub(q, s.Eval(ul)));
  ld len = 0;
  for (int d = 0; d < DIM; ++d) len += Norm(b[d]) * 1.3L;
  ld room = len * (slack + 1e-9L) * 3 + 1e-9L * (size + MaxAbs(q) + s.MaxAbs());
  for (auto &v : gen::Tuples(r, s, 4, 60)) {
    ld other = Norm(Sub(q, s.Eval(gen::Ld(v))));
    c->Expect(got <= other + room, "projection-not-closest", [&] { return vp::Cat("distance ", static_cast<double>(got), " at ", gen::Str(ul), " but ", static_cast<double>(other), " at ", gen::Str(v)); });
  }
  c->Expect(gen::SameState(gen::Capture<DIM>(*l, s.rational), s), "projection-modifies-spline", [] { return std::string(); });
}

// ---------------------------------------------------------------------------------------------------------------- C21
void CheckCurveUnchanged(vp::Ctx *c, const spl::NURBS<1> &l, const ref::Spline &s, const std::string &which) {
  c->Expect(gen::SameState(gen::Capture<1>(l, true), s), "generator-modifies-curve", [&] { return which; });
}

void Translational(vp::Ctx *c, vp::Rng *r) {
  gen::Options o;
  o.rational = 1;
  ref::Spline t = gen::Make(r, 1, o);
  o.min_pdim = o.max_pdim = t.pdim;
  ref::Spline k = gen::Make(r, 1, o);
  c->Input(vp::Cat("translational surface of ", gen::Describe(t), " and ", gen::Describe(k)));
  c->Distinct("trans" + gen::Signature(t) + gen::Signature(k));
  auto lt = gen::MakeN<1>(t), lk = gen::MakeN<1>(k);
  auto surface = std::make_shared<spl::NURBS<2>>(spl::SurfaceGenerator(lt, lk));
  c->Count("translational");
  ref::Spline s = gen::Capture<2>(*surface, true);
  std::string bad = gen::Malformed(s, surface->GetNumberOfControlPoints());
  if (!c->Expect(bad.empty(), "surface-malformed", [&] { return bad; })) return;
  c->Expect(s.deg[0] == t.deg[0] && s.deg[1] == k.deg[0] && s.knots[0] == t.knots[0] && s.knots[1] == k.knots[0] && s.pdim == t.pdim,
            "surface-space", [] { return std::string("degrees, knots or dimension are not those of the curves"); });
  if (s.pdim != t.pdim || s.n[0] != t.n[0] || s.n[1] != k.n[0]) return;
  ld tol = 1e-10L * (t.MaxAbs() + k.MaxAbs() + 1e-30L) * (t.MaxWeight() / t.MinWeight()) * (k.MaxWeight() / k.MinWeight());
  auto dims = gen::Iota(s.pdim);
  for (auto &u : gen::Tuples(r, s, 2, 30)) {
    Vec want = Axpy(t.Eval({static_cast<ld>(u[0])}), 1, k.Eval({static_cast<ld>(u[1])}));
    auto got = surface->Evaluate(gen::LibParam<2>(u), dims);
    c->Expect(gen::Dist(Vec(got.begin(), got.end()), want) <= tol, "translational-value", [&] { return vp::Cat("at ", gen::Str(u), ": ", gen::Str(got), " expected ", gen::Str(want)); });
    ld w = t.Weight({static_cast<ld>(u[0])}) * k.Weight({static_cast<ld>(u[1])});
    ld gw = s.Weight(gen::Ld(u));
    c->Expect(std::fabs(gw - w) <= 1e-10L * w, "translational-weight", [&] { return vp::Cat("at ", gen::Str(u), ": ", static_cast<double>(gw), " expected ", static_cast<double>(w)); });
  }
  CheckCurveUnchanged(c, *lt, t, "trajectory changed by the generator");
  CheckCurveUnchanged(c, *lk, k, "section changed by the generator");
  // independence of surface and curves
  surface->InsertKnot(ParamCoord{static_cast<double>(s.First(0) + (s.Last(0) - s.First(0)) * 0.37L)}, 0);
  surface->ElevateDegreeForDimension(1);
  CheckCurveUnchanged(c, *lt, t, "trajectory changed with the surface");
  CheckCurveUnchanged(c, *lk, k, "section changed with the surface");
}

void Swept(vp::Ctx *c, vp::Rng *r) {
  gen::Options o;
  o.rational = 1;
  o.min_pdim = o.max_pdim = 3;
  o.max_weight_ratio = 4;
  ref::Spline k = gen::Make(r, 1, o);
  bool planar_section = r->Chance(0.5);
  for (auto &q : k.cp) { for (auto &x : q) x = r->Real(-1, 1); if (planar_section) q[0] = 0; }
  int kind = r->Int(0, 3);   // 0 straight polynomial, 1 straight with weights, 2.. curved
  ref::Spline t;
  gen::Options ot = o;
  ot.max_deg = 4;
  ot.max_mult = 1;
  t.dim = 1;
  t.pdim = 3;
  t.rational = true;
  // at least quadratic and twice continuously differentiable unless straight
  int p = kind <= 1 ? r->Int(1, 3) : r->Int(3, 4);
  t.deg = {p};
  do {
    ot.max_mult = kind <= 1 ? std::max(1, p - 1) : 1;
    t.knots = {gen::Knots(r, ot, p)};
  } while (t.Last(0) - t.First(0) < 0.1L || t.Last(0) - t.First(0) > 50);
  t.n = {static_cast<int>(t.knots[0].size()) - p - 1};
  Vec a = RandVec(r, 3, 4), b = RandVec(r, 3, 1);
  if (r->Chance(0.3)) { b = {0, 0, 0}; b[r->Int(0, 2)] = r->Chance(0.5) ? 1 : -1; }
  else if (Norm(b) < 0.3) b = {1, 2, 2};
  ld range = t.Last(0) - t.First(0), len = r->Real(1, 8) / Norm(b);
  for (auto &x : b) x *= len / range;
  // also trajectories that are hardly, but clearly curved
  ld bend = r->Chance(0.3) ? static_cast<ld>(std::pow(10.0, r->Real(-3.5, -1))) : 1.0L;
  for (int i = 0; i < t.n[0]; ++i) {
    ld g = 0;
    for (int j = 1; j <= p; ++j) g += t.knots[0][i + j];
    g /= p;
    Vec q = Axpy(a, g - t.First(0), b);
    if (kind >= 2) {
      ld f = (g - t.First(0)) / range;
      // a bend that never loses its curvature plus small noise
      Vec e1 = std::fabs(b[0]) < std::fabs(b[1]) ? Cross(b, {1, 0, 0}) : Cross(b, {0, 1, 0});
      Vec e2 = Cross(b, e1);
      ld h = Norm(Axpy({0, 0, 0}, range, b)) * 0.5L * bend;
      q = Axpy(q, h * (f * f) / Norm(e1), e1);
      q = Axpy(q, h * 0.5L * f * f * f / Norm(e2), e2);
      q = Axpy(q, 0.002L * h, RandVec(r, 3, 1));
    }
    for (auto &x : q) x = static_cast<double>(x);
    t.cp.push_back(q);
    t.w.push_back(kind == 0 ? 1.0 : r->Real(0.8, 1.25));
  }
  int nb = r->Int(std::max(2, p + 1), p + 9);
  std::vector<std::array<double, 3>> scaling;
  std::array<double, 3> same = {r->Real(0.5, 2), r->Real(0.5, 2), r->Real(0.5, 2)};
  bool constant = kind <= 1 || r->Chance(0.4);
  for (int i = 0; i < nb; ++i) scaling.push_back(constant ? same : std::array<double, 3>{r->Real(0.3, 2), r->Real(0.3, 2), r->Real(-2, 2)});
  c->Input(vp::Cat("swept surface with ", nb, " sections along ", gen::Describe(t), " section ", gen::Describe(k)));
  c->Distinct(vp::Cat("swept", kind, planar_section, nb, gen::Signature(t), gen::Signature(k)));
  auto lt = gen::MakeN<1>(t), lk = gen::MakeN<1>(k);
  // reference frames first: which sections have a defined binormal
  std::vector<Vec> pos, x, z;
  std::vector<int> state;   // 1 curved, 0 straight, -1 undecided
  for (int i = 0; i < nb; ++i) {
    Vec v = {i + 1 == nb ? t.Last(0) : std::min(t.Last(0), t.First(0) + i * (range / (nb - 1)))};
    pos.push_back(t.Eval(v));
    auto d1 = t.Derivative(v, {1}), d2 = t.Derivative(v, {2});
    ld m = Norm(d1.v);
    Vec e = d1.v;
    for (auto &q : e) q /= m;
    x.push_back(e);
    Vec cr = Cross(d1.v, d2.v);
    ld rel = Norm(cr) / (m * std::max(m, Norm(d2.v)));
    state.push_back(rel > 1e-5L ? 1 : rel < 1e-11L ? 0 : -1);
    if (Norm(cr) > 0) { ld q = Norm(cr); for (auto &y : cr) y /= q; }
    z.push_back(cr);
  }
  std::shared_ptr<spl::NURBS<2>> surface;
  try {
    surface = std::make_shared<spl::NURBS<2>>(spl::SurfaceGenerator(lt, lk, nb, scaling));
  } catch (const std::runtime_error &e) {
    bool turn = false;
    for (int i = 1; i < nb; ++i) if (state[i] != 0 && (state[i - 1] != 1 || std::fabs(Dot(z[i], z[i - 1])) < 1e-9L)) turn = true;
    c->Expect(turn, "sweep-rejected", [&] { return std::string(e.what()); });
    c->Count("sweep_discontinuous");
    return;
  }
  c->Count(kind <= 1 ? "swept_straight" : "swept_curved");
  ref::Spline s = gen::Capture<2>(*surface, true);
  std::string bad = gen::Malformed(s, surface->GetNumberOfControlPoints());
  if (!c->Expect(bad.empty(), "surface-malformed", [&] { return bad; })) return;
  if (!c->Expect(s.n[0] == nb && s.n[1] == k.n[0] && s.pdim == 3 && s.deg[0] == p && s.deg[1] == k.deg[0] && s.knots[1] == k.knots[0], "surface-space",
                 [] { return std::string("degrees, numbers of points or knots of the section"); })) return;
  c->Expect(s.First(0) == t.First(0) && s.Last(0) == t.Last(0), "swept-domain", [&] { return vp::Cat("[", static_cast<double>(s.First(0)), ",", static_cast<double>(s.Last(0)), "]"); });
  int m = k.n[0];
  for (int i = 0; i < nb; ++i) {
    std::vector<Vec> y, sc;   // placed points relative to the trajectory, scaled section points
    ld mag = 0;
    for (int j = 0; j < m; ++j) {
      y.push_back(Sub(s.cp[i + nb * j], pos[i]));
      Vec q = k.cp[j];
      for (int d = 0; d < 3; ++d) q[d] *= scaling[i][d];
      sc.push_back(q);
      mag = std::max(mag, Norm(q));
    }
    ld tol = 1e-8L * (mag + t.MaxAbs() + 1e-30L);
    for (int j = 0; j < m; ++j) {
      ld got = Dot(y[j], x[i]);
      c->Expect(std::fabs(got - sc[j][0]) <= tol, "swept-tangent", [&] { return vp::Cat("section ", i, " point ", j, ": component along the trajectory ", static_cast<double>(got), ", expected ", static_cast<double>(sc[j][0])); });
      for (int q = 0; q <= j; ++q) {
        ld ip = Dot(y[j], y[q]), want = Dot(sc[j], sc[q]);
        c->Expect(std::fabs(ip - want) <= tol * (1 + mag), "swept-rigid", [&] { return vp::Cat("section ", i, " points ", j, ",", q, ": inner product ", static_cast<double>(ip), ", expected ", static_cast<double>(want)); });
      }
      if (j >= 2) {
        ld det = Dot(y[j], Cross(y[j - 1], y[j - 2])), want = Dot(sc[j], Cross(sc[j - 1], sc[j - 2]));
        c->Expect(std::fabs(det - want) <= 10 * tol * (1 + mag) * (1 + mag), "swept-orientation", [&] { return vp::Cat("section ", i, ": ", static_cast<double>(det), ", expected ", static_cast<double>(want)); });
      }
      if (state[i] == 1) {
        ld gz = Dot(y[j], z[i]), gy = Dot(y[j], Cross(z[i], x[i]));
        c->Observe();
        if (std::fabs(gz - sc[j][2]) > 1e3L * tol || std::fabs(gy - sc[j][1]) > 1e3L * tol)
          c->Violate("swept-binormal", vp::Cat("section ", i, " point ", j, ": ", static_cast<double>(gy), ",", static_cast<double>(gz), ", expected ", static_cast<double>(sc[j][1]), ",", static_cast<double>(sc[j][2])));
      }
      // straight trajectory: no rotation from section to section
      if (kind <= 1 && i > 0) {
        Vec before = Sub(s.cp[i - 1 + nb * j], pos[i - 1]);
        c->Expect(Norm(Sub(before, y[j])) <= 10 * tol, "swept-twist", [&] { return vp::Cat("sections ", i - 1, " and ", i, " point ", j); });
      }
      ld w = k.w[j] * t.Weight({i + 1 == nb ? t.Last(0) : std::min(t.Last(0), t.First(0) + i * (range / (nb - 1)))});
      c->Expect(std::fabs(s.w[i + nb * j] - w) <= 1e-10L * w, "swept-weight", [&] { return vp::Cat("section ", i, " point ", j, ": ", static_cast<double>(s.w[i + nb * j]), ", expected ", static_cast<double>(w)); });
    }
  }
  CheckCurveUnchanged(c, *lt, t, "trajectory changed by the generator");
  CheckCurveUnchanged(c, *lk, k, "section changed by the generator");
  surface->InsertKnot(ParamCoord{static_cast<double>(s.First(1) + (s.Last(1) - s.First(1)) * 0.37L)}, 1);
  CheckCurveUnchanged(c, *lk, k, "section changed with the surface");
}

// ---------------------------------------------------------------------------------------------------------------- C22
template<int DIM> void RandomGenerators(vp::Ctx *c, vp::Rng *r) {
  double a = r->Real(-5, 5), b = a + r->Real(0.1, 9);
  if (r->Chance(0.3)) { a = 0; b = 1; }
  int max_degree = r->Int(1, 5), pdim = r->Int(1, 4);
  std::array<ParamCoord, 2> lim = {ParamCoord{a}, ParamCoord{b}};
  c->Input(vp::Cat("random spline of ", DIM, " directions over [", a, ",", b, "], degree up to ", max_degree, ", dimension ", pdim));
  bool rational = r->Chance(0.5);
  std::shared_ptr<spl::Spline<DIM>> l;
  if (rational) l = std::make_shared<spl::NURBS<DIM>>(spl::RandomNURBSGenerator<DIM>(lim, max_degree, pdim));
  else l = std::make_shared<spl::BSpline<DIM>>(spl::RandomBSplineGenerator<DIM>(lim, max_degree, pdim));
  ref::Spline s = gen::Capture<DIM>(*l, rational);
  std::string bad = gen::Malformed(s, l->GetNumberOfControlPoints());
  if (!c->Expect(bad.empty(), "random-malformed", [&] { return bad; })) return;
  c->Distinct(gen::Signature(s));
  c->Count(vp::Cat(rational ? "random_nurbs_" : "random_b_spline_", DIM));
  c->Expect(s.pdim == pdim, "random-dimension", [&] { return vp::Cat(s.pdim); });
  for (int d = 0; d < DIM; ++d) {
    c->Expect(s.deg[d] >= 1 && s.deg[d] <= max_degree, "random-degree", [&] { return vp::Cat(s.deg[d]); });
    c->Expect(s.First(d) == a && s.Last(d) == b, "random-domain", [&] { return vp::Cat(static_cast<double>(s.First(d)), "..", static_cast<double>(s.Last(d))); });
  }
  if (rational) for (ld w : s.w) c->Expect(w > 0, "random-weight", [&] { return vp::Cat(static_cast<double>(w)); });
  if (s.Count() <= 600) {
    s.rational = rational;
    gen::CompareEvaluation<DIM>(c, *l, s, gen::Tuples(r, s, 1, 6), gen::EvalTol(s), "random-evaluation");
  }
}

void Square(vp::Ctx *c, vp::Rng *r) {
  bool standard = r->Chance(0.05);
  int p = r->Int(1, 6), knots = 2 * p + 2 + r->Int(0, 9);
  c->Input(vp::Cat("square of degree ", p, " with ", knots, " knots", standard ? " (default)" : ""));
  auto l = standard ? spl::SquareGenerator().CreateSquare() : spl::SquareGenerator(Degree{p}, static_cast<uint64_t>(knots)).CreateSquare();
  ref::Spline s = gen::Capture<2>(*l, false);
  std::string bad = gen::Malformed(s, l->GetNumberOfControlPoints());
  if (!c->Expect(bad.empty(), "square-malformed", [&] { return bad; })) return;
  c->Distinct(vp::Cat("square", gen::Signature(s)));
  c->Count("square");
  if (!standard) {
    c->Expect(s.deg[0] == p && s.deg[1] == p && static_cast<int>(s.knots[0].size()) == knots && static_cast<int>(s.knots[1].size()) == knots, "square-structure", [&] { return gen::Describe(s); });
  } else { p = s.deg[0]; knots = static_cast<int>(s.knots[0].size()); }
  if (s.deg[0] != p || s.deg[1] != p || static_cast<int>(s.knots[0].size()) != knots || static_cast<int>(s.knots[1].size()) != knots || s.pdim != 2) {
    c->Violate("square-structure", gen::Describe(s));
    return;
  }
  int inner = knots - 2 * p - 1;   // number of spans
  for (int d = 0; d < 2; ++d)
    for (int i = 0; i < knots; ++i) {
      ld want = i <= p ? 0 : i >= knots - p - 1 ? 1 : static_cast<ld>(i - p) / inner;
      c->Expect(std::fabs(s.knots[d][i] - want) <= 1e-13L, "square-knots", [&] { return vp::Cat("direction ", d, " knot ", i, ": ", static_cast<double>(s.knots[d][i])); });
    }
  for (int i = 0; i < s.Count(); ++i) {
    auto idx = gen::Unflatten<2>(i, s.n);
    for (int d = 0; d < 2; ++d) {
      ld want = -1 + 2.0L * idx[d] / (s.n[d] - 1);
      c->Expect(std::fabs(s.cp[i][d] - want) <= 1e-13L, "square-points", [&] { return vp::Cat("point ", i, " coordinate ", d, ": ", static_cast<double>(s.cp[i][d]), ", expected ", static_cast<double>(want)); });
    }
  }
  for (int q = 0; q < 4; ++q) {
    std::vector<double> u = {static_cast<double>(q & 1), static_cast<double>(q >> 1)};
    auto v = l->Evaluate(gen::LibParam<2>(u), {0, 1});
    c->Expect(std::fabs(v[0] - (2 * u[0] - 1)) < 1e-12 && std::fabs(v[1] - (2 * u[1] - 1)) < 1e-12, "square-corner", [&] { return gen::Str(v); });
  }
}

// ---------------------------------------------------------------------------------------------------------------- C23
template<int DIM> void MultiIndex(vp::Ctx *c, vp::Rng *r) {
  std::array<int, DIM> len;
  int total = 1;
  for (auto &x : len) { x = r->Int(1, DIM <= 2 ? 7 : 4); total *= x; }
  auto unflat = [&](int i) { std::array<int, DIM> a; for (int d = 0; d < DIM; ++d) { a[d] = i % len[d]; i /= len[d]; } return a; };
  auto str = [](const std::array<int, DIM> &a) { std::ostringstream o; for (int x : a) o << x << ' '; return o.str(); };
  util::MultiIndexHandler<DIM> h(len);
  int at = 0;
  std::string ops;
  c->Input(vp::Cat("multi index of lengths ", str(len)));
  int steps = r->Int(5, 40);
  for (int q = 0; q <= steps; ++q) {
    auto want = unflat(at);
    auto now = [&] { return vp::Cat("lengths ", str(len), " after ", ops, ": indices ", str(h.GetIndices()), ", expected ", str(want)); };
    if (!c->Expect(h.GetIndices() == want, "multi-index-position", now)) return;
    c->Expect(h.Get1DIndex() == at, "multi-index-flat", now);
    c->Expect(h.Get1DLength() == total, "multi-index-length", now);
    auto diff = h.GetDifferenceIndices();
    for (int d = 0; d < DIM; ++d) {
      c->Expect(h[d] == want[d], "multi-index-entry", now);
      c->Expect(diff[d] == len[d] - 1 - want[d], "multi-index-difference", now);
      // flat index of the remaining directions
      int flat = 0, stride = 1;
      for (int e = 0; e < DIM; ++e) if (e != d) { flat += want[e] * stride; stride *= len[e]; }
      int got = h.ExtractDimension(d);
      c->Expect(got == flat, "multi-index-extract", [&] { return vp::Cat(now(), " without direction ", d, ": ", got, ", expected ", flat); });
    }
    int other = r->Int(0, total - 1);
    c->Expect(h.Get1DIndex(unflat(other)) == other, "multi-index-flat-of", now);
    c->Expect(h.Get1DIndex(len, unflat(other)) == other, "multi-index-flat-of", now);
    if (q == steps) break;
    int n = r->Int(0, 2 * total);
    switch (r->Int(0, 7)) {
      case 0: case 1: { auto &x = ++h; at = (at + 1) % total; ops += "++"; c->Expect(&x == &h, "multi-index-return", now); break; }
      case 2: { auto old = h++; ops += "p+"; c->Expect(old.GetIndices() == want, "multi-index-return", now); at = (at + 1) % total; break; }
      case 3: --h; at = (at + total - 1) % total; ops += "--"; break;
      case 4: h + n; at = (at + n) % total; ops += vp::Cat("+", n); break;
      case 5: h - n; at = ((at - n) % total + total) % total; ops += vp::Cat("-", n); break;
      case 6: h.SetIndices(unflat(other)); at = other; ops += "set"; break;
      default: h.Set1DIndex(other); at = other; ops += vp::Cat("set", other); break;
    }
    c->Count("index_steps");
  }
  // full enumeration: every index once, first direction fastest
  util::MultiIndexHandler<DIM> e(len);
  for (int i = 0; i < total; ++i, ++e) c->Expect(e.Get1DIndex() == i && e.GetIndices() == unflat(i), "multi-index-order", [&] { return vp::Cat(str(len), i); });
  c->Expect(e.Get1DIndex() == 0, "multi-index-wrap", [&] { return str(len); });
  c->Distinct(vp::Cat(str(len), ops));
}

// ---------------------------------------------------------------------------------------------------------------- C24
std::vector<double> KnotValues(const baf::KnotVector &k) {
  std::vector<double> v;
  for (auto it = k.begin(); it != k.end(); ++it) v.push_back(it->get());
  return v;
}
baf::KnotVector LibKnotVector(const std::vector<double> &v) {
  std::vector<ParamCoord> k;
  for (double x : v) k.emplace_back(x);
  return baf::KnotVector(k);
}
void CheckKnots(vp::Ctx *c, vp::Rng *r, const baf::KnotVector &k, const std::vector<double> &m, const std::string &ops) {
  auto now = [&] { return vp::Cat(ops, ": ", gen::Str(KnotValues(k)), ", expected ", gen::Str(m)); };
  if (!c->Expect(KnotValues(k) == m, "knots-content", now)) return;
  c->Expect(k.GetNumberOfKnots() == m.size() && k.GetLastKnot().get() == m.back(), "knots-size", now);
  for (size_t i = 0; i < m.size(); ++i) c->Expect(k.GetKnot(i).get() == m[i], "knots-entry", now);
  int different = 1;
  for (size_t i = 1; i < m.size(); ++i) different += m[i] > m[i - 1];
  c->Expect(k.GetNumberOfDifferentKnots() == different, "knots-different", [&] { return vp::Cat(now(), " different ", k.GetNumberOfDifferentKnots()); });
  std::vector<ld> ml(m.begin(), m.end());
  auto probe = gen::Abscissae(r, ml, 1);
  for (double u : probe) {
    if (u < m.front() || u > m.back()) continue;
    bool near_last = std::fabs(u - m.back()) < 4e-15 && u != m.back();
    if (near_last) continue;   // inside the documented tolerance of the last knot
    int span = k.GetKnotSpan(ParamCoord{u}).get();
    c->Expect(span >= 0 && span + 1 < static_cast<int>(m.size()) && m[span] < m[span + 1] && m[span] <= u && (u < m[span + 1] || (u == m.back() && m[span + 1] == u)),
              "knots-span", [&] { return vp::Cat(now(), " span of ", u, ": ", span); });
    c->Expect(static_cast<long>(k.GetMultiplicity(ParamCoord{u})) == std::count(m.begin(), m.end(), u), "knots-multiplicity", [&] { return vp::Cat(now(), " at ", u); });
    c->Expect(k.IsInKnotVectorRange(ParamCoord{u}), "knots-range", [&] { return vp::Cat(now(), " at ", u); });
    c->Expect(k.IsLastKnot(ParamCoord{u}) == (u == m.back()) , "knots-last", [&] { return vp::Cat(now(), " at ", u); });
  }
  for (double u : {std::nextafter(m.front(), -1e300), m.front() - 1, std::nextafter(m.back(), 1e300), m.back() + 3}) {
    c->Expect(!k.IsInKnotVectorRange(ParamCoord{u}), "knots-range", [&] { return vp::Cat(now(), " outside at ", u); });
    c->Expect(k.GetMultiplicity(ParamCoord{u}) == 0, "knots-multiplicity", [&] { return vp::Cat(now(), " outside at ", u); });
  }
}

void KnotVectorHistory(vp::Ctx *c, vp::Rng *r) {
  gen::Options o;
  int p = r->Int(0, 5);
  o.extra_mult = 1;
  std::vector<double> m;
  for (ld x : gen::Knots(r, o, p)) m.push_back(static_cast<double>(x));
  double range = m.back() - m.front();
  baf::KnotVector k = LibKnotVector(m);
  std::string ops = "initial";
  c->Input(vp::Cat("knot vector ", gen::Str(m)));
  CheckKnots(c, r, k, m, ops);
  int steps = r->Int(1, 8);
  for (int q = 0; q < steps; ++q) {
    int op = r->Int(0, 7);
    if (op <= 2) {
      double u = r->Chance(0.4) ? r->Pick(m) : m.front() + range * r->Real(0.001, 0.999);
      if (r->Chance(0.1)) u = m.front() - range * 0.5;
      if (r->Chance(0.1)) u = m.back() + range * 0.5;
      k.InsertKnot(ParamCoord{u});
      m.insert(std::upper_bound(m.begin(), m.end(), u), u);
      ops += vp::Cat(" insert ", u);
      c->Count("knot_inserted");
    } else if (op <= 4 && m.size() > 3) {
      double u = r->Pick(m);
      auto t = m;
      t.erase(std::find(t.begin(), t.end(), u));
      if (t.front() == t.back()) continue;
      k.RemoveKnot(ParamCoord{u});
      m = t;
      ops += vp::Cat(" remove ", u);
      c->Count("knot_removed");
    } else if (op == 5) {
      // copies are independent
      baf::KnotVector copy(k), assigned;
      assigned = k;
      auto before = m;
      k.InsertKnot(ParamCoord{m.front() + range * 0.123});
      c->Expect(KnotValues(copy) == before && KnotValues(assigned) == before, "knots-copy", [&] { return ops; });
      baf::KnotVector moved(std::move(copy));
      k = std::move(assigned);
      c->Expect(KnotValues(moved) == before, "knots-move", [&] { return ops; });
      ops += " copy/move";
    } else if (op == 6) {
      auto t = m;
      size_t i = static_cast<size_t>(r->Int(0, static_cast<int>(t.size()) - 1));
      double delta = r->Pick(std::vector<double>{1e-9, 1e-5, 0.01});
      t[i] += r->Chance(0.5) ? delta : -delta;
      baf::KnotVector other = LibKnotVector(t), same = LibKnotVector(m);
      c->Expect(k == same && same == k && k.AreEqual(same, 1e-14), "knots-equal", [&] { return ops; });
      c->Expect(!(k == other) && !(other == k), "knots-unequal", [&] { return vp::Cat(ops, " knot ", i, " moved by ", delta); });
      c->Expect(!k.AreEqual(other, delta * 0.5) && k.AreEqual(other, delta * 2), "knots-equal-tolerance", [&] { return vp::Cat(ops, " knot ", i, " moved by ", delta); });
      t = m;
      t.push_back(t.back());
      baf::KnotVector longer = LibKnotVector(t);
      c->Expect(!(k == longer) && !(longer == k) && !k.AreEqual(longer, 1), "knots-equal-length", [&] { return ops; });
      std::vector<double> rest;
      for (size_t j = 0; j < m.size(); ++j) rest.push_back(m[j] - (m[j] + (j == i ? delta : 0)));
      auto u = m;
      u[i] += delta;
      c->Expect(KnotValues(k - LibKnotVector(u)) == rest, "knots-difference", [&] { return ops; });
    } else {
      // range constructor and indexed access
      baf::KnotVector part(static_cast<const baf::KnotVector &>(k).begin(), static_cast<const baf::KnotVector &>(k).end());
      c->Expect(KnotValues(part) == m, "knots-range-constructor", [&] { return ops; });
      part[0] = ParamCoord{m.front() - 1};
      c->Expect(part.GetKnot(0).get() == m.front() - 1 && k.GetKnot(0).get() == m.front(), "knots-indexed-access", [&] { return ops; });
    }
    CheckKnots(c, r, k, m, ops);
  }
  // knot vector by averaging parameters
  int deg = r->Int(1, 4), n = deg + 1 + r->Int(0, 6);
  std::vector<double> par;
  double a = r->Chance(0.4) ? 0 : r->Real(-5, 5);
  for (int i = 0; i < n; ++i) { par.push_back(a); a += r->Real(0.1, 2); }
  std::vector<ParamCoord> lp;
  for (double x : par) lp.emplace_back(x);
  auto av = KnotValues(baf::KnotVector(lp, Degree{deg}, n));
  bool ok = static_cast<int>(av.size()) == n + deg + 1;
  for (int i = 0; ok && i < n + deg + 1; ++i) {
    ld want = 0;
    if (i <= deg) want = par.front();
    else if (i >= n) want = par.back();
    else { for (int j = i - deg; j < i; ++j) want += par[j]; want /= deg; }
    ok = std::fabs(av[i] - want) <= 1e-12L;
  }
  c->Expect(ok, "knots-averaging", [&] { return vp::Cat("degree ", deg, " parameters ", gen::Str(par), " gives ", gen::Str(av)); });
  c->Distinct(ops);
}

template<int DIM> void Elements(vp::Ctx *c, vp::Rng *r) {
  gen::Options o;
  o.extra_mult = 1;
  o.min_deg = 0;
  o.max_deg = 3;
  o.max_interior = 5;
  ref::Spline s = gen::Make(r, DIM, o);
  // neighbouring knots that are different, but hardly
  if (r->Chance(0.3)) {
    for (auto &k : s.knots) {
      for (size_t i = 1; i + 1 < k.size(); ++i) {
        double close = r->Chance(0.5) ? std::nextafter(static_cast<double>(k[i - 1]), 1e300)
                                      : static_cast<double>(k[i - 1]) + static_cast<double>(k.back() - k.front()) * std::pow(10.0, -r->Int(6, 14));
        if (k[i - 1] > k.front() && k[i] > k[i - 1] && k[i] < k.back() && close <= k[i] && r->Chance(0.5)) k[i] = close;
      }
    }
  }
  c->Input("elements of " + gen::Describe(s));
  c->Distinct("elements" + gen::Signature(s));
  auto l = gen::MakeLib<DIM>(s);
  util::ElementGenerator<DIM> g(l);
  for (int d = 0; d < DIM; ++d) {
    auto e = g.GetElementList(d);
    auto u = ref::Unique(s.knots[d]);
    bool ok = e.size() + 1 == u.size();
    for (size_t i = 0; ok && i < e.size(); ++i) ok = e[i].GetLowerBound().get() == u[i] && e[i].GetUpperBound().get() == u[i + 1];
    c->Expect(ok, "elements", [&] {
      std::ostringstream t;
      for (auto &x : e) t << '[' << x.GetLowerBound().get() << ',' << x.GetUpperBound().get() << ']';
      return vp::Cat("direction ", d, ": ", t.str());
    });
    c->Count("element_lists");
  }
}

// ---------------------------------------------------------------------------------------------------------------- C25
void VectorsAndPoints(vp::Ctx *c, vp::Rng *r) {
  using U = util::VectorUtils<double>;
  int n = r->Int(1, 6);
  double m = r->Pick(std::vector<double>{1, 1e-3, 1e5, 1e-11, 1e12});
  std::vector<double> a, b;
  for (int i = 0; i < n; ++i) { a.push_back(r->Real(-m, m)); b.push_back(r->Real(-m, m)); }
  const std::vector<double> a0 = a, b0 = b;
  double f = r->Real(-3, 3);
  c->Input(vp::Cat("vectors ", gen::Str(a), " ", gen::Str(b), " factor ", f));
  c->Distinct(vp::Cat("v", n, m));
  auto near = [&](ld got, ld want, ld scale, const char *key) { c->Expect(std::fabs(got - want) <= 1e-13L * scale, key, [&] { return vp::Cat(static_cast<double>(got), " expected ", static_cast<double>(want)); }); };
  ld n2 = 0, d2 = 0, dot = 0, mag = 0;
  for (int i = 0; i < n; ++i) { n2 += static_cast<ld>(a[i]) * a[i]; d2 += (static_cast<ld>(a[i]) - b[i]) * (static_cast<ld>(a[i]) - b[i]); dot += static_cast<ld>(a[i]) * b[i]; mag += std::fabs(static_cast<ld>(a[i]) * b[i]); }
  near(U::ComputeTwoNorm(a), std::sqrt(n2), std::sqrt(n2), "vector-norm");
  near(U::ComputeDistance(a, b), std::sqrt(d2), std::sqrt(d2) + m, "vector-distance");
  near(U::ComputeScalarProduct(a, b), dot, mag, "vector-scalar-product");
  auto diff = U::ComputeDifference(a, b), sc = U::ScaleVector(a, f);
  bool ok = diff.size() == a.size() && sc.size() == a.size();
  for (int i = 0; ok && i < n; ++i) ok = diff[i] == a[i] - b[i] && sc[i] == f * a[i];
  c->Expect(ok, "vector-difference-scale", [&] { return gen::Str(diff) + gen::Str(sc); });
  if (n >= 3) {
    std::vector<double> x(a.begin(), a.begin() + 3), y(b.begin(), b.begin() + 3);
    auto cr = U::CrossProduct(x, y);
    auto want = Cross(Vec(x.begin(), x.end()), Vec(y.begin(), y.end()));
    c->Expect(cr.size() == 3 && gen::Dist(Vec(cr.begin(), cr.end()), want) <= 1e-14L * m * m * 3, "vector-cross-product", [&] { return gen::Str(cr); });
  }
  std::vector<int> pos;
  bool valid = true;
  int count = r->Int(0, 8);
  for (int i = 0; i < count; ++i) { int q = r->Chance(0.06) ? r->Pick(std::vector<int>{-1, n, n + 5, -100000, 1 << 30}) : r->Int(0, n - 1); valid &= q >= 0 && q < n; pos.push_back(q); }
  bool thrown = false;
  std::vector<double> fl;
  try { fl = U::FilterVector(a, pos); } catch (const std::runtime_error &) { thrown = true; }
  ok = thrown != valid;
  if (!thrown && valid) { ok = fl.size() == pos.size(); for (size_t i = 0; ok && i < pos.size(); ++i) ok = fl[i] == a[pos[i]]; }
  c->Count(valid ? "filter_valid" : "filter_invalid");
  c->Expect(ok, "vector-filter", [&] { return vp::Cat("valid ", valid, " thrown ", thrown, " ", gen::Str(fl)); });
  c->Expect(a == a0 && b == b0, "vector-operands", [] { return std::string(); });
  // control points
  baf::ControlPoint pa(a), pb(b), zero(static_cast<uint64_t>(n));
  auto vals = [](const baf::ControlPoint &q) { std::vector<double> v; for (int i = 0; i < q.GetDimension(); ++i) v.push_back(q.GetValue(i)); return v; };
  auto sum = vals(pa + pb), dif = vals(pa - pb), mul = vals(pa * f);
  ok = sum.size() == a.size() && dif.size() == a.size() && mul.size() == a.size() && zero.GetDimension() == n;
  for (int i = 0; ok && i < n; ++i) ok = sum[i] == a[i] + b[i] && dif[i] == a[i] - b[i] && mul[i] == a[i] * f && zero.GetValue(i) == 0;
  c->Expect(ok, "point-algebra", [&] { return gen::Str(sum) + gen::Str(dif) + gen::Str(mul); });
  near(pa.GetEuclideanNorm(), std::sqrt(n2), std::sqrt(n2), "point-norm");
  int at = r->Int(0, n - 1);
  baf::ControlPoint copy(pa);
  copy.SetValue(at, 42.5);
  auto expect = a;
  expect[at] = 42.5;
  c->Expect(vals(copy) == expect && vals(pa) == a && vals(pb) == b, "point-set-value", [&] { return gen::Str(vals(copy)); });
  if (n >= 3) {
    std::array<std::array<double, 4>, 4> t;
    for (auto &row : t) for (auto &x : row) x = r->Real(-2, 2);
    std::array<double, 3> s = {r->Real(-2, 2), r->Real(-2, 2), r->Real(-2, 2)};
    auto got = vals(pa.Transform(t, s));
    Vec want;
    for (int i = 0; i < 3; ++i) { ld x = t[i][3]; for (int j = 0; j < 3; ++j) x += static_cast<ld>(t[i][j]) * s[j] * a[j]; want.push_back(x); }
    c->Expect(got.size() == 3 && gen::Dist(Vec(got.begin(), got.end()), want) <= 1e-13L * (m + 1) * 16, "point-transform", [&] { return gen::Str(got) + " expected " + gen::Str(want); });
  }
  c->Count("vector_cases");
}

void Strings(vp::Ctx *c, vp::Rng *r) {
  using S = util::StringOperations;
  auto word = [&](const std::string &alphabet, int lo, int hi) { std::string s; for (int i = r->Int(lo, hi); i > 0; --i) s += alphabet[static_cast<size_t>(r->Int(0, static_cast<int>(alphabet.size()) - 1))]; return s; };
  // splitting at a delimiter and at line ends, without empty parts
  char delim = r->Pick(std::vector<char>{' ', ',', ';', '\t'});
  std::string text, cur;
  std::vector<std::string> want;
  for (int i = r->Int(0, 40); i > 0; --i) {
    char ch = r->Chance(0.3) ? delim : r->Chance(0.1) ? '\n' : word("ab1.-x[]", 1, 1)[0];
    text += ch;
    if (ch == delim || ch == '\n') { if (!cur.empty()) want.push_back(cur); cur.clear(); } else cur += ch;
  }
  if (!cur.empty()) want.push_back(cur);
  c->Input(vp::Cat("text \"", text, "\" delimiter '", delim, "'"));
  c->Distinct(text);
  c->Expect(S::split(text, delim) == want, "string-split", [&] { std::string s; for (auto &x : S::split(text, delim)) s += "<" + x + ">"; return s; });
  // prefixes and suffixes
  std::string a = word("ab.", 0, 8), b = word("ab.", 0, 4);
  bool starts = a.size() >= b.size() && a.substr(0, b.size()) == b, ends = a.size() >= b.size() && a.substr(a.size() - b.size()) == b;
  c->Expect(S::StartsWith(a, b) == starts, "string-starts", [&] { return a + "|" + b; });
  c->Expect(S::EndsWith(a, b) == ends, "string-ends", [&] { return a + "|" + b; });
  c->Expect(S::EndsWith(b + a, a) && S::StartsWith(b + a, b), "string-ends", [&] { return a + "|" + b; });
  // trimming
  std::string pre = word(" \t[\n", 0, 4), post = word(" \t]\n\r", 0, 4), core = r->Pick(std::vector<std::string>{"x", "]", "-"}) + word("a ]b[1", 0, 5) + r->Pick(std::vector<std::string>{"y", "[", "0"});
  c->Expect(S::trim(pre + core + post) == core, "string-trim", [&] { return S::trim(pre + core + post); });
  c->Expect(S::trim(pre).empty(), "string-trim", [&] { return pre; });
  // numbers
  double x = r->Chance(0.2) ? r->Int(-1000, 1000) : r->Real(-1, 1) * std::pow(10.0, r->Int(-30, 30));
  char buf[64];
  const char *fmt = r->Pick(std::vector<const char *>{"%.17g", "%.6f", "%.3e", "%+.17g", "%.17E", "%g"});
  snprintf(buf, sizeof buf, fmt, x);
  double v = strtod(buf, nullptr);
  std::string num = buf;
  if (r->Chance(0.3)) for (auto &ch : num) if (ch == 'e' || ch == 'E') ch = r->Chance(0.5) ? 'D' : 'd';
  c->Expect(S::StringToDouble(num) == v, "string-number", [&] { return num + vp::Cat(" gives ", S::StringToDouble(num)); });
  std::string junk = r->Pick(std::vector<std::string>{"", "abc", "1.2.3", "--4", "1e", "nan", "inf", "0x10", "1,5", "e5", ".", "-", "12a", "1 2"});
  bool thrown = false;
  try { S::StringToDouble(junk); } catch (const std::exception &) { thrown = true; }
  c->Expect(thrown, "string-no-number", [&] { return "\"" + junk + "\" is accepted as a number"; });
  // lists
  std::vector<double> nums;
  std::vector<std::string> parts;
  std::string list;
  int count = r->Int(1, 6);
  for (int i = 0; i < count; ++i) {
    snprintf(buf, sizeof buf, "%.17g", r->Chance(0.5) ? r->Int(-50, 50) : r->Real(-9, 9));
    nums.push_back(strtod(buf, nullptr));
    parts.emplace_back(buf);
    list += (r->Chance(0.3) ? " " : "") + std::string(buf) + (i + 1 < count ? "," : ";");
  }
  c->Expect(S::DelimitedStringToVector(list) == nums, "string-list", [&] { return list + " gives " + gen::Str(S::DelimitedStringToVector(list)); });
  c->Expect(S::StringVectorToNumberVector<double>(parts) == nums, "string-numbers", [&] { return list; });
  std::vector<int> ints;
  parts.clear();
  for (int i = 0; i < count; ++i) { ints.push_back(r->Int(-100000, 100000)); parts.push_back(std::to_string(ints.back())); }
  c->Expect(S::StringVectorToNumberVector<int>(parts) == ints, "string-numbers", [] { return std::string("integers"); });
  c->Count("string_cases");
}
}  // namespace

int main(int argc, char **argv) {
  vp::Ctx c;
  c.Parse(argc, argv);
  vp::RunCases(&c, [](vp::Ctx *x, vp::Rng *r) {
    int d = r->Int(1, 4);
    if (x->prop == "C20") { if (r->Chance(0.25)) WindingProjection(x, r); else if (r->Chance(0.6)) ProjectionCase<1>(x, r); else ProjectionCase<2>(x, r); }
    else if (x->prop == "C21") { if (r->Chance(0.35)) Translational(x, r); else Swept(x, r); }
    else if (x->prop == "C22") {
      if (r->Chance(0.3)) Square(x, r);
      else if (d == 1 || d == 4) RandomGenerators<1>(x, r);
      else if (d == 2) RandomGenerators<2>(x, r);
      else RandomGenerators<3>(x, r);
    }
    else if (x->prop == "C23") { if (d == 1) MultiIndex<1>(x, r); else if (d == 2) MultiIndex<2>(x, r); else if (d == 3) MultiIndex<3>(x, r); else MultiIndex<4>(x, r); }
    else if (x->prop == "C24") { if (r->Chance(0.75)) KnotVectorHistory(x, r); else if (d == 1) Elements<1>(x, r); else if (d == 2) Elements<2>(x, r); else Elements<3>(x, r); }
    else if (x->prop == "C25") { if (r->Chance(0.5)) VectorsAndPoints(x, r); else Strings(x, r); }
    else { fprintf(stderr, "unknown property\n"); exit(3); }
  });
  c.WriteReport();
  return 0;
}
