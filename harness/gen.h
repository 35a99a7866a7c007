// Random spline generation, construction of the library objects and capture of their state through the public API.
#ifndef GEN_H_
#define GEN_H_

#include <array>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "b_spline.h"
#include "nurbs.h"

#include "ref.h"
#include "vp.h"

namespace gen {
using ref::ld;

struct Options {
  int min_deg = 1, max_deg = 4;
  int max_interior = 4;       // distinct interior knots per direction
  int extra_mult = 0;         // interior multiplicity at most degree + extra_mult
  int max_mult = 99;          // ... and at most this
  int min_pdim = 1, max_pdim = 4;
  int max_points = 400;       // total
  bool nice_only = false;     // coordinates / knots with few decimals (text formats)
  int rational = -1;          // -1 random
  double max_weight_ratio = 25;
  bool offset_domain = true;  // domains not starting at 0
  bool tiny = false;          // tiny domains and nearly coincident knots
  bool rescale = false;       // now and then the whole knot vector scaled to a very small or very large domain
};

inline double Round(double x, double unit) { return std::round(x / unit) * unit; }

inline std::vector<ld> Knots(vp::Rng *r, const Options &o, int p, int *style_out = nullptr) {
  double a = 0, b = 1;
  int kind = r->Int(0, 7);
  if (!o.offset_domain) kind = kind % 3;
  switch (kind) {
    case 0: break;
    case 1: b = r->Int(1, 9); break;
    case 2: b = o.nice_only ? r->Int(1, 40) * 0.25 : r->Real(0.5, 20); break;
    case 3: a = -1; break;
    case 4: a = r->Int(1, 6); b = a + r->Int(1, 5); break;
    case 5: a = -r->Int(2, 9) - 0.5; b = a + r->Int(1, 4) + 0.25; break;
    case 6: a = o.nice_only ? r->Int(-80, 80) * 0.125 : r->Real(-20, 20); b = a + (o.nice_only ? r->Int(1, 80) * 0.125 : r->Real(0.3, 15)); break;
    default: if (o.nice_only) { a = r->Int(-3, 3); b = a + 2; } else { a = r->Real(-1, 1) * 1e-2; b = a + (r->Chance(0.5) ? 1e-2 : 300.0); }
  }
  if (o.tiny && r->Chance(0.5)) { a = r->Chance(0.5) ? 0 : 1; b = a + r->Pick(std::vector<double>{1e-8, 1e-6, 1e-4}); }
  int m = r->Int(0, o.max_interior);
  if (r->Chance(0.15)) m = 0;
  std::vector<double> u;
  int style = r->Int(0, 2);
  if (o.nice_only) {
    // interior knots on a grid of (b-a)/64 so they are exactly representable in six decimals
    std::vector<int> g;
    int grid = 32;
    while (static_cast<int>(g.size()) < m) {
      int x = r->Int(1, grid - 1);
      if (std::find(g.begin(), g.end(), x) == g.end()) g.push_back(x);
    }
    std::sort(g.begin(), g.end());
    for (int x : g) u.push_back(Round(a + (b - a) * x / grid, 1e-6));
  } else if (style == 0) {
    for (int i = 1; i <= m; ++i) u.push_back(a + (b - a) * i / (m + 1));
  } else {
    // random gaps, minimum gap relative to the range
    double min_gap = style == 1 ? 0.05 : 0.004;
    for (int tries = 0; static_cast<int>(u.size()) < m && tries < 200; ++tries) {
      double x = a + (b - a) * r->Real(0.02, 0.98);
      bool ok = true;
      for (double y : u) if (std::fabs(x - y) < min_gap * (b - a)) ok = false;
      if (x - a < min_gap * (b - a) || b - x < min_gap * (b - a)) ok = false;
      if (ok) u.push_back(x);
    }
    // a partner right next to a knot
    if (o.tiny && b - a > 1e-5 && !u.empty() && r->Chance(0.8)) u.push_back(r->Pick(u) + (b - a) * r->Pick(std::vector<double>{1e-9, 1e-7, 1e-5, 2e-4}));
    std::sort(u.begin(), u.end());
  }
  std::vector<ld> k(static_cast<size_t>(p + 1), static_cast<ld>(a));
  for (double x : u) {
    if (!(x > a && x < b) || (!k.empty() && static_cast<double>(k.back()) >= x)) continue;
    int mm = std::min(p + o.extra_mult, o.max_mult);
    int mult = mm <= 1 ? std::min(1, mm) : (r->Chance(0.5) ? 1 : r->Int(1, mm));
    for (int i = 0; i < mult; ++i) k.push_back(x);
  }
  for (int i = 0; i <= p; ++i) k.push_back(b);
  if (o.rescale && r->Chance(0.12)) {
    ld f = std::ldexp(1.0L, r->Pick(std::vector<int>{-27, -22, -16, 14}));   // exact
    for (ld &x : k) x *= f;
  }
  if (style_out != nullptr) *style_out = kind * 10 + style;
  return k;
}

inline void Points(vp::Rng *r, const Options &o, ref::Spline *s) {
  int total = s->Count();
  s->cp.assign(static_cast<size_t>(total), std::vector<ld>(static_cast<size_t>(s->pdim)));
  int style = r->Int(0, 5);
  double scale = o.nice_only ? 1 : (r->Chance(0.15) ? r->Pick(std::vector<double>{1e-3, 50, 1e4}) : 1);
  for (int i = 0; i < total; ++i) {
    for (int j = 0; j < s->pdim; ++j) {
      double x;
      if (style == 0) x = r->Int(-2, 2);                 // many coincidences
      else if (style == 1) x = r->Int(-20, 20) * 0.25;
      else if (style == 2) x = i * 0.5 + j;              // regular (affine along the index)
      else x = r->Real(-10, 10);
      if (o.nice_only) x = Round(x, 1e-6);
      s->cp[i][j] = x * scale;
    }
  }
  if (style >= 3 && r->Chance(0.3)) {                    // repeat points (spikes, closed polygons, coincident neighbours)
    for (int i = 0; i < std::max(1, total / 3); ++i) s->cp[r->Int(0, total - 1)] = s->cp[r->Int(0, total - 1)];
  }
  if (r->Chance(0.03)) for (auto &q : s->cp) q = s->cp[0];
  s->w.assign(static_cast<size_t>(total), 1.0L);
  if (s->rational) {
    int ws = r->Int(0, 4);
    for (auto &w : s->w) {
      if (ws == 0) w = 1;
      else if (ws == 1) w = r->Pick(std::vector<double>{0.5, 1, 2, 0.25, 4});
      else if (ws == 2) w = o.nice_only ? Round(r->Real(0.2, 4), 1e-6) : r->Real(0.2, 4);
      else if (ws == 3) w = o.nice_only ? 0.707107 : std::sqrt(0.5) + (r->Chance(0.5) ? 0 : 0.3);
      else w = o.nice_only ? Round(r->Real(0.9, 1.1), 1e-6) : r->Real(1 / std::sqrt(o.max_weight_ratio), std::sqrt(o.max_weight_ratio));
    }
  }
}

inline ref::Spline Make(vp::Rng *r, int dim, const Options &o) {
  ref::Spline s;
  while (true) {
    s = ref::Spline();
    s.dim = dim;
    s.pdim = r->Int(o.min_pdim, o.max_pdim);
    s.rational = o.rational < 0 ? r->Chance(0.5) : o.rational == 1;
    for (int d = 0; d < dim; ++d) {
      int p = r->Int(o.min_deg, o.max_deg);
      if (dim >= 3 && p > 2 && r->Chance(0.5)) p = 2;
      Options q = o;
      if (dim == 3) q.max_interior = std::min(q.max_interior, 2);
      if (dim >= 4) q.max_interior = std::min(q.max_interior, 1);
      s.deg.push_back(p);
      s.knots.push_back(Knots(r, q, p));
      s.n.push_back(static_cast<int>(s.knots[d].size()) - p - 1);
    }
    if (s.Count() <= o.max_points) break;
  }
  Points(r, o, &s);
  return s;
}

inline std::string Describe(const ref::Spline &s) {
  std::ostringstream o;
  o.precision(17);
  o << (s.rational ? "NURBS" : "BSpline") << "<" << s.dim << ">";
  for (int d = 0; d < s.dim; ++d) {
    o << " p" << d << "=" << s.deg[d] << " U" << d << "=[";
    for (size_t i = 0; i < s.knots[d].size(); ++i) o << (i ? " " : "") << static_cast<double>(s.knots[d][i]);
    o << "]";
  }
  o << " P=";
  for (size_t i = 0; i < s.cp.size() && i < 40; ++i) {
    o << "(";
    for (int j = 0; j < s.pdim; ++j) o << (j ? "," : "") << static_cast<double>(s.cp[i][j]);
    if (s.rational) o << ";w=" << static_cast<double>(s.w[i]);
    o << ")";
  }
  if (s.cp.size() > 40) o << "...";
  return o.str();
}

// structural signature used to count distinct non-trivial cases
inline std::string Signature(const ref::Spline &s) {
  std::ostringstream o;
  o << s.rational << s.dim << 'd' << s.pdim;
  for (int d = 0; d < s.dim; ++d) {
    o << ',' << s.deg[d] << ':';
    auto u = ref::Unique(s.knots[d]);
    for (ld x : u) o << ref::Multiplicity(s.knots[d], x) << '.';
  }
  return o.str();
}

template<int D> KnotVectors<D> LibKnots(const ref::Spline &s) {
  KnotVectors<D> kv;
  for (int d = 0; d < D; ++d) {
    std::vector<ParamCoord> k;
    for (ld x : s.knots[d]) k.emplace_back(static_cast<double>(x));
    kv[d] = std::make_shared<baf::KnotVector>(k);
  }
  return kv;
}
template<int D> std::array<Degree, D> LibDegrees(const ref::Spline &s) {
  std::array<Degree, D> a;
  for (int d = 0; d < D; ++d) a[d] = Degree{s.deg[d]};
  return a;
}
inline std::vector<baf::ControlPoint> LibPoints(const ref::Spline &s) {
  std::vector<baf::ControlPoint> v;
  for (auto &q : s.cp) {
    std::vector<double> c;
    for (ld x : q) c.push_back(static_cast<double>(x));
    v.emplace_back(c);
  }
  return v;
}
inline std::vector<double> LibWeights(const ref::Spline &s) {
  std::vector<double> v;
  for (ld x : s.w) v.push_back(static_cast<double>(x));
  return v;
}
template<int D> std::shared_ptr<spl::BSpline<D>> MakeB(const ref::Spline &s) {
  return std::make_shared<spl::BSpline<D>>(LibKnots<D>(s), LibDegrees<D>(s), LibPoints(s));
}
template<int D> std::shared_ptr<spl::NURBS<D>> MakeN(const ref::Spline &s) {
  return std::make_shared<spl::NURBS<D>>(LibKnots<D>(s), LibDegrees<D>(s), LibPoints(s), LibWeights(s));
}
template<int D> std::shared_ptr<spl::Spline<D>> MakeLib(const ref::Spline &s) {
  if (s.rational) return MakeN<D>(s);
  return MakeB<D>(s);
}

template<int D> std::array<int, D> Unflatten(int i, const std::vector<int> &n) {
  std::array<int, D> a{};
  for (int d = 0; d < D; ++d) { a[d] = i % n[d]; i /= n[d]; }
  return a;
}

// State of a library spline as seen through its public getters.
template<int D> ref::Spline Capture(const spl::Spline<D> &l, bool rational) {
  ref::Spline s;
  s.dim = D;
  s.rational = rational;
  s.pdim = l.GetPointDim();
  auto n = l.GetPointsPerDirection();
  for (int d = 0; d < D; ++d) {
    s.deg.push_back(l.GetDegree(d).get());
    s.n.push_back(n[d]);
    std::vector<ld> k;
    auto kv = l.GetKnotVector(d);
    for (size_t i = 0; i < kv->GetNumberOfKnots(); ++i) k.push_back(kv->GetKnot(i).get());
    s.knots.push_back(k);
  }
  for (int i = 0; i < s.Count(); ++i) {
    auto idx = Unflatten<D>(i, s.n);
    std::vector<ld> q;
    for (int j = 0; j < s.pdim; ++j) q.push_back(l.GetControlPoint(idx, j));
    s.cp.push_back(q);
    s.w.push_back(l.GetWeight(idx));
  }
  return s;
}

// Structural well-formedness of a captured state; empty string if fine.
inline std::string Malformed(const ref::Spline &s, int reported_count) {
  std::ostringstream o;
  for (int d = 0; d < s.dim; ++d) {
    int p = s.deg[d];
    if (p < 0) { o << "degree " << p << " in direction " << d; return o.str(); }
    if (static_cast<int>(s.knots[d].size()) != s.n[d] + p + 1) {
      o << "direction " << d << ": " << s.knots[d].size() << " knots, " << s.n[d] << " points, degree " << p;
      return o.str();
    }
    if (s.n[d] < p + 1) { o << "fewer than p+1 points in direction " << d; return o.str(); }
    if (!std::is_sorted(s.knots[d].begin(), s.knots[d].end())) { o << "knots of direction " << d << " not sorted"; return o.str(); }
    for (int i = 0; i <= p; ++i) {
      if (s.knots[d][i] != s.knots[d][0] || s.knots[d][s.knots[d].size() - 1 - i] != s.knots[d].back()) {
        o << "direction " << d << " not clamped";
        return o.str();
      }
    }
    for (ld x : s.knots[d]) if (!std::isfinite(static_cast<double>(x))) return "knot not finite";
  }
  if (reported_count != s.Count()) { o << "GetNumberOfControlPoints()=" << reported_count << " but grid has " << s.Count(); return o.str(); }
  for (size_t i = 0; i < s.cp.size(); ++i) {
    for (ld x : s.cp[i]) if (!std::isfinite(static_cast<double>(x))) { o << "control point " << i << " not finite"; return o.str(); }
    if (!std::isfinite(static_cast<double>(s.w[i]))) { o << "weight " << i << " not finite"; return o.str(); }
  }
  return "";
}

inline bool SameState(const ref::Spline &a, const ref::Spline &b) {
  return a.deg == b.deg && a.n == b.n && a.knots == b.knots && a.cp == b.cp && a.w == b.w && a.pdim == b.pdim;
}

// Parameters worth looking at in one direction: ends, knots, just left/right of knots, interior of every span.
inline std::vector<double> Abscissae(vp::Rng *r, const std::vector<ld> &k, int per_span) {
  std::vector<double> v;
  auto u = ref::Unique(k);
  for (size_t i = 0; i < u.size(); ++i) {
    double x = static_cast<double>(u[i]);
    v.push_back(x);
    if (i > 0) v.push_back(std::nextafter(x, -1e300));
    if (i + 1 < u.size()) {
      double y = static_cast<double>(u[i + 1]);
      for (int q = 0; q < per_span; ++q) {
        double z = x + (y - x) * r->Unit();
        if (z >= y) z = x;
        v.push_back(z);
      }
      v.push_back(x + 0.5 * (y - x));
    }
  }
  return v;
}

// A bounded random sample of parameter tuples from per-direction abscissae (full list if dim==1).
inline std::vector<std::vector<double>> Tuples(vp::Rng *r, const ref::Spline &s, int per_span, int limit) {
  std::vector<std::vector<double>> a;
  for (int d = 0; d < s.dim; ++d) a.push_back(Abscissae(r, s.knots[d], per_span));
  std::vector<std::vector<double>> t;
  if (s.dim == 1 && static_cast<int>(a[0].size()) <= limit) {
    for (double x : a[0]) t.push_back({x});
    return t;
  }
  // corners first, then random picks
  for (int c = 0; c < (1 << s.dim) && static_cast<int>(t.size()) < limit; ++c) {
    std::vector<double> u;
    for (int d = 0; d < s.dim; ++d) u.push_back(static_cast<double>((c >> d) & 1 ? s.knots[d].back() : s.knots[d].front()));
    t.push_back(u);
  }
  while (static_cast<int>(t.size()) < limit) {
    std::vector<double> u;
    for (int d = 0; d < s.dim; ++d) u.push_back(r->Pick(a[d]));
    t.push_back(u);
  }
  return t;
}

template<int D> std::array<ParamCoord, D> LibParam(const std::vector<double> &u) {
  std::array<ParamCoord, D> a;
  for (int d = 0; d < D; ++d) a[d] = ParamCoord{u[d]};
  return a;
}
inline std::vector<ld> Ld(const std::vector<double> &u) { return std::vector<ld>(u.begin(), u.end()); }
inline std::vector<int> Iota(int n) { std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(i); return v; }
inline std::string Str(const std::vector<double> &u) {
  std::ostringstream o;
  o.precision(17);
  o << "(";
  for (size_t i = 0; i < u.size(); ++i) o << (i ? "," : "") << u[i];
  o << ")";
  return o.str();
}
inline std::string Str(const std::vector<ld> &u) { return Str(std::vector<double>(u.begin(), u.end())); }

// rounding allowance of an evaluation of s (well-conditioned: clamped knots, bounded weight ratio)
inline ld EvalTol(const ref::Spline &s) { return 1e-11L * (s.MaxAbs() + 1e-30L) * (s.MaxWeight() / s.MinWeight()); }

inline ld Dist(const std::vector<ld> &a, const std::vector<ld> &b) {
  ld m = 0;
  for (size_t i = 0; i < a.size(); ++i) {
    ld d = std::fabs(a[i] - b[i]);
    if (!(d <= m)) m = d;   // NaN propagates
    if (d != d) return d;
  }
  return m;
}

// Monitor: library evaluation of `l` against the reference `s` at the tuples t; returns number of mismatches.
template<int D> int CompareEvaluation(vp::Ctx *c, const spl::Spline<D> &l, const ref::Spline &s,
                                      const std::vector<std::vector<double>> &t, ld tol, const std::string &key) {
  int bad = 0;
  auto dims = Iota(s.pdim);
  for (auto &u : t) {
    auto got = l.Evaluate(LibParam<D>(u), dims);
    auto want = s.Eval(Ld(u));
    std::vector<ld> g(got.begin(), got.end());
    bool ok = got.size() == want.size() && Dist(g, want) <= tol;
    if (!c->Expect(ok, key, [&] { return vp::Cat("at u=", Str(u), " library gives ", Str(got), ", expected ", Str(want), ", allowed ", static_cast<double>(tol)); })) ++bad;
  }
  return bad;
}

// Monitor: two captured states describe the same geometry (evaluated by the reference only).
inline int CompareGeometry(vp::Ctx *c, const ref::Spline &a, const ref::Spline &b, const std::vector<std::vector<double>> &t,
                           ld tol, const std::string &key) {
  int bad = 0;
  for (auto &u : t) {
    auto x = a.Eval(Ld(u)), y = b.Eval(Ld(u));
    if (!c->Expect(x.size() == y.size() && Dist(x, y) <= tol, key, [&] { return vp::Cat("at u=", Str(u), " geometry moved from ", Str(x), " to ", Str(y), ", allowed ", static_cast<double>(tol)); })) ++bad;
  }
  return bad;
}
}  // namespace gen
#endif  // GEN_H_
