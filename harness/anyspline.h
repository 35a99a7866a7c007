// Conversion between the reference model and the std::any-wrapped splines the readers and writers exchange, random
// lists of splines, and text helpers shared by the I/O harnesses.
#ifndef ANYSPLINE_H_
#define ANYSPLINE_H_

#include <any>
#include <fstream>

#include "gen.h"

namespace aio {
using gen::ld;

template<int D> std::any Wrap(const ref::Spline &s) {
  if (s.rational) return std::make_any<std::shared_ptr<spl::NURBS<D>>>(gen::MakeN<D>(s));
  return std::make_any<std::shared_ptr<spl::BSpline<D>>>(gen::MakeB<D>(s));
}
inline std::any MakeAny(const ref::Spline &s) {
  switch (s.dim) {
    case 1: return Wrap<1>(s);
    case 2: return Wrap<2>(s);
    case 3: return Wrap<3>(s);
    default: return Wrap<4>(s);
  }
}
template<int D> bool Unwrap(const std::any &a, ref::Spline *s, int *count) {
  if (auto b = std::any_cast<std::shared_ptr<spl::BSpline<D>>>(&a)) {
    if (*b == nullptr) return false;
    *s = gen::Capture<D>(**b, false);
    *count = (*b)->GetNumberOfControlPoints();
    return true;
  }
  if (auto n = std::any_cast<std::shared_ptr<spl::NURBS<D>>>(&a)) {
    if (*n == nullptr) return false;
    *s = gen::Capture<D>(**n, true);
    *count = (*n)->GetNumberOfControlPoints();
    return true;
  }
  return false;
}
// false if the any holds none of the eight spline types
inline bool CaptureAny(const std::any &a, ref::Spline *s, std::string *malformed = nullptr) {
  int count = 0;
  bool ok = Unwrap<1>(a, s, &count) || Unwrap<2>(a, s, &count) || Unwrap<3>(a, s, &count) || Unwrap<4>(a, s, &count);
  if (ok && malformed != nullptr) *malformed = gen::Malformed(*s, count);
  return ok;
}

// evaluates whatever was read at ends and inner parameters: exceptions are fine, memory errors are not
template<int D> bool ExerciseAs(const std::any &a, vp::Rng *r) {
  std::shared_ptr<spl::Spline<D>> l;
  if (auto b = std::any_cast<std::shared_ptr<spl::BSpline<D>>>(&a)) l = *b;
  else if (auto n = std::any_cast<std::shared_ptr<spl::NURBS<D>>>(&a)) l = *n;
  else return false;
  for (int q = 0; q < 3; ++q) {
    std::array<ParamCoord, D> u{};
    for (int d = 0; d < D; ++d) {
      double x = l->GetKnotVector(d)->GetKnot(0).get(), y = l->GetKnotVector(d)->GetLastKnot().get();
      u[d] = ParamCoord{q == 0 ? x : (q == 1 ? y : x + (y - x) * r->Unit())};
    }
    try { l->Evaluate(u, {0}); l->EvaluateDerivative(u, {0}, std::array<int, D>{1}); } catch (const std::exception &) {}
  }
  return true;
}
inline void Exercise(const std::any &a, vp::Rng *r) { ExerciseAs<1>(a, r) || ExerciseAs<2>(a, r) || ExerciseAs<3>(a, r) || ExerciseAs<4>(a, r); }

// allowed deviation of one number that went through a text format: absolute and relative part
struct Tol { double abs, rel; };
inline bool Close(ld got, ld want, Tol t) { return std::fabs(got - want) <= t.abs + t.rel * std::fabs(want); }

// Structural comparison of what was read with what it has to be; empty if they agree.  With `weighted` the coordinates
// were stored multiplied by the weight, so that their error is the one of product and weight divided by the weight.
inline std::string Differs(const ref::Spline &got, const ref::Spline &want, Tol t, bool weighted = false) {
  if (got.dim != want.dim) return vp::Cat("parameter directions ", got.dim, " instead of ", want.dim);
  if (got.rational != want.rational) return vp::Cat("rational ", got.rational, " instead of ", want.rational);
  if (got.pdim != want.pdim) return vp::Cat("point dimension ", got.pdim, " instead of ", want.pdim);
  if (got.deg != want.deg) return "degrees differ";
  for (int d = 0; d < want.dim; ++d) {
    if (got.knots[d].size() != want.knots[d].size()) return vp::Cat("number of knots in direction ", d, ": ", got.knots[d].size(), " instead of ", want.knots[d].size());
    for (size_t i = 0; i < want.knots[d].size(); ++i)
      if (!Close(got.knots[d][i], want.knots[d][i], t)) return vp::Cat("knot ", i, " of direction ", d, " is ", static_cast<double>(got.knots[d][i]), " instead of ", static_cast<double>(want.knots[d][i]));
  }
  if (got.n != want.n) return "numbers of control points differ";
  for (size_t i = 0; i < want.cp.size(); ++i) {
    if (!Close(got.w[i], want.w[i], t)) return vp::Cat("weight ", i, " is ", static_cast<double>(got.w[i]), " instead of ", static_cast<double>(want.w[i]));
    for (int j = 0; j < want.pdim; ++j) {
      Tol q = t;
      if (weighted) q.abs = static_cast<double>(1.01L * t.abs * (1 + std::fabs(want.cp[i][j])) / want.w[i]) + 1e-12;
      if (!Close(got.cp[i][j], want.cp[i][j], q)) return vp::Cat("coordinate ", j, " of point ", i, " is ", static_cast<double>(got.cp[i][j]), " instead of ", static_cast<double>(want.cp[i][j]));
    }
  }
  return "";
}

inline ref::Spline Pad3(ref::Spline s) {
  for (auto &q : s.cp) q.resize(3, 0.0L);
  s.pdim = 3;
  return s;
}

inline std::string DescribeList(const std::vector<ref::Spline> &v) {
  std::string o = vp::Cat(v.size(), " splines: ");
  for (auto &s : v) o += gen::Describe(s).substr(0, 900) + " ;; ";
  return o;
}

inline std::string ReadAll(const std::string &name) {
  std::ifstream f(name, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
inline void WriteAll(const std::string &name, const std::string &text) {
  std::ofstream f(name, std::ios::binary);
  f << text;
}
inline std::vector<std::string> Lines(const std::string &text) {
  std::vector<std::string> v;
  std::string cur;
  for (char ch : text) {
    if (ch == '\n') { v.push_back(cur); cur.clear(); } else cur += ch;
  }
  if (!cur.empty()) v.push_back(cur);
  return v;
}
inline std::vector<std::string> Words(const std::string &text) {
  std::vector<std::string> v;
  std::istringstream s(text);
  std::string w;
  while (s >> w) v.push_back(w);
  return v;
}
inline std::string Strip(const std::string &s) {
  size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n");
  return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
// strict number parse; false unless the whole string is one finite number
inline bool Number(const std::string &s, double *x) {
  if (s.empty()) return false;
  char *e = nullptr;
  *x = strtod(s.c_str(), &e);
  return e == s.c_str() + s.size() && std::isfinite(*x);
}
inline bool Integer(const std::string &s, long *x) {
  if (s.empty()) return false;
  char *e = nullptr;
  *x = strtol(s.c_str(), &e, 10);
  return e == s.c_str() + s.size();
}

// a random list of splines of at most max_dim parameter directions
struct ListOptions {
  int max_dim = 2, max_pdim = 3, max_splines = 4, max_points = 120, exact_dim = 0;
  bool wild = false;   // numbers of any magnitude (formats with full precision)
  bool allow_empty = true;
};
inline ref::Spline MakeOne(vp::Rng *r, int dim, const ListOptions &o) {
  gen::Options g;
  g.max_deg = dim == 1 ? 5 : (dim == 2 ? 3 : 2);
  g.max_interior = dim == 1 ? 4 : 2;
  g.extra_mult = r->Chance(0.1) ? 1 : 0;
  g.max_pdim = o.max_pdim;
  g.max_points = o.max_points;
  if (dim <= 3 && r->Chance(0.05)) g.min_deg = g.max_deg = dim == 1 ? r->Int(6, 12) : g.max_deg;
  g.nice_only = !o.wild && r->Chance(0.3);
  ref::Spline s = gen::Make(r, dim, g);
  auto value = [&](double x) {
    static const std::vector<double> odd{1e20, -1e20, 1e-5, -2.5e-5, 1e-7, 123456789.125, -0.0, 1e-300, 1e15 + 0.25, 1e100, 5, 1e6, 1e21, 0.1, 1.0 / 3, 3e-13, -7e8, 4096};
    return r->Chance(0.3) ? r->Pick(odd) : x * std::pow(10.0, r->Int(-12, 12));
  };
  if (o.wild && r->Chance(0.5)) {
    for (auto &q : s.cp) for (auto &x : q) if (r->Chance(0.5)) x = value(static_cast<double>(x));
  } else if (!o.wild && r->Chance(0.4)) {
    // magnitudes up to a million, where six decimals are still exact to double precision
    double f = r->Pick(std::vector<double>{1e-3, 10, 1e4, 1e5});
    for (auto &q : s.cp) for (auto &x : q) if (r->Chance(0.5)) x = static_cast<double>(x * f);
  }
  if (o.wild && r->Chance(0.3)) {   // knots of another magnitude (same structure)
    double f = std::pow(10.0, r->Int(-9, 9));
    for (auto &k : s.knots) for (auto &x : k) x = static_cast<double>(x * f);
  }
  if (o.wild && s.rational && r->Chance(0.3)) for (auto &w : s.w) w = r->Pick(std::vector<double>{1e-5, 2e-6, 1e7, 3, 0.125, 1.0 / 3});
  if (!o.wild && s.rational && r->Chance(0.15)) {   // weights far from one, still exact with six decimals
    double f = r->Pick(std::vector<double>{100, 4096, 1e4, 1e5});
    for (auto &w : s.w) if (r->Chance(0.7)) w = static_cast<double>(w * f);
  }
  return s;
}
inline std::vector<ref::Spline> MakeList(vp::Rng *r, const ListOptions &o) {
  std::vector<ref::Spline> v;
  if (r->Chance(0.015)) {   // many small splines (sequence numbers and counts of several digits)
    int n = r->Chance(0.2) ? r->Int(60, 120) : r->Int(10, 60);
    for (int i = 0; i < n; ++i) {
      gen::Options g;
      g.max_deg = 2;
      g.max_interior = 1;
      g.max_pdim = o.max_pdim;
      g.max_points = 12;
      v.push_back(gen::Make(r, o.exact_dim > 0 ? o.exact_dim : r->Int(1, std::min(2, o.max_dim)), g));
    }
    return v;
  }
  if (r->Chance(0.01)) {   // a large spline (thousands of lines)
    gen::Options g;
    int dim = o.exact_dim > 0 ? o.exact_dim : r->Int(1, o.max_dim);
    g.max_deg = 3;
    g.max_interior = dim == 1 ? 1500 : (dim == 2 ? 45 : (dim == 3 ? 10 : 4));
    g.max_pdim = o.max_pdim;
    g.max_points = 2500;
    v.push_back(gen::Make(r, dim, g));
    if (r->Chance(0.5)) v.push_back(MakeOne(r, dim, o));
    return v;
  }
  int n = r->Int(1, o.max_splines);
  if (r->Chance(0.05)) n = r->Int(5, 9);
  if (o.allow_empty && r->Chance(0.02)) n = 0;
  for (int i = 0; i < n; ++i) v.push_back(MakeOne(r, o.exact_dim > 0 ? o.exact_dim : r->Int(1, o.max_dim), o));
  return v;
}
inline std::vector<std::any> ToAny(const std::vector<ref::Spline> &v) {
  std::vector<std::any> a;
  for (auto &s : v) a.push_back(MakeAny(s));
  return a;
}
inline std::string ListSignature(const std::vector<ref::Spline> &v) {
  std::string o;
  for (auto &s : v) o += gen::Signature(s) + "|";
  return o;
}

// text of a number in one of several equivalent spellings; `exact` wants all digits
inline std::string Spell(vp::Rng *r, double x, int style) {
  char b[64];
  switch (style) {
    case 0: snprintf(b, sizeof b, "%.17g", x); break;
    case 1: snprintf(b, sizeof b, "%.16E", x); break;
    case 2: snprintf(b, sizeof b, "%.17e", x); break;
    default:
      snprintf(b, sizeof b, "%.17g", x);
      std::string s = b;
      if (s.find_first_of(".eE") == std::string::npos) return s + (r->Chance(0.5) ? "." : ".0");
      if (s.rfind("0.", 0) == 0 && r->Chance(0.5)) return s.substr(1);
      return s;
  }
  return b;
}
}  // namespace aio
#endif  // ANYSPLINE_H_
