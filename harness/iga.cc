// Monitors for the isogeometric example (C26): quadrature rules, elements, connectivity, basis functions in parameter and
// physical space, assembled matrices and vectors, boundary conditions, the Poisson solver and its output.
// Everything is recomputed in long double from the definition, with the reference model of ref.h.
#include "vp.h"
#include "gen.h"

#include "bdf_handler.h"
#include "five_point_gauss_legendre.h"
#include "four_point_gauss_legendre.h"
#include "linear_equation_assembler.h"
#include "one_point_gauss_legendre.h"
#include "poisson_problem.h"
#include "solution_vtk_writer.h"
#include "three_point_gauss_legendre.h"
#include "two_point_gauss_legendre.h"

#include <fstream>
#include <unistd.h>

namespace {
using gen::ld;
using Vec = std::vector<ld>;
using Mat = std::vector<Vec>;

iga::itg::IntegrationRule Rule(int n) {
  switch (n) {
    case 1: return iga::itg::OnePointGaussLegendre();
    case 2: return iga::itg::TwoPointGaussLegendre();
    case 3: return iga::itg::ThreePointGaussLegendre();
    case 4: return iga::itg::FourPointGaussLegendre();
    default: return iga::itg::FivePointGaussLegendre();
  }
}

void Quadrature(vp::Ctx *c, vp::Rng *r) {
  int n = r->Int(1, 5);
  auto rule = Rule(n);
  auto pts = rule.GetIntegrationPoints();
  if (!c->Expect(static_cast<int>(pts.size()) == n && rule.GetNumberOfIntegrationPoints() == n, "quadrature-points", [&] { return vp::Cat(pts.size(), " points, expected ", n); })) return;
  ld a = r->Real(-3, 3), b = a + r->Real(0.1, 4);
  Vec k;
  for (int i = 0; i < 2 * n; ++i) k.push_back(r->Real(-2, 2));
  auto f = [&](ld x) { ld s = 0; for (int i = 2 * n - 1; i >= 0; --i) s = s * x + k[i]; return s; };
  ld want = 0, size = 0, got = 0;
  for (int i = 0; i < 2 * n; ++i) want += k[i] * (std::pow(b, i + 1) - std::pow(a, i + 1)) / (i + 1);
  for (int i = 0; i < 2 * n; ++i) size += std::fabs(k[i]) * std::pow(std::max(std::fabs(a), std::fabs(b)), i) * (b - a);
  for (int i = 0; i < n; ++i) {
    c->Expect(rule.GetCoordinate(i) == pts[i].GetCoordinate(), "quadrature-coordinate", [&] { return vp::Cat(i); });
    c->Expect(std::fabs(pts[i].GetCoordinate()) < 1 && pts[i].GetWeight() > 0, "quadrature-point-range", [&] { return vp::Cat(pts[i].GetCoordinate(), " weight ", pts[i].GetWeight()); });
    got += (b - a) / 2 * pts[i].GetWeight() * f((b - a) / 2 * pts[i].GetCoordinate() + (a + b) / 2);
  }
  c->Count("quadrature");
  c->Distinct(vp::Cat("quadrature", n, static_cast<double>(a)));
  c->Expect(std::fabs(got - want) <= 1e-12L * size, "quadrature-exactness", [&] { return vp::Cat(n, " points: ", static_cast<double>(got), ", expected ", static_cast<double>(want)); });
}

Vec Solve(Mat a, Vec b) {
  int n = static_cast<int>(b.size());
  for (int col = 0; col < n; ++col) {
    int piv = col;
    for (int i = col + 1; i < n; ++i) if (std::fabs(a[i][col]) > std::fabs(a[piv][col])) piv = i;
    std::swap(a[col], a[piv]);
    std::swap(b[col], b[piv]);
    for (int i = 0; i < n; ++i) {
      if (i == col || a[i][col] == 0) continue;
      ld f = a[i][col] / a[col][col];
      for (int j = col; j < n; ++j) a[i][j] -= f * a[col][j];
      b[i] -= f * b[col];
    }
  }
  for (int i = 0; i < n; ++i) b[i] /= a[i][i];
  return b;
}

ld Det(Mat a) {
  int n = static_cast<int>(a.size());
  if (n == 1) return a[0][0];
  if (n == 2) return a[0][0] * a[1][1] - a[0][1] * a[1][0];
  return a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]);
}

// One quadrature point of one element, by definition.
struct Point {
  Vec u;                   // parameter
  ld weight, jac;          // product of the weights, Jacobian determinant of reference element -> physical space
  Vec r;                   // all rational basis functions
  std::vector<Vec> dr;     // their derivatives in parameter space, per direction
  std::vector<Vec> dx;     // ... in physical space
};

// A regular NURBS patch: Greville points under an affine map, slightly moved, with moderate weights.
template<int D> ref::Spline Patch(vp::Rng *r, int max_per_dir, bool weights = true) {
  gen::Options o;
  o.rational = 1;
  ref::Spline s;
  s.dim = D;
  s.pdim = D < 3 && r->Chance(0.3) ? 3 : D;
  s.rational = true;
  bool alike = r->Chance(0.4);
  for (int d = 0; d < D; ++d) {
    if (alike && d > 0) {
      s.deg.push_back(s.deg[0]);
      s.knots.push_back(s.knots[0]);
      s.n.push_back(s.n[0]);
      continue;
    }
    while (true) {
      int p = r->Int(1, 3);
      gen::Options q = o;
      q.max_interior = D == 1 ? 4 : (D == 2 ? 2 : 1);
      auto k = gen::Knots(r, q, p);
      int n = static_cast<int>(k.size()) - p - 1;
      if (n > max_per_dir) continue;
      ld gap = k.back() - k.front(), range = gap;
      auto u = ref::Unique(k);
      for (size_t i = 0; i + 1 < u.size(); ++i) gap = std::min(gap, u[i + 1] - u[i]);
      if (gap < 0.03L * range) continue;
      s.deg.push_back(p);
      s.knots.push_back(k);
      s.n.push_back(n);
      break;
    }
  }
  Mat map(static_cast<size_t>(D), Vec(static_cast<size_t>(D)));
  do for (auto &row : map) for (auto &x : row) x = r->Real(-1, 1); while (std::fabs(Det(map)) < 0.3);
  bool wild_weights = weights && r->Chance(0.7);
  ld z = r->Real(-2, 2);
  for (int i = 0; i < s.Count(); ++i) {
    auto idx = gen::Unflatten<D>(i, s.n);
    Vec g;
    for (int d = 0; d < D; ++d) {
      ld x = 0;
      for (int j = 1; j <= s.deg[d]; ++j) x += s.knots[d][idx[d] + j];
      g.push_back((x / s.deg[d] - s.First(d)) / (s.Last(d) - s.First(d)) + 0.12L / s.n[d] * r->Real(-1, 1));
    }
    Vec q;
    for (int j = 0; j < s.pdim; ++j) {
      ld x = j < D ? 1.5L : z;
      if (j < D) for (int d = 0; d < D; ++d) x += map[j][d] * g[d] * 2;
      q.push_back(static_cast<double>(x));
    }
    s.cp.push_back(q);
    s.w.push_back(wild_weights ? r->Real(0.75, 1.4) : 1.0);
  }
  return s;
}

template<int D> struct Model {
  ref::Spline s, basis;
  std::vector<Vec> cells;     // distinct knots per direction
  std::vector<int> elements;  // per direction
  Vec gauss, weights;

  Model(const ref::Spline &spline, const iga::itg::IntegrationRule &rule) : s(spline), basis(spline) {
    int n = s.Count();
    basis.pdim = n;
    for (int i = 0; i < n; ++i) { basis.cp[i].assign(static_cast<size_t>(n), 0.0L); basis.cp[i][i] = 1; }
    for (int d = 0; d < D; ++d) { cells.push_back(ref::Unique(s.knots[d])); elements.push_back(static_cast<int>(cells[d].size()) - 1); }
    for (auto &p : rule.GetIntegrationPoints()) { gauss.push_back(p.GetCoordinate()); weights.push_back(p.GetWeight()); }
  }
  int Elements() const { int t = 1; for (int x : elements) t *= x; return t; }
  // index of the first control point whose function does not vanish on the element, per direction
  std::array<int, D> FirstPoint(int e) const {
    auto idx = gen::Unflatten<D>(e, elements);
    for (int d = 0; d < D; ++d) idx[d] = ref::Span(s.knots[d], s.deg[d], (cells[d][idx[d]] + cells[d][idx[d] + 1]) / 2) - s.deg[d];
    return idx;
  }
  std::vector<int> Global(int e) const {
    auto first = FirstPoint(e);
    std::vector<int> local, out;
    int total = 1;
    for (int d = 0; d < D; ++d) { local.push_back(s.deg[d] + 1); total *= s.deg[d] + 1; }
    for (int l = 0; l < total; ++l) {
      auto idx = gen::Unflatten<D>(l, local);
      int g = 0;
      for (int d = D - 1; d >= 0; --d) g = g * s.n[d] + idx[d] + first[d];
      out.push_back(g);
    }
    return out;
  }
  // Known finding: the quotient rule reaches the first D functions of an element only, and divides once too often.
  bool quotient_defect = false;
  std::vector<Point> Points(int e, bool physical) const {
    std::vector<Point> out;
    std::vector<int> global;
    ref::Spline weight;
    if (quotient_defect) {
      global = Global(e);
      weight = s;
      weight.rational = false;
      weight.pdim = 1;
      for (int i = 0; i < s.Count(); ++i) { weight.cp[i] = {s.w[i]}; weight.w[i] = 1; }
    }
    auto idx = gen::Unflatten<D>(e, elements);
    std::vector<int> per(static_cast<size_t>(D), static_cast<int>(gauss.size()));
    int total = 1;
    for (int x : per) total *= x;
    for (int i = 0; i < total; ++i) {
      auto q = gen::Unflatten<D>(i, per);
      Point p;
      p.weight = 1;
      ld half = 1;
      for (int d = 0; d < D; ++d) {
        ld a = cells[d][idx[d]], b = cells[d][idx[d] + 1];
        p.u.push_back((b - a) / 2 * gauss[q[d]] + (a + b) / 2);
        p.weight *= weights[q[d]];
        half *= (b - a) / 2;
      }
      p.r = basis.Eval(p.u);
      Mat j(static_cast<size_t>(D));   // rows: parametric directions
      for (int d = 0; d < D; ++d) {
        std::vector<int> der(D, 0);
        der[d] = 1;
        p.dr.push_back(basis.Derivative(p.u, der).v);
        for (int x = 0; x < s.pdim; ++x) { ld t = 0; for (int k = 0; k < s.Count(); ++k) t += p.dr[d][k] * s.cp[k][x]; j[d].push_back(t); }
        if (!quotient_defect) continue;
        ld sum = weight.Eval(p.u)[0], slope = weight.Derivative(p.u, der).v[0];
        for (size_t x = 0; x < global.size(); ++x) {
          int g = global[x];
          ld a = p.dr[d][g] * sum + p.r[g] * slope;   // derivative of the weighted polynomial function
          p.dr[d][g] = x < static_cast<size_t>(D) ? (a * sum - p.r[g] * slope) / (sum * sum) : a;
        }
      }
      Mat metric(static_cast<size_t>(D), Vec(static_cast<size_t>(D), 0.0L));
      for (int a = 0; a < D; ++a) for (int b = 0; b < D; ++b) for (int x = 0; x < s.pdim; ++x) metric[a][b] += j[a][x] * j[b][x];
      p.jac = std::sqrt(std::fabs(Det(metric))) * half;
      if (physical) {
        Mat sq(static_cast<size_t>(D), Vec(static_cast<size_t>(D)));
        for (int a = 0; a < D; ++a) for (int x = 0; x < D; ++x) sq[a][x] = j[a][x];
        p.dx.assign(static_cast<size_t>(D), Vec(p.r.size(), 0.0L));
        for (size_t k = 0; k < p.r.size(); ++k) {
          Vec rhs;
          bool zero = true;
          for (int a = 0; a < D; ++a) { rhs.push_back(p.dr[a][k]); if (rhs.back() != 0) zero = false; }
          if (zero) continue;
          Vec g = Solve(sq, rhs);
          for (int x = 0; x < D; ++x) p.dx[x][k] = g[x];
        }
      }
      out.push_back(p);
    }
    return out;
  }
  bool Regular() const {
    ld lo = 1e300L, hi = 0;
    for (int e = 0; e < Elements(); ++e) for (auto &p : Points(e, false)) { ld h = 1; auto i = gen::Unflatten<D>(e, elements); for (int d = 0; d < D; ++d) h *= (cells[d][i[d] + 1] - cells[d][i[d]]); lo = std::min(lo, p.jac / h); hi = std::max(hi, p.jac / h); }
    return lo > hi / 50;
  }
};

bool Near(ld a, ld b, ld size, ld rel) { return std::fabs(a - b) <= rel * size; }

template<int D> std::vector<int> BoundaryPoints(const ref::Spline &s) {
  std::vector<int> out;
  for (int i = 0; i < s.Count(); ++i) {
    auto idx = gen::Unflatten<D>(i, s.n);
    bool on = false;
    for (int d = 0; d < D; ++d) if (idx[d] == 0 || idx[d] == s.n[d] - 1) on = true;
    if (on) out.push_back(i);
  }
  return out;
}

// Decides whether the derivatives of the rational functions are the right ones or exactly those of the known finding; in
// the latter case it is reported and everything that depends on them is compared with the model of the finding, so that
// any other deviation is still a violation of its own.
template<int D> void ProbeQuotientRule(vp::Ctx *c, Model<D> *m, const iga::BasisFunctionHandler<D> &baf, const iga::itg::IntegrationRule &rule) {
  auto right = m->Points(0, false);
  Model<D> other = *m;
  other.quotient_defect = true;
  auto wrong = other.Points(0, false);
  auto global = m->Global(0);
  auto dv = baf.EvaluateAllElementNonZeroNURBSBasisFunctionDerivatives(0, rule);
  if (dv.size() != right.size()) return;
  bool is_right = true, is_wrong = true;
  for (size_t q = 0; q < dv.size(); ++q) for (int d = 0; d < D; ++d) {
    if (dv[q].GetNumberOfNonZeroBasisFunctionDerivatives(d) != static_cast<int>(global.size())) return;
    ld size = 0;
    for (int g : global) size = std::max(size, std::max(std::fabs(right[q].dr[d][g]), std::fabs(wrong[q].dr[d][g])));
    for (size_t x = 0; x < global.size(); ++x) {
      double got = dv[q].GetBasisFunctionDerivativeValue(static_cast<int>(x), d);
      if (!Near(got, right[q].dr[d][global[x]], size, 1e-9L)) is_right = false;
      if (!Near(got, wrong[q].dr[d][global[x]], size, 1e-9L)) is_wrong = false;
    }
  }
  if (is_right || !is_wrong) return;
  m->quotient_defect = true;
  c->Violate("iga-quotient-rule", "derivatives of the rational functions of an element lack the quotient rule except for the first of them");
}

template<int D> void Discretisation(vp::Ctx *c, vp::Rng *r) {
  int rule_n = r->Int(1, D == 3 ? 2 : (D == 2 ? 3 : 5));
  auto rule = Rule(rule_n);
  ref::Spline s;
  do s = Patch<D>(r, D == 1 ? 9 : (D == 2 ? 5 : 3)); while (!Model<D>(s, rule).Regular());
  Model<D> m(s, rule);
  auto l = gen::MakeN<D>(s);
  c->Input(vp::Cat("isogeometric discretisation with ", rule_n, "-point rule of ", gen::Describe(s)));
  c->Distinct(gen::Signature(s) + vp::Cat(rule_n));
  c->Count(vp::Cat("patch_dim", D));
  // elements
  iga::elm::ElementGenerator<D> gen_elements(l);
  auto per = gen_elements.GetNumElementsPerParamDir();
  c->Expect(gen_elements.GetNumberOfElements() == m.Elements(), "iga-number-of-elements", [&] { return vp::Cat(gen_elements.GetNumberOfElements(), ", expected ", m.Elements()); });
  for (int d = 0; d < D; ++d) {
    auto list = gen_elements.GetElementList(d);
    bool ok = static_cast<int>(list.size()) == m.elements[d] && per[d] == m.elements[d];
    for (size_t i = 0; ok && i < list.size(); ++i) ok = list[i].GetLowerBound().get() == m.cells[d][i] && list[i].GetUpperBound().get() == m.cells[d][i + 1];
    if (!c->Expect(ok, "iga-elements", [&] { return vp::Cat("direction ", d, ": ", list.size(), " elements, expected ", m.elements[d]); })) return;
  }
  iga::ConnectivityHandler<D> connectivity(l);
  iga::MappingHandler<D> mapping(l);
  iga::BasisFunctionHandler<D> baf(l);
  ProbeQuotientRule(c, &m, baf, rule);
  int n = s.Count();
  Mat k(static_cast<size_t>(n), Vec(static_cast<size_t>(n), 0.0L)), mass = k;
  Vec rhs(static_cast<size_t>(n), 0.0L), src;
  for (int i = 0; i < n; ++i) src.push_back(r->Real(-2, 2));
  for (int e = 0; e < m.Elements(); ++e) {
    auto idx = gen::Unflatten<D>(e, m.elements);
    c->Expect(gen_elements.GetElementIndices(e) == idx && gen_elements.Get1DElementIndex(idx) == e, "iga-element-indices", [&] { return vp::Cat("element ", e); });
    auto global = m.Global(e);
    for (size_t x = 0; x < global.size(); ++x) {
      int g = connectivity.GetGlobalIndex(e, static_cast<int>(x));
      if (!c->Expect(g == global[x] + 1, "iga-connectivity", [&] { return vp::Cat("element ", e, " function ", x, ": ", g, ", expected ", global[x] + 1); })) return;
    }
    // the element of a parameter: inside, at its lower corner, and at the end of the domain
    std::vector<double> inside, corner;
    bool last = true;
    for (int d = 0; d < D; ++d) {
      double a = static_cast<double>(m.cells[d][idx[d]]), b = static_cast<double>(m.cells[d][idx[d] + 1]);
      inside.push_back(a + (b - a) * r->Real(0.01, 0.99));
      corner.push_back(r->Chance(0.5) ? a : (idx[d] + 1 == m.elements[d] ? b : std::nextafter(b, a)));
      if (idx[d] + 1 != m.elements[d]) last = false;
    }
    (void) last;
    for (auto &u : {inside, corner}) {
      int got = gen_elements.GetElementNumberAtParamCoord(gen::LibParam<D>(u));
      c->Expect(got == e, "iga-element-of-parameter", [&] { return vp::Cat("parameter ", gen::Str(u), " in element ", got, ", expected ", e); });
    }
    auto pts = m.Points(e, true);
    auto v = baf.EvaluateAllElementNonZeroNURBSBasisFunctions(e, rule);
    auto dv = baf.EvaluateAllElementNonZeroNURBSBasisFunctionDerivatives(e, rule);
    auto dx = baf.EvaluateAllElementNonZeroNURBSBafDerivativesPhysical(e, rule);
    if (!c->Expect(v.size() == pts.size() && dv.size() == pts.size() && dx.size() == pts.size(), "iga-number-of-points", [&] { return vp::Cat(v.size(), ", expected ", pts.size()); })) return;
    std::vector<int> pq(static_cast<size_t>(D), rule_n);
    for (size_t q = 0; q < pts.size(); ++q) {
      auto &p = pts[q];
      std::array<double, D> ref_coords{};
      auto qi = gen::Unflatten<D>(static_cast<int>(q), pq);
      for (int d = 0; d < D; ++d) ref_coords[d] = rule.GetCoordinate(qi[d]);
      auto param = mapping.Reference2ParameterSpace(e, ref_coords);
      for (int d = 0; d < D; ++d) c->Expect(Near(param[d].get(), p.u[d], 1 + std::fabs(p.u[d]), 1e-13L), "iga-reference-to-parameter", [&] { return vp::Cat("direction ", d, ": ", param[d].get(), ", expected ", static_cast<double>(p.u[d])); });
      c->Expect(Near(v[q].GetWeight(), p.weight, p.weight, 1e-13L) && Near(dv[q].GetWeight(), p.weight, p.weight, 1e-13L) && Near(dx[q].GetWeight(), p.weight, p.weight, 1e-13L), "iga-point-weight", [&] { return vp::Cat(v[q].GetWeight(), ", expected ", static_cast<double>(p.weight)); });
      c->Expect(Near(v[q].GetJacobianDeterminant(), p.jac, p.jac, 1e-9L) && Near(dv[q].GetJacobianDeterminant(), p.jac, p.jac, 1e-9L) && Near(dx[q].GetJacobianDeterminant(), p.jac, p.jac, 1e-9L), "iga-jacobian", [&] { return vp::Cat(v[q].GetJacobianDeterminant(), ", expected ", static_cast<double>(p.jac)); });
      bool sizes = v[q].GetNumberOfNonZeroBasisFunctions() == static_cast<int>(global.size());
      for (int d = 0; d < D; ++d) sizes = sizes && dv[q].GetNumberOfNonZeroBasisFunctionDerivatives(d) == static_cast<int>(global.size()) && dx[q].GetNumberOfNonZeroBasisFunctionDerivatives(d) == static_cast<int>(global.size());
      if (!c->Expect(sizes, "iga-number-of-functions", [&] { return vp::Cat(v[q].GetNumberOfNonZeroBasisFunctions(), ", expected ", global.size()); })) return;
      for (size_t x = 0; x < global.size(); ++x) {
        int g = global[x];
        c->Expect(Near(v[q].GetBasisFunctionValue(static_cast<int>(x)), p.r[g], 1, 1e-11L), "iga-basis-function", [&] { return vp::Cat("element ", e, " point ", q, " function ", x, ": ", v[q].GetBasisFunctionValue(static_cast<int>(x)), ", expected ", static_cast<double>(p.r[g])); });
        for (int d = 0; d < D; ++d) {
          ld size = 0, psize = 0;
          for (size_t y = 0; y < global.size(); ++y) { size = std::max(size, std::fabs(p.dr[d][global[y]])); for (int f = 0; f < D; ++f) psize = std::max(psize, std::fabs(p.dx[f][global[y]])); }
          double got = dv[q].GetBasisFunctionDerivativeValue(static_cast<int>(x), d);
          c->Expect(Near(got, p.dr[d][g], size, 1e-9L), "iga-basis-function-derivative", [&] { return vp::Cat("element ", e, " point ", q, " function ", x, " direction ", d, ": ", got, ", expected ", static_cast<double>(p.dr[d][g])); });
          double gx = dx[q].GetBasisFunctionDerivativeValue(static_cast<int>(x), d);
          c->Expect(Near(gx, p.dx[d][g], psize, 1e-8L), "iga-physical-derivative", [&] { return vp::Cat("element ", e, " point ", q, " function ", x, " direction ", d, ": ", gx, ", expected ", static_cast<double>(p.dx[d][g])); });
        }
      }
      ld f = 0;
      for (int g : global) f += p.r[g] * src[g];
      for (int g : global) {
        rhs[g] += p.r[g] * f * p.weight * p.jac;
        for (int h : global) {
          ld t = 0;
          for (int d = 0; d < D; ++d) t += p.dx[d][g] * p.dx[d][h];
          k[g][h] += t * p.weight * p.jac;
          mass[g][h] += p.r[g] * p.r[h] * p.weight * p.jac;
        }
      }
    }
  }
  // assembly
  auto N = static_cast<arma::uword>(n);
  iga::LinearEquationAssembler<D> assembler(l);
  iga::ElementIntegralCalculator<D> calc(l);
  auto a = std::make_shared<arma::dmat>(N, N, arma::fill::zeros);
  auto b = std::make_shared<arma::dvec>(N, arma::fill::zeros);
  auto source = std::make_shared<arma::dvec>(N);
  for (int i = 0; i < n; ++i) (*source)(static_cast<arma::uword>(i)) = static_cast<double>(src[i]);
  ld conductivity = r->Chance(0.5) ? 1 : r->Real(0.2, 5);
  if (conductivity == 1) assembler.GetLeftSide(rule, a, calc); else assembler.GetLeftSide(rule, a, calc, static_cast<double>(conductivity));
  assembler.GetRightSide(rule, b, calc, source);
  ld ksize = 0, msize = 0, bsize = 0;
  for (auto &row : k) for (ld x : row) ksize = std::max(ksize, std::fabs(x) * conductivity);
  for (auto &row : mass) for (ld x : row) msize = std::max(msize, std::fabs(x));
  for (int i = 0; i < n; ++i) { ld t = 0; for (int j = 0; j < n; ++j) t += mass[i][j] * std::fabs(src[j]); bsize = std::max(bsize, t); }
  for (int i = 0; i < n; ++i) {
    c->Expect(Near((*b)(static_cast<arma::uword>(i)), rhs[i], bsize, 1e-9L), "iga-right-side", [&] { return vp::Cat("entry ", i, ": ", (*b)(static_cast<arma::uword>(i)), ", expected ", static_cast<double>(rhs[i])); });
    for (int j = 0; j < n; ++j) {
      double got = (*a)(static_cast<arma::uword>(i), static_cast<arma::uword>(j));
      c->Expect(Near(got, k[i][j] * conductivity, ksize, 1e-8L), "iga-stiffness", [&] { return vp::Cat("entry ", i, ",", j, ": ", got, ", expected ", static_cast<double>(k[i][j] * conductivity)); });
    }
  }
  // time discretisation
  iga::BDFHandler<D> bdf(l, rule);
  double dt = r->Real(0.05, 2);
  auto prev = std::make_shared<arma::dvec>(N);
  for (arma::uword i = 0; i < N; ++i) (*prev)(i) = r->Real(-1, 1);
  auto left = bdf.GetBDF1LeftSide(a, dt);
  auto right = bdf.GetBDF1RightSide(b, prev, dt);
  for (int i = 0; i < n; ++i) {
    ld t = 0;
    for (int j = 0; j < n; ++j) {
      t += mass[i][j] * (*prev)(static_cast<arma::uword>(j)) / dt;
      double got = (*left)(static_cast<arma::uword>(i), static_cast<arma::uword>(j));
      c->Expect(Near(got, k[i][j] * conductivity + mass[i][j] / dt, ksize + msize / dt, 1e-8L), "iga-bdf-left", [&] { return vp::Cat("entry ", i, ",", j, ": ", got); });
    }
    double got = (*right)(static_cast<arma::uword>(i));
    c->Expect(Near(got, rhs[i] + t, bsize + n * msize / dt, 1e-8L), "iga-bdf-right", [&] { return vp::Cat("entry ", i, ": ", got, ", expected ", static_cast<double>(rhs[i] + t)); });
  }
  // boundary conditions
  auto boundary = BoundaryPoints<D>(s);
  arma::dmat a0 = *a;
  arma::dvec b0 = *b;
  std::shared_ptr<arma::dvec> dirichlet;
  int bc = r->Int(0, 2);
  if (bc == 2) { dirichlet = std::make_shared<arma::dvec>(static_cast<arma::uword>(boundary.size())); for (auto &x : *dirichlet) x = r->Real(-3, 3); }
  if (bc == 0) assembler.SetZeroBC(a, b); else if (bc == 1) assembler.SetDirichletBC(a, b); else assembler.SetDirichletBC(a, b, dirichlet);
  size_t at = 0;
  for (int i = 0; i < n; ++i) {
    auto row = static_cast<arma::uword>(i);
    bool on = at < boundary.size() && boundary[at] == i;
    double want = on ? (bc == 2 ? (*dirichlet)(static_cast<arma::uword>(at)) : 0.0) : b0(row);
    c->Expect((*b)(row) == want, "iga-boundary-value", [&] { return vp::Cat("entry ", i, ": ", (*b)(row), ", expected ", want); });
    for (int j = 0; j < n; ++j) {
      double wa = on ? (i == j ? 1.0 : 0.0) : a0(row, static_cast<arma::uword>(j));
      c->Expect((*a)(row, static_cast<arma::uword>(j)) == wa, "iga-boundary-row", [&] { return vp::Cat("entry ", i, ",", j); });
    }
    if (on) ++at;
  }
  // boundary splines and Neumann conditions
  if constexpr (D > 1) {
    auto conn = assembler.GetBoundarySplineConnectivity();
    // Known finding: the faces get the knots and degrees of the first D - 1 directions instead of their own.
    bool mixed = false, throws = false;
    for (int d = 0; d < D; ++d) {
      int own = 1, taken = 1;
      for (int e = 0, q = 0; e < D; ++e) if (e != d) {
        if (s.knots[q] != s.knots[e] || s.deg[q] != s.deg[e]) mixed = true;
        own *= s.n[e], taken *= s.n[q++];
      }
      if (own != taken) throws = true;
    }
    std::array<std::array<std::shared_ptr<spl::NURBS<D - 1>>, 2>, D> splines;
    try {
      splines = assembler.GetBoundarySplines();
    } catch (const std::runtime_error &e) {
      c->Expect(false, throws ? "iga-boundary-directions" : "iga-boundary-spline", [&] { return vp::Cat("GetBoundarySplines throws: ", e.what()); });
      return;
    }
    bool known_faces = false;
    std::array<std::array<std::shared_ptr<arma::dvec>, 2>, D> neumann;
    Vec want(static_cast<size_t>(n), 0.0L), mag = want;
    for (int d = 0; d < D; ++d) {
      for (int side = 0; side < 2; ++side) {
        std::vector<int> ids;
        ref::Spline face;
        face.dim = D - 1;
        face.pdim = s.pdim;
        face.rational = true;
        for (int e = 0; e < D; ++e) if (e != d) { face.deg.push_back(s.deg[e]); face.knots.push_back(s.knots[e]); face.n.push_back(s.n[e]); }
        for (int i = 0; i < n; ++i) {
          auto idx = gen::Unflatten<D>(i, s.n);
          if (idx[d] == (side == 0 ? 0 : s.n[d] - 1)) { ids.push_back(i); face.cp.push_back(s.cp[i]); face.w.push_back(s.w[i]); }
        }
        if (!c->Expect(conn[d][side] == ids, "iga-boundary-connectivity", [&] { return vp::Cat("direction ", d, " side ", side); })) return;
        auto got = gen::Capture<D - 1>(*splines[d][side], true);
        ref::Spline other = face;
        other.deg.clear(), other.knots.clear(), other.n.clear();
        for (int q = 0; q < D - 1; ++q) { other.deg.push_back(s.deg[q]); other.knots.push_back(s.knots[q]); other.n.push_back(s.n[q]); }
        bool defect = mixed && !gen::SameState(got, face) && gen::SameState(got, other);
        if (defect) known_faces = true;
        c->Expect(gen::SameState(got, face), defect ? "iga-boundary-directions" : "iga-boundary-spline", [&] { return vp::Cat("direction ", d, " side ", side, ": ", gen::Describe(got), ", expected ", gen::Describe(face)); });
        auto flux = std::make_shared<arma::dvec>(static_cast<arma::uword>(ids.size()));
        for (auto &x : *flux) x = r->Real(-2, 2);
        neumann[d][side] = flux;
        Model<D - 1> fm(face, rule);
        for (int e = 0; e < fm.Elements(); ++e) for (auto &p : fm.Points(e, false)) {
          ld f = 0, fa = 0;
          for (size_t i = 0; i < ids.size(); ++i) { f += p.r[i] * (*flux)(static_cast<arma::uword>(i)); fa += p.r[i] * 2; }
          for (size_t i = 0; i < ids.size(); ++i) { want[ids[i]] += p.r[i] * f * p.weight * p.jac; mag[ids[i]] += p.r[i] * fa * p.weight * p.jac; }
        }
      }
    }
    if (known_faces) return;
    auto nb = std::make_shared<arma::dvec>(N, arma::fill::zeros);
    assembler.GetRightSideNeumann(rule, nb, neumann);
    ld size = 0;
    for (ld x : mag) size = std::max(size, x);
    for (int i = 0; i < n; ++i) c->Expect(Near((*nb)(static_cast<arma::uword>(i)), want[i], size, 1e-9L), "iga-neumann", [&] { return vp::Cat("entry ", i, ": ", (*nb)(static_cast<arma::uword>(i)), ", expected ", static_cast<double>(want[i])); });
  }
  c->Expect(gen::SameState(gen::Capture<D>(*l, true), s), "iga-modifies-spline", [] { return std::string(); });
}

// Poisson problem: every answer of every call sequence solves the discrete problem.
template<int D> void Poisson(vp::Ctx *c, vp::Rng *r) {
  int rule_n = D == 3 ? 3 : r->Int(3, D == 1 ? 5 : 4);   // enough points for a regular system
  auto rule = Rule(rule_n);
  ref::Spline s;
  bool weights = r->Chance(0.5);
  do s = Patch<D>(r, D == 1 ? 8 : (D == 2 ? 4 : 3), weights); while (!Model<D>(s, rule).Regular());
  Model<D> m(s, rule);
  auto l = gen::MakeN<D>(s);
  c->Input(vp::Cat("Poisson problem with ", rule_n, "-point rule on ", gen::Describe(s)));
  ProbeQuotientRule(c, &m, iga::BasisFunctionHandler<D>(l), rule);
  bool doubtful = m.quotient_defect;   // the system need not be regular: only the splines and files are judged
  int n = s.Count();
  Mat k(static_cast<size_t>(n), Vec(static_cast<size_t>(n), 0.0L)), mass = k;
  Vec rhs(static_cast<size_t>(n), 0.0L);
  for (int e = 0; e < m.Elements(); ++e) {
    auto global = m.Global(e);
    for (auto &p : m.Points(e, true)) for (int g : global) {
      rhs[g] += p.r[g] * p.weight * p.jac;     // source one
      for (int h : global) {
        ld t = 0;
        for (int d = 0; d < D; ++d) t += p.dx[d][g] * p.dx[d][h];
        k[g][h] += t * p.weight * p.jac;
        mass[g][h] += p.r[g] * p.r[h] * p.weight * p.jac;
      }
    }
  }
  auto boundary = BoundaryPoints<D>(s);
  auto with_bc = [&](Mat a, Vec b, const Vec &values) {
    for (size_t i = 0; i < boundary.size(); ++i) {
      std::fill(a[boundary[i]].begin(), a[boundary[i]].end(), 0.0L);
      a[boundary[i]][boundary[i]] = 1;
      b[boundary[i]] = values[i];
    }
    return Solve(a, b);
  };
  Vec zeros(boundary.size(), 0.0L);
  c->Count(vp::Cat("poisson_dim", D));
  iga::PoissonProblem<D> problem(l, rule);
  std::string log;
  int calls = doubtful ? 0 : r->Int(1, 3);
  arma::dvec steady;
  // Known finding: every call adds to the system that the calls before have left.
  Mat kept_k(k.size(), Vec(k.size(), 0.0L));
  Vec kept_rhs(rhs.size(), 0.0L);
  int made = 0;
  auto assemble = [&] { ++made; for (int i = 0; i < n; ++i) { kept_rhs[i] += rhs[i]; for (int j = 0; j < n; ++j) kept_k[i][j] += k[i][j]; } };
  auto compare = [&](const arma::dvec &got, const Vec &want, const Vec &kept, std::string what) {
    ld size = 1e-12L;
    for (ld x : want) size = std::max(size, std::fabs(x));
    for (ld x : kept) size = std::max(size, std::fabs(x));
    bool accumulated = static_cast<int>(got.n_elem) == n;
    for (int i = 0; accumulated && i < n; ++i) accumulated = Near(got(static_cast<arma::uword>(i)), kept[i], size, 1e-6L);
    if (accumulated && made > 1) {
      bool same = true;
      for (int i = 0; i < n; ++i) same = same && Near(got(static_cast<arma::uword>(i)), want[i], size, 1e-6L);
      if (!same) what = "iga-call-accumulates";
    }
    if (!c->Expect(static_cast<int>(got.n_elem) == n, what, [&] { return vp::Cat(got.n_elem, " entries, expected ", n); })) return;
    for (int i = 0; i < n; ++i) c->Expect(Near(got(static_cast<arma::uword>(i)), want[i], size, 1e-6L), what, [&] { return vp::Cat("entry ", i, ": ", got(static_cast<arma::uword>(i)), ", expected ", static_cast<double>(want[i])); });
  };
  for (int call = 0; call < calls; ++call) {
    if (r->Chance(0.5)) {
      log += " steady";
      c->Input(vp::Cat("Poisson problem with ", rule_n, "-point rule, calls:", log, " on ", gen::Describe(s)));
      steady = problem.GetSteadyStateSolution();
      assemble();
      Vec kept = with_bc(kept_k, kept_rhs, zeros);
      compare(steady, with_bc(k, rhs, zeros), kept, "iga-steady-solution");
      for (int b : boundary) { std::fill(kept_k[b].begin(), kept_k[b].end(), 0.0L); kept_k[b][b] = 1; kept_rhs[b] = 0; }
    } else {
      int steps = r->Int(1, 4);
      double dt = std::ldexp(1.0, -r->Int(0, 4));
      Vec values = zeros;
      std::shared_ptr<arma::dvec> dirichlet;
      if (r->Chance(0.5)) {
        dirichlet = std::make_shared<arma::dvec>(static_cast<arma::uword>(boundary.size()));
        for (size_t i = 0; i < boundary.size(); ++i) values[i] = (*dirichlet)(static_cast<arma::uword>(i)) = r->Real(-1, 1);
      }
      log += vp::Cat(" unsteady(", steps, " steps of ", dt, dirichlet ? ", Dirichlet" : "", ")");
      c->Input(vp::Cat("Poisson problem with ", rule_n, "-point rule, calls:", log, " on ", gen::Describe(s)));
      auto got = problem.GetUnsteadyStateSolution(dt, steps * dt, dirichlet);
      if (!c->Expect(static_cast<int>(got.size()) == steps + 1, "iga-time-steps", [&] { return vp::Cat(got.size(), " states, expected ", steps + 1); })) return;
      Vec u(static_cast<size_t>(n), 0.0L);
      compare(*got[0], u, u, "iga-initial-state");
      assemble();
      Mat left = k, kept_left = kept_k;
      Vec v = u;
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { left[i][j] += mass[i][j] / dt; kept_left[i][j] += mass[i][j] / dt; }
      for (int t = 1; t <= steps; ++t) {
        Vec b = rhs, kept_b = kept_rhs;
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { b[i] += mass[i][j] / dt * u[j]; kept_b[i] += mass[i][j] / dt * v[j]; }
        u = with_bc(left, b, values);
        v = with_bc(kept_left, kept_b, values);
        compare(*got[static_cast<size_t>(t)], u, v, "iga-unsteady-solution");
      }
    }
  }
  c->Distinct(gen::Signature(s) + log);
  // the solution as a spline and as a file
  arma::dvec solution(static_cast<arma::uword>(n));
  for (auto &x : solution) x = r->Real(-5, 5);
  iga::SolutionSpline<D> sol(l, solution);
  ref::Spline full = s;
  full.pdim = s.pdim + 1;
  for (int i = 0; i < n; ++i) full.cp[i].push_back(solution(static_cast<arma::uword>(i)));
  auto got = gen::Capture<D>(*sol.GetSolutionSpline(), true);
  c->Expect(gen::SameState(got, full), "iga-solution-spline", [&] { return gen::Describe(got); });
  std::vector<int> sc;
  for (int d = 0; d < D; ++d) sc.push_back(r->Int(1, D == 1 ? 25 : (D == 2 ? 9 : 4)));
  if (s.pdim <= 3) {
    std::string file = c->tmpdir + "/solution.vtk";
    unlink(file.c_str());
    // Known finding: the last sample lies behind the domain if the step is rounded up.
    bool beyond = false;
    for (int d = 0; d < D; ++d) { double a = static_cast<double>(s.First(d)), b = static_cast<double>(s.Last(d)), step = (b - a) / sc[d]; if (a + sc[d] * step > b) beyond = true; }
    try {
      iga::SolutionVTKWriter<D>().WriteSolutionToVTK(l, solution, {sc}, file);
    } catch (const std::range_error &e) {
      c->Expect(false, beyond ? "iga-solution-end" : "iga-solution-file", [&] { return vp::Cat("WriteSolutionToVTK throws: ", e.what()); });
      unlink(file.c_str());
      return;
    }
    std::ifstream in(file);
    std::string word;
    while (in >> word && word != "POINT_DATA") {}
    long count = 0, want = 1;
    in >> count;
    for (int x : sc) want *= x + 1;
    c->Expect(count == want, "iga-solution-file", [&] { return vp::Cat(count, " values, expected ", want); });
    while (in >> word && word != "default") {}
    std::vector<int> grid;
    for (int x : sc) grid.push_back(x + 1);
    for (long i = 0; i < want; ++i) {
      double v = 0;
      if (!c->Expect(static_cast<bool>(in >> v), "iga-solution-file", [&] { return vp::Cat("only ", i, " values"); })) break;
      auto idx = gen::Unflatten<D>(static_cast<int>(i), grid);
      Vec u;
      for (int d = 0; d < D; ++d) u.push_back(s.First(d) + (s.Last(d) - s.First(d)) * idx[d] / sc[d]);
      ld e = full.Eval(u)[s.pdim];
      c->Expect(Near(v, e, 5, 1e-5L), "iga-solution-value", [&] { return vp::Cat("value ", i, ": ", v, ", expected ", static_cast<double>(e)); });
    }
    unlink(file.c_str());
    c->Count("solution_files");
  }
}
}  // namespace

int main(int argc, char **argv) {
  vp::Ctx c;
  c.Parse(argc, argv);
  vp::RunCases(&c, [](vp::Ctx *x, vp::Rng *r) {
    int k = r->Int(0, 19);
    if (k == 0) Quadrature(x, r);
    else if (k < 7) Discretisation<1>(x, r);
    else if (k < 11) Discretisation<2>(x, r);
    else if (k < 12) Discretisation<3>(x, r);
    else if (k < 16) Poisson<1>(x, r);
    else if (k < 19 || r->Chance(0.7)) Poisson<2>(x, r);
    else Poisson<3>(x, r);
  });
  c.WriteReport();
  return 0;
}
