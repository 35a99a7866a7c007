// Independent reference model of tensor-product (rational) B-splines in long double arithmetic.
// Values come from de Boor's triangular algorithm on homogeneous control points, derivatives from differenced control
// points and the quotient rule: nothing is shared with the basis-function recursion of the library.
#ifndef REF_H_
#define REF_H_

#include <algorithm>
#include <cmath>
#include <string>
#include <vector>

namespace ref {
using ld = long double;

// Span index i with u_i <= u < u_{i+1}; at the right end the last non-empty span.
inline int Span(const std::vector<ld> &k, int p, ld u) {
  int n = static_cast<int>(k.size()) - p - 1;
  int lo = p;
  for (int i = p; i < n; ++i) {
    if (k[i] < k[i + 1]) {
      if (k[i] <= u) lo = i;
    }
  }
  return lo;
}

// one-dimensional B-spline function with vector valued coefficients (stride m)
struct Curve {
  int p = 0, m = 1;
  std::vector<ld> k;
  std::vector<std::vector<ld>> c;  // n coefficients

  // derivative curve; coefficients over empty supports are zero
  Curve Derivative() const {
    Curve d;
    d.m = m;
    d.p = p - 1;
    if (p == 0) {
      d = *this;
      for (auto &x : d.c) std::fill(x.begin(), x.end(), 0.0L);
      return d;
    }
    d.k.assign(k.begin() + 1, k.end() - 1);
    for (size_t i = 0; i + 1 < c.size(); ++i) {
      ld den = k[i + p + 1] - k[i + 1];
      std::vector<ld> v(static_cast<size_t>(m), 0.0L);
      if (den > 0) {
        for (int j = 0; j < m; ++j) v[j] = p * (c[i + 1][j] - c[i][j]) / den;
      }
      d.c.push_back(v);
    }
    return d;
  }
  // value at u on span s (index in k)
  std::vector<ld> Eval(ld u, int s) const {
    std::vector<std::vector<ld>> d(c.begin() + (s - p), c.begin() + s + 1);
    for (int r = 1; r <= p; ++r) {
      for (int j = p; j >= r; --j) {
        ld den = k[j + 1 + s - r] - k[j + s - p];
        ld a = den != 0 ? (u - k[j + s - p]) / den : 0.0L;
        for (int q = 0; q < m; ++q) d[j][q] = (1 - a) * d[j - 1][q] + a * d[j][q];
      }
    }
    return d[p];
  }
};

struct Value { std::vector<ld> v, scale; };  // value and magnitude of the terms it is made of

struct Spline {
  int dim = 1, pdim = 1;
  bool rational = false;
  std::vector<int> deg, n;
  std::vector<std::vector<ld>> knots;
  std::vector<std::vector<ld>> cp;  // cartesian control points, first direction fastest
  std::vector<ld> w;                // weights (1 for polynomial splines)

  int Count() const { int t = 1; for (int x : n) t *= x; return t; }
  ld First(int d) const { return knots[d].front(); }
  ld Last(int d) const { return knots[d].back(); }

  ld MaxAbs() const {
    ld m = 0;
    for (auto &q : cp) for (ld x : q) m = std::max(m, std::fabs(x));
    return m;
  }
  ld MinWeight() const { ld m = std::fabs(w[0]); for (ld x : w) m = std::min(m, std::fabs(x)); return m; }
  ld MaxWeight() const { ld m = w[0]; for (ld x : w) m = std::max(m, x); return m; }

  // homogeneous derivative of order der (one entry per direction) at u: value and scale, components 0..pdim (last: w)
  Value Homogeneous(const std::vector<ld> &u, const std::vector<int> &der) const {
    int m = pdim + 1;
    // layout: array over all directions of vectors
    std::vector<std::vector<ld>> data(cp.size(), std::vector<ld>(static_cast<size_t>(m)));
    for (size_t i = 0; i < cp.size(); ++i) {
      for (int j = 0; j < pdim; ++j) data[i][j] = cp[i][j] * w[i];
      data[i][pdim] = w[i];
    }
    std::vector<std::vector<ld>> mag = data;
    for (auto &q : mag) for (auto &x : q) x = std::fabs(x);
    // contract the last direction repeatedly
    for (int d = dim - 1; d >= 0; --d) {
      size_t inner = 1;
      for (int e = 0; e < d; ++e) inner *= static_cast<size_t>(n[e]);
      std::vector<std::vector<ld>> nd(inner), nm(inner);
      int s = Span(knots[d], deg[d], u[d]);
      for (size_t i = 0; i < inner; ++i) {
        Curve c;
        c.p = deg[d];
        c.m = m;
        c.k = knots[d];
        Curve g = c;
        for (int j = 0; j < n[d]; ++j) {
          c.c.push_back(data[i + inner * j]);
          g.c.push_back(mag[i + inner * j]);
        }
        int span = s;
        std::vector<ld> scale(static_cast<size_t>(m), 0.0L);
        bool zero = false;
        ld growth = 1;
        for (int r = 0; r < der[d]; ++r) {
          if (c.p == 0) { zero = true; break; }
          // growth of magnitudes under differencing on the local support
          ld f = 0;
          for (int q = span - c.p; q < span; ++q) {
            ld den = c.k[q + c.p + 1] - c.k[q + 1];
            if (den > 0) f = std::max(f, 2 * c.p / den);
          }
          growth *= f;
          c = c.Derivative();
          span -= 1;
        }
        for (int q = s - deg[d]; q <= s; ++q)
          for (int j = 0; j < m; ++j) scale[j] = std::max(scale[j], g.c[q][j] * growth);
        nd[i] = zero ? std::vector<ld>(static_cast<size_t>(m), 0.0L) : c.Eval(u[d], span);
        nm[i] = scale;
      }
      data = nd;
      mag = nm;
    }
    return {data[0], mag[0]};
  }

  static ld Binom(int a, int b) { ld r = 1; for (int i = 0; i < b; ++i) r = r * (a - i) / (i + 1); return r; }

  // cartesian derivative
  Value Derivative(const std::vector<ld> &u, const std::vector<int> &der) const {
    Value h = Homogeneous(u, der);
    if (!rational) {
      h.v.resize(pdim);
      h.scale.resize(pdim);
      return h;
    }
    ld w0 = Homogeneous(u, std::vector<int>(static_cast<size_t>(dim), 0)).v[pdim];
    std::vector<ld> v(h.v.begin(), h.v.begin() + pdim), sc(h.scale.begin(), h.scale.begin() + pdim);
    std::vector<int> i(static_cast<size_t>(dim), 0);
    while (true) {
      int d = 0;
      while (d < dim && i[d] == der[d]) { i[d] = 0; ++d; }
      if (d == dim) break;
      ++i[d];
      ld b = 1;
      std::vector<int> rest(static_cast<size_t>(dim));
      for (int e = 0; e < dim; ++e) { b *= Binom(der[e], i[e]); rest[e] = der[e] - i[e]; }
      Value wi = Homogeneous(u, i);
      Value c = Derivative(u, rest);
      for (int j = 0; j < pdim; ++j) {
        v[j] -= b * wi.v[pdim] * c.v[j];
        sc[j] += b * wi.scale[pdim] * c.scale[j];
      }
    }
    for (int j = 0; j < pdim; ++j) { v[j] /= w0; sc[j] /= w0; }
    return {v, sc};
  }
  std::vector<ld> Eval(const std::vector<ld> &u) const {
    Value h = Homogeneous(u, std::vector<int>(static_cast<size_t>(dim), 0));
    std::vector<ld> v(static_cast<size_t>(pdim));
    for (int j = 0; j < pdim; ++j) v[j] = h.v[j] / h.v[pdim];
    return v;
  }
  ld Weight(const std::vector<ld> &u) const {
    return Homogeneous(u, std::vector<int>(static_cast<size_t>(dim), 0)).v[pdim];
  }
};

inline int Multiplicity(const std::vector<ld> &k, ld u) { return static_cast<int>(std::count(k.begin(), k.end(), u)); }
inline std::vector<ld> Unique(std::vector<ld> k) { k.erase(std::unique(k.begin(), k.end()), k.end()); return k; }
}  // namespace ref
#endif  // REF_H_

#ifndef REF_FIT_H_
#define REF_FIT_H_
namespace ref {
// Re-expresses the spline `s` in direction d over the (larger) spline space given by knots/degree: homogeneous
// interpolation at the Greville abscissae, solved by Gaussian elimination with partial pivoting.  The result is exact up
// to rounding when the new space contains the old one (knot insertion, degree elevation).
inline Spline Fit(const Spline &s, int d, const std::vector<ld> &knots, int p) {
  int n = static_cast<int>(knots.size()) - p - 1, m = s.pdim + 1;
  std::vector<ld> g(static_cast<size_t>(n));
  for (int i = 0; i < n; ++i) {
    ld x = 0;
    for (int j = 1; j <= p; ++j) x += knots[i + j];
    g[i] = p > 0 ? x / p : (knots[i] + knots[i + 1]) / 2;
    g[i] = std::min(std::max(g[i], knots.front()), knots.back());
  }
  // collocation matrix
  std::vector<std::vector<ld>> a(static_cast<size_t>(n), std::vector<ld>(static_cast<size_t>(n), 0.0L));
  Curve c;
  c.p = p;
  c.m = n;
  c.k = knots;
  for (int i = 0; i < n; ++i) {
    std::vector<ld> e(static_cast<size_t>(n), 0.0L);
    e[i] = 1;
    c.c.push_back(e);
  }
  for (int i = 0; i < n; ++i) a[i] = c.Eval(g[i], Span(knots, p, g[i]));
  // right hand sides: values of the old spline along direction d
  size_t inner = 1, outer = 1;
  for (int e = 0; e < d; ++e) inner *= static_cast<size_t>(s.n[e]);
  for (int e = d + 1; e < s.dim; ++e) outer *= static_cast<size_t>(s.n[e]);
  std::vector<std::vector<ld>> rhs(static_cast<size_t>(n), std::vector<ld>(inner * outer * m));
  for (size_t o = 0; o < outer; ++o)
    for (size_t i = 0; i < inner; ++i) {
      Curve q;
      q.p = s.deg[d];
      q.m = m;
      q.k = s.knots[d];
      for (int j = 0; j < s.n[d]; ++j) {
        size_t f = i + inner * (j + s.n[d] * o);
        std::vector<ld> h(static_cast<size_t>(m));
        for (int x = 0; x < s.pdim; ++x) h[x] = s.cp[f][x] * s.w[f];
        h[s.pdim] = s.w[f];
        q.c.push_back(h);
      }
      for (int j = 0; j < n; ++j) {
        auto v = q.Eval(g[j], Span(q.k, q.p, g[j]));
        for (int x = 0; x < m; ++x) rhs[j][(o * inner + i) * m + x] = v[x];
      }
    }
  for (int col = 0; col < n; ++col) {
    int piv = col;
    for (int r = col + 1; r < n; ++r) if (std::fabs(a[r][col]) > std::fabs(a[piv][col])) piv = r;
    std::swap(a[col], a[piv]);
    std::swap(rhs[col], rhs[piv]);
    for (int r = 0; r < n; ++r) {
      if (r == col || a[r][col] == 0) continue;
      ld f = a[r][col] / a[col][col];
      for (int q = col; q < n; ++q) a[r][q] -= f * a[col][q];
      for (size_t q = 0; q < rhs[r].size(); ++q) rhs[r][q] -= f * rhs[col][q];
    }
  }
  Spline t = s;
  t.deg[d] = p;
  t.knots[d] = knots;
  t.n[d] = n;
  t.cp.assign(static_cast<size_t>(t.Count()), std::vector<ld>(static_cast<size_t>(s.pdim)));
  t.w.assign(static_cast<size_t>(t.Count()), 1.0L);
  for (size_t o = 0; o < outer; ++o)
    for (size_t i = 0; i < inner; ++i)
      for (int j = 0; j < n; ++j) {
        size_t f = i + inner * (j + n * o);
        ld w = rhs[j][(o * inner + i) * m + s.pdim] / a[j][j];
        if (!s.rational) w = 1;
        t.w[f] = w;
        for (int x = 0; x < s.pdim; ++x) t.cp[f][x] = rhs[j][(o * inner + i) * m + x] / a[j][j] / w;
      }
  // doubles, as the library would store them
  for (auto &q : t.cp) for (auto &x : q) x = static_cast<double>(x);
  for (auto &x : t.w) x = static_cast<double>(x);
  return t;
}
inline std::vector<ld> WithKnot(std::vector<ld> k, ld u, int times) {
  for (int i = 0; i < times; ++i) k.insert(std::upper_bound(k.begin(), k.end(), u), u);
  return k;
}
inline std::vector<ld> Elevated(const std::vector<ld> &k) {
  std::vector<ld> r;
  for (ld u : Unique(k)) for (int i = 0; i <= Multiplicity(k, u); ++i) r.push_back(u);
  return r;
}
}  // namespace ref
#endif  // REF_FIT_H_
