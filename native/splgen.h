// Random splines and an independent reference evaluation for the native contract harnesses.
#ifndef SPLGEN_H_
#define SPLGEN_H_
#include "vf.h"
#include "b_spline.h"
#include "nurbs.h"
namespace vf {
template<int D> struct Shape {
  std::array<int, D> p; std::array<std::vector<double>, D> U; std::array<int, D> n; int dim = 0; long total = 0; bool rational = false;
  std::vector<std::vector<double>> P; std::vector<double> w;
  KnotVectors<D> kv() const {
    KnotVectors<D> k;
    for (int i = 0; i < D; ++i) { std::vector<ParamCoord> c; for (double x : U[i]) c.emplace_back(x); k[i] = std::make_shared<baf::KnotVector>(c); }
    return k;
  }
  std::array<Degree, D> deg() const { std::array<Degree, D> d; for (int i = 0; i < D; ++i) d[i] = Degree{p[i]}; return d; }
  std::vector<baf::ControlPoint> cps() const { std::vector<baf::ControlPoint> c; for (const auto &x : P) c.emplace_back(x); return c; }
  std::shared_ptr<spl::BSpline<D>> bspline() const { return std::make_shared<spl::BSpline<D>>(kv(), deg(), cps()); }
  std::shared_ptr<spl::NURBS<D>> nurbs() const { return std::make_shared<spl::NURBS<D>>(kv(), deg(), cps(), w); }
  std::string text() const {
    std::string s = str("D=", D, " p=", list(p), " U=");
    for (int i = 0; i < D; ++i) s += list(U[i]);
    s += str(" dim=", dim, " P=");
    for (const auto &x : P) { s += list(x); if (s.size() > 3000) { s += "..."; break; } }
    if (rational) s += " w=" + list(w);
    return s;
  }
  // reference: rational tensor sum of derivatives by the quotient rule in long double
  std::vector<LD> homog(const std::array<double, D> &u, const std::array<int, D> &k) const {
    std::vector<LD> r(dim + 1, 0); std::array<int, D> id{};
    std::array<std::vector<LD>, D> B;
    for (int i = 0; i < D; ++i) { B[i].resize(n[i]); for (int j = 0; j < n[i]; ++j) B[i][j] = dN(U[i], j, p[i], u[i], k[i]); }
    for (long l = 0; l < total; ++l) {
      LD b = 1; for (int i = 0; i < D; ++i) b *= B[i][id[i]];
      LD ww = rational ? w[l] : 1;
      if (b != 0) { for (int c = 0; c < dim; ++c) r[c] += b * ww * P[l][c]; r[dim] += b * ww; }
      for (int i = 0; i < D; ++i) { if (++id[i] < n[i]) break; id[i] = 0; }
    }
    return r;
  }
  std::vector<LD> ref(const std::array<double, D> &u, const std::array<int, D> &k) const {
    auto A = homog(u, k);
    if (!rational) { A.resize(dim); return A; }
    std::array<int, D> zero{}; LD W0 = homog(u, zero)[dim];
    // C^(k) = (A^(k) - sum_{0<j<=k} binom(k,j) W^(j) C^(k-j)) / W
    std::vector<LD> c(A.begin(), A.end() - 1);
    std::array<int, D> j{};
    while (true) {
      int i = 0; for (; i < D; ++i) { if (++j[i] <= k[i]) break; j[i] = 0; }
      if (i == D) break;
      LD bin = 1; std::array<int, D> kj; for (int q = 0; q < D; ++q) { kj[q] = k[q] - j[q]; for (int t = 1; t <= j[q]; ++t) bin = bin * (k[q] - t + 1) / t; }
      LD Wj = homog(u, j)[dim]; auto Cj = ref(u, kj);
      for (int q = 0; q < dim; ++q) c[q] -= bin * Wj * Cj[q];
    }
    for (auto &x : c) x /= W0;
    return c;
  }
  std::vector<LD> ref(const std::array<double, D> &u) const { return ref(u, std::array<int, D>{}); }
};
struct GenOpt { int pmin = 0, pmax = 3, spans = 3, dimmin = 1, dimmax = 3; bool dyadic = true; bool shifted = true; int maxmult = 100; int wlo = 1; };
inline std::vector<double> knots(Rng &g, int p, const GenOpt &o) {
  double u = o.shifted ? g.in(-3, 3) : 0; std::vector<double> U(p + 1, u);
  int spans = g.in(1, o.spans);
  for (int s = 1; s <= spans; ++s) {
    u += o.dyadic ? g.in(1, 8) / 4.0 : g.real(0.05, 2);
    int m = s == spans ? p + 1 : (g.flip() ? 1 : g.in(1, std::max(1, std::min(p, o.maxmult))));
    for (int i = 0; i < m; ++i) U.push_back(u);
  }
  return U;
}
template<int D> Shape<D> shape(Rng &g, bool rational, const GenOpt &o) {
  Shape<D> s; s.rational = rational; s.total = 1;
  for (int i = 0; i < D; ++i) { s.p[i] = g.in(o.pmin, o.pmax); s.U[i] = knots(g, s.p[i], o); s.n[i] = static_cast<int>(s.U[i].size()) - s.p[i] - 1; s.total *= s.n[i]; }
  s.dim = g.in(o.dimmin, o.dimmax);
  for (long l = 0; l < s.total; ++l) {
    std::vector<double> c; for (int i = 0; i < s.dim; ++i) c.push_back(o.dyadic ? g.in(-40, 40) / 8.0 : g.real(-5, 5));
    s.P.push_back(c); s.w.push_back(rational ? (o.dyadic ? g.in(2, 16) / 8.0 : g.real(0.3, 2)) : 1.0);
  }
  return s;
}
// a parameter of direction i: ends, knots, just inside, and interior points
template<int D> double param(Rng &g, const Shape<D> &s, int i) {
  const auto &U = s.U[i];
  switch (g.in(0, 5)) {
    case 0: return U.front();
    case 1: return U.back();
    case 2: return U[g.in(0, static_cast<int>(U.size()) - 1)];
    default: { int k = g.in(0, 64); return k == 64 ? U.back() : U.front() + (U.back() - U.front()) * k / 64.0; }
  }
}
template<int D> std::array<double, D> params(Rng &g, const Shape<D> &s) { std::array<double, D> u; for (int i = 0; i < D; ++i) u[i] = param(g, s, i); return u; }
template<int D> std::array<ParamCoord, D> pc(const std::array<double, D> &u) { std::array<ParamCoord, D> c; for (int i = 0; i < D; ++i) c[i] = ParamCoord{u[i]}; return c; }
inline std::vector<int> alldims(int n) { std::vector<int> d; for (int i = 0; i < n; ++i) d.push_back(i); return d; }
template<int D> std::array<int, D> tuple_of(const std::array<int, D> &n, long l) { std::array<int, D> t; for (int i = 0; i < D; ++i) { t[i] = l % n[i]; l /= n[i]; } return t; }
inline std::vector<double> knots_of(const std::shared_ptr<baf::KnotVector> &k) { std::vector<double> v; for (size_t i = 0; i < k->GetNumberOfKnots(); ++i) v.push_back(k->GetKnot(i).get()); return v; }
// read a spline object back into a Shape
template<int D, class S> Shape<D> read(const S &sp, bool rational) {
  Shape<D> s; s.rational = rational; s.total = 1; auto n = sp.GetPointsPerDirection();
  for (int i = 0; i < D; ++i) { s.p[i] = sp.GetDegree(i).get(); s.U[i] = knots_of(sp.GetKnotVector(i)); s.n[i] = n[i]; s.total *= n[i]; require(s.n[i] == static_cast<int>(s.U[i].size()) - s.p[i] - 1, "direction ", i, " has ", s.n[i], " points for ", s.U[i].size(), " knots and degree ", s.p[i]); }
  require(sp.GetNumberOfControlPoints() == s.total, "number of control points ", sp.GetNumberOfControlPoints(), " is not the product ", s.total);
  s.dim = sp.GetPointDim();
  for (long l = 0; l < s.total; ++l) { auto t = tuple_of<D>(s.n, l); std::vector<double> c; for (int i = 0; i < s.dim; ++i) c.push_back(sp.GetControlPoint(t, i)); s.P.push_back(c); s.w.push_back(sp.GetWeight(t)); }
  return s;
}
template<int D> void valid(const Shape<D> &s) {
  for (int i = 0; i < D; ++i) {
    int p = s.p[i]; const auto &U = s.U[i];
    require(static_cast<int>(U.size()) >= 2 * p + 2, "too few knots");
    for (size_t j = 1; j < U.size(); ++j) require(U[j - 1] <= U[j], "knots decrease: ", list(U));
    for (int j = 0; j <= p; ++j) require(U[j] == U[0] && U[U.size() - 1 - j] == U.back(), "not clamped: ", list(U));
  }
  for (const auto &x : s.P) for (double v : x) require(std::isfinite(v), "control point not finite");
  for (double v : s.w) require(std::isfinite(v) && v > 0, "weight not positive: ", v);
}
// geometry of sp (as stored and as evaluated) against the reference shape on a set of parameters of the given box
template<int D, class S> void same_geometry(Rng &g, const S &sp, const Shape<D> &ref, const Shape<D> &box, int samples, double tol, const char *what) {
  auto now = read<D>(sp, ref.rational);
  require(now.dim == ref.dim, what, ": point dimension changed");
  for (int t = 0; t < samples; ++t) {
    auto u = params<D>(g, box);
    auto e = ref.ref(u); auto v = sp.Evaluate(pc<D>(u), alldims(ref.dim)); auto m = now.ref(u);
    for (int c = 0; c < ref.dim; ++c) {
      require(near(v[c], static_cast<double>(e[c]), tol), what, ": at u=", list(u), " coordinate ", c, " is ", v[c], " expected ", static_cast<double>(e[c]));
      require(near(static_cast<double>(m[c]), static_cast<double>(e[c]), tol), what, ": stored net at u=", list(u), " coordinate ", c, " gives ", static_cast<double>(m[c]), " expected ", static_cast<double>(e[c]));
    }
  }
}
inline std::vector<double> distinct(const std::vector<double> &U) { std::vector<double> d(U); d.erase(std::unique(d.begin(), d.end()), d.end()); return d; }
inline int mult(const std::vector<double> &U, double x) { return static_cast<int>(std::count(U.begin(), U.end(), x)); }
}  // namespace vf
#endif
