// Random lists of splines as the readers and writers exchange them, and comparison of what came back.
#ifndef IOGEN_H_
#define IOGEN_H_
#include <any>
#include <fstream>
#include "splgen.h"
namespace vf {
struct Item { int D = 1; Shape<1> s1; Shape<2> s2; Shape<3> s3; Shape<4> s4; bool rational = false; std::any any;
  std::string text() const { return D == 1 ? s1.text() : D == 2 ? s2.text() : D == 3 ? s3.text() : s4.text(); } };
template<int D> std::any to_any(const Shape<D> &s) { if (s.rational) return std::make_any<std::shared_ptr<spl::NURBS<D>>>(s.nurbs()); return std::make_any<std::shared_ptr<spl::BSpline<D>>>(s.bspline()); }
template<int D> Shape<D> io_shape(Rng &g, const GenOpt &o, bool rational, int scale) {
  auto s = shape<D>(g, rational, o);
  if (scale) {
    double f = scale == 1 ? 1000.0 : scale == 2 ? 123456.789 : 0.00390625;
    for (auto &x : s.P) for (auto &c : x) if (g.flip()) c *= f;
  }
  return s;
}
inline Item item(Rng &g, int dmin, int dmax, int pdmin, int pdmax, bool scales) {
  Item it; it.D = g.in(dmin, dmax); it.rational = g.flip();
  GenOpt o; o.pmin = g.in(0, 4) ? 1 : 0; o.pmax = it.D > 2 ? 2 : 3; o.spans = it.D == 1 ? 4 : it.D == 2 ? 3 : it.D == 3 ? 2 : 1; o.dimmin = pdmin; o.dimmax = pdmax; o.dyadic = g.in(0, 2) != 0;
  int scale = scales ? g.in(0, 3) : 0;
  switch (it.D) {
    case 1: it.s1 = io_shape<1>(g, o, it.rational, scale); it.any = to_any(it.s1); break;
    case 2: it.s2 = io_shape<2>(g, o, it.rational, scale); it.any = to_any(it.s2); break;
    case 3: it.s3 = io_shape<3>(g, o, it.rational, scale); it.any = to_any(it.s3); break;
    default: it.s4 = io_shape<4>(g, o, it.rational, scale); it.any = to_any(it.s4);
  }
  return it;
}
template<int D> void same_shape(const Shape<D> &e, const std::any &got, int n, double tol, double rel, double wscale) {
  Shape<D> r;
  if (e.rational) { auto p = std::any_cast<std::shared_ptr<spl::NURBS<D>>>(&got); require(p != nullptr, "spline ", n, " is not read back as a NURBS of dimension ", D); r = read<D>(**p, true); }
  else { auto p = std::any_cast<std::shared_ptr<spl::BSpline<D>>>(&got); require(p != nullptr, "spline ", n, " is not read back as a B-spline of dimension ", D); r = read<D>(**p, false); }
  require(r.p == e.p, "spline ", n, ": degrees ", list(r.p), " instead of ", list(e.p));
  require(r.dim == e.dim, "spline ", n, ": dimension of the points ", r.dim, " instead of ", e.dim);
  auto ok = [&](double a, double b, double f) { return std::isfinite(a) && std::fabs(a - b) <= tol * f + rel * std::fabs(b); };
  for (int d = 0; d < D; ++d) {
    require(r.U[d].size() == e.U[d].size(), "spline ", n, " direction ", d, ": ", r.U[d].size(), " knots instead of ", e.U[d].size());
    for (size_t i = 0; i < r.U[d].size(); ++i) require(ok(r.U[d][i], e.U[d][i], 1), "spline ", n, " direction ", d, ": knot ", i, " is ", r.U[d][i], " instead of ", e.U[d][i]);
  }
  require(r.n == e.n, "spline ", n, ": points per direction differ");
  for (long l = 0; l < e.total; ++l) {
    for (int c = 0; c < e.dim; ++c) require(ok(r.P[l][c], e.P[l][c], wscale > 0 ? (1 + std::fabs(e.P[l][c])) * 2 / std::min(1.0, e.w[l]) : 1), "spline ", n, ": control point ", l, " coordinate ", c, " is ", r.P[l][c], " instead of ", e.P[l][c]);
    if (e.rational) require(ok(r.w[l], e.w[l], 1), "spline ", n, ": weight ", l, " is ", r.w[l], " instead of ", e.w[l]);
  }
}
inline void same_item(const Item &e, const std::any &got, int n, double tol, double rel, double wscale) {
  switch (e.D) { case 1: same_shape<1>(e.s1, got, n, tol, rel, wscale); break; case 2: same_shape<2>(e.s2, got, n, tol, rel, wscale); break; case 3: same_shape<3>(e.s3, got, n, tol, rel, wscale); break; default: same_shape<4>(e.s4, got, n, tol, rel, wscale); }
}
inline std::string scratch(const std::string &suffix) { static int n = 0; return str("vf_", getpid(), "_", n++ % 4, suffix); }
struct Cleanup { std::vector<std::string> f; ~Cleanup() { for (auto &x : f) ::unlink(x.c_str()); } };
inline std::vector<std::string> lines_of(const std::string &f) { std::ifstream in(f); require(in.good(), "no output file ", f); std::vector<std::string> l; std::string s; while (std::getline(in, s)) l.push_back(s); return l; }
template<class W, class R> void roundtrip(Rng &g, const std::string &suffix, int dmin, int dmax, int pdmin, int pdmax, double tol, double rel, double wscale, int nmin) {
  std::vector<Item> in; int n = g.in(nmin, 3); std::string t; std::vector<std::any> a;
  for (int i = 0; i < n; ++i) { in.push_back(item(g, dmin, dmax, pdmin, pdmax, true)); t += in.back().text() + " | "; a.push_back(in.back().any); }
  note(t); std::string f = scratch(suffix); Cleanup c; c.f.push_back(f);
  W w; w.WriteFile(a, f.c_str()); R r; auto got = r.ReadFile(f.c_str());
  require(got.size() == in.size(), got.size(), " splines read, ", in.size(), " written");
  for (int i = 0; i < n; ++i) same_item(in[i], got[i], i, tol, rel, wscale);
  // the input is left alone
  for (int i = 0; i < n; ++i) same_item(in[i], a[i], i, 0, 0, 0);
}
}  // namespace vf
#endif
