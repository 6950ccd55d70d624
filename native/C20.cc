#include "splgen.h"
#include "projection.h"
using namespace vf;
template<int D> Shape<D> graph(Rng &g, bool rational, double amp, int pmin) {
  GenOpt o; o.pmin = pmin; o.pmax = 3; o.spans = D == 1 ? 4 : 3; o.dimmin = o.dimmax = D + 1; o.maxmult = pmin > 1 ? 1 : 100; auto s = shape<D>(g, false, o); s.rational = rational; double wd = 1; (void) wd;
  for (long l = 0; l < s.total; ++l) { auto t = tuple_of<D>(s.n, l); for (int d = 0; d < D; ++d) { double m = 0; for (int j = 1; j <= s.p[d]; ++j) m += s.U[d][t[d] + j]; s.P[l][d] = m / s.p[d] * 2; } s.P[l][D] = g.real(-amp, amp); s.w[l] = 1; }
  return s;
}
template<int D> std::vector<double> point(Rng &g, const Shape<D> &s, double off) { auto u = params<D>(g, s); auto e = s.ref(u); std::vector<double> q; for (auto x : e) q.push_back(static_cast<double>(x) + g.real(-off, off)); return q; }
template<int D> void inrange(const Shape<D> &s, const std::array<ParamCoord, D> &r) { for (int d = 0; d < D; ++d) require(r[d].get() >= s.U[d].front() && r[d].get() <= s.U[d].back(), "parameter ", d, " = ", r[d].get(), " outside ", s.U[d].front(), " ", s.U[d].back()); }
template<int D> std::shared_ptr<spl::Spline<D>> mk(const Shape<D> &s, bool r) { if (r) return s.nurbs(); return s.bspline(); }
void curve(Rng &g, bool smooth) {
  bool r = g.flip(); auto s = graph<1>(g, r, smooth ? 0.2 : 3, smooth ? 2 : 1); auto q = point<1>(g, s, smooth ? 0.2 : 4); note(s.text() + " point " + list(q)); double tol = g.flip() ? 1e-4 : 1e-6; auto sp = mk<1>(s, r); auto res = spl::Projection<1>::ProjectionOnCurve(q, sp, tol); inrange<1>(s, res);
  if (!smooth) return; double worst = 0; for (int k = 0; k <= 60; ++k) { double u = s.U[0].front() + (s.U[0].back() - s.U[0].front()) * k / 60.0; auto c = s.ref({u}), d = s.ref({u}, {1}), dd = s.ref({u}, {2}); LD a = 0, b = 0, e = 0; for (int i = 0; i < 2; ++i) { a += dd[i] * dd[i]; b += (q[i] - c[i]) * (q[i] - c[i]); e += d[i] * d[i]; } LD near_part = b < 4 ? std::sqrt(a * b) / e : 0; worst = std::max(worst, static_cast<double>(near_part)); }
  if (worst > 0.5) return; double u = res[0].get(); auto c = s.ref({u}), d = s.ref({u}, {1}); double dt = 0, n1 = 0; for (int i = 0; i < 2; ++i) { dt += static_cast<double>(d[i]) * (q[i] - static_cast<double>(c[i])); n1 += static_cast<double>(d[i] * d[i]); }
  bool lo = u == s.U[0].front(), hi = u == s.U[0].back(); double sl = 10 * tol * n1; if (lo) require(dt <= sl, "clamped to the start although the point lies ahead: ", dt); else if (hi) require(dt >= -sl, "clamped to the end although the point lies behind: ", dt); else require(std::fabs(dt) <= sl, "offset is not orthogonal: ", dt, " at ", u, " tolerance ", tol);
}
void surface(Rng &g, bool smooth) {
  bool r = g.flip(); auto s = graph<2>(g, r, smooth ? 0.05 : 2, smooth ? 2 : 1); auto q = point<2>(g, s, smooth ? 0.1 : 3); int a = g.in(2, 10), b = g.in(2, 10); note(s.text() + " point " + list(q) + str(" scattering ", a, " ", b)); double tol = 1e-5; auto sp = mk<2>(s, r); auto res = spl::Projection<2>::ProjectionOnSurface(q, sp, {a, b}, tol); inrange<2>(s, res);
  if (!smooth) return; double worst = 0; for (int k = 0; k < 64; ++k) { std::array<double, 2> u; for (int d = 0; d < 2; ++d) u[d] = s.U[d].front() + (s.U[d].back() - s.U[d].front()) * (d ? k / 8 : k % 8) / 7.0; for (auto dd : {s.ref(u, {2, 0}), s.ref(u, {0, 2}), s.ref(u, {1, 1})}) worst = std::max(worst, std::fabs(static_cast<double>(dd[2]))); } if (worst > 1.2) return;
  std::array<double, 2> u{res[0].get(), res[1].get()}; auto c = s.ref(u); for (int d = 0; d < 2; ++d) { std::array<int, 2> k{}; k[d] = 1; auto t = s.ref(u, k); double dt = 0, n1 = 0; for (int i = 0; i < 3; ++i) { dt += static_cast<double>(t[i]) * (q[i] - static_cast<double>(c[i])); n1 += static_cast<double>(t[i] * t[i]); } if (u[0] != s.U[0].front() && u[0] != s.U[0].back() && u[1] != s.U[1].front() && u[1] != s.U[1].back()) require(std::fabs(dt) <= 30 * tol * n1, "offset is not orthogonal to direction ", d, ": ", dt, " at ", list(u)); }
}
int main(int c, char **v) { return drive(c, v, {{"curve range", [](Rng &g) { curve(g, false); }, 40, 400}, {"curve foot", [](Rng &g) { curve(g, true); }, 60, 2000}, {"surface range", [](Rng &g) { surface(g, false); }, 4, 60}, {"surface foot", [](Rng &g) { surface(g, true); }, 20, 600}}); }
