#include "splgen.h"
#include "square_generator.h"
#include "surface_generator.h"
using namespace vf;
void square(Rng &g) {
  int p = g.in(1, 4), n = 2 * p + 2 + g.in(0, 6); bool def = g.in(0, 9) == 0; note(str("degree ", p, " knots ", n, def ? " default" : ""));
  std::unique_ptr<spl::BSpline<2>> sp = def ? spl::SquareGenerator().CreateSquare() : spl::SquareGenerator(Degree{p}, n).CreateSquare();
  auto s = read<2>(*sp, false); valid<2>(s); require(s.dim == 2, "dimension"); if (!def) require(s.p[0] == p && s.p[1] == p && static_cast<int>(s.U[0].size()) == n && static_cast<int>(s.U[1].size()) == n, "degree or number of knots");
  for (int d = 0; d < 2; ++d) { int q = s.p[d], m = static_cast<int>(s.U[d].size()), spans = m - 2 * q - 1; require(s.U[d].front() == 0 && s.U[d].back() == 1, "knot range"); for (int i = 0; i <= spans; ++i) require(near(s.U[d][q + i], static_cast<double>(i) / spans, 1e-12), "inner knots not equally spaced: ", list(s.U[d])); }
  for (long l = 0; l < s.total; ++l) { auto t = tuple_of<2>(s.n, l); for (int c = 0; c < 2; ++c) require(near(s.P[l][c], -1 + 2.0 * t[c] / (s.n[c] - 1), 1e-12), "control point ", list(t), " coordinate ", c, " is ", s.P[l][c]); }
  for (int t = 0; t < 5; ++t) { auto u = params<2>(g, s); auto v = sp->Evaluate(pc<2>(u), {0, 1}); for (int c = 0; c < 2; ++c) { require(v[c] >= -1 - 1e-12 && v[c] <= 1 + 1e-12, "outside the square"); if (u[c] == 0) require(near(v[c], -1, 1e-12), "left edge"); if (u[c] == 1) require(near(v[c], 1, 1e-12), "right edge"); } }
}
Shape<1> curve(Rng &g, int pmin, int pmax, int dim) { GenOpt o; o.pmin = pmin; o.pmax = pmax; o.spans = 3; o.dimmin = o.dimmax = dim; o.maxmult = 1; return shape<1>(g, true, o); }
void sum(Rng &g) {
  auto T = curve(g, 1, 3, 3), C = curve(g, 1, 3, 3); note(T.text() + " | " + C.text()); spl::SurfaceGenerator gen(T.nurbs(), C.nurbs()); spl::NURBS<2> sp(gen); auto s = read<2>(sp, true); valid<2>(s);
  require(s.p[0] == T.p[0] && s.p[1] == C.p[0] && s.U[0] == T.U[0] && s.U[1] == C.U[0], "degrees or knots"); require(s.n[0] == T.n[0] && s.n[1] == C.n[0] && s.dim == 3, "size");
  for (long l = 0; l < s.total; ++l) { auto t = tuple_of<2>(s.n, l); for (int c = 0; c < 3; ++c) require(near(s.P[l][c], T.P[t[0]][c] + C.P[t[1]][c], 1e-12), "control point ", list(t)); require(near(s.w[l], T.w[t[0]] * C.w[t[1]], 1e-12), "weight ", list(t)); }
  for (int k = 0; k < 4; ++k) { auto u = params<2>(g, s); auto a = T.ref({u[0]}), b = C.ref({u[1]}); auto v = sp.Evaluate(pc<2>(u), {0, 1, 2}); for (int c = 0; c < 3; ++c) require(near(v[c], static_cast<double>(a[c] + b[c]), 1e-9), "surface is not the sum of the curves at ", list(u)); }
}
typedef std::array<double, 3> V; V cross(const V &a, const V &b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; } double dot(const V &a, const V &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
void sweep(Rng &g, bool straight) {
  auto T = curve(g, straight ? 1 : 3, straight ? 1 : 3, 3), C = curve(g, 1, 2, 3); if (!straight) { T.p[0] = 3; }
  if (straight) { for (auto &w : T.w) w = 1; V a{g.in(-8, 8) / 4.0, g.in(-8, 8) / 4.0, g.in(1, 4) / 8.0}, b{1 + g.in(0, 8) / 4.0, g.in(-8, 8) / 4.0, g.in(-2, 2) / 8.0}; for (int i = 0; i < T.n[0]; ++i) { double m = 0; for (int j = 1; j <= T.p[0]; ++j) m += T.U[0][i + j]; m /= T.p[0]; for (int c = 0; c < 3; ++c) T.P[i][c] = a[c] + b[c] * m; } }
  int nb = T.p[0] + 1 + g.in(1, 6); std::vector<V> sc; for (int i = 0; i < nb; ++i) sc.push_back({g.in(1, 8) / 4.0, g.in(1, 8) / 4.0, g.in(1, 8) / 4.0}); note(T.text() + " | " + C.text() + str(" sections ", nb)); std::shared_ptr<spl::NURBS<2>> sp;
  // a rational curve in space almost never has an inflection, but the generator may refuse discontinuous frames
  spl::SurfaceGenerator gen(T.nurbs(), C.nurbs(), nb, sc); sp = std::make_shared<spl::NURBS<2>>(gen); auto s = read<2>(*sp, true);
  require(s.p[0] == T.p[0] && s.p[1] == C.p[0] && s.U[1] == C.U[0] && s.n[0] == nb && s.n[1] == C.n[0] && s.dim == 3, "degrees, knots or size");
  double lo = T.U[0].front(), hi = T.U[0].back(); valid<2>(s); require(near(s.U[0].front(), lo, 1e-12) && near(s.U[0].back(), hi, 1e-12), "trajectory direction spans ", s.U[0].front(), " ", s.U[0].back());
  for (int i = 1; i < nb - T.p[0]; ++i) { double m = 0; for (int j = i; j < i + T.p[0]; ++j) m += lo + j * (hi - lo) / (nb - 1); require(near(s.U[0][T.p[0] + i], m / T.p[0], 1e-10), "inner knot ", i); }
  V prev{0, 0, 1};
  for (int i = 0; i < nb; ++i) {
    double u = std::min(hi, lo + i * (hi - lo) / (nb - 1)); auto t = T.ref({u}), d1 = T.ref({u}, {1}), d2 = T.ref({u}, {2}); V x, dd, z; for (int c = 0; c < 3; ++c) { x[c] = d1[c]; dd[c] = d2[c]; } double nx = std::sqrt(dot(x, x)); if (nx < 1e-3) return; V cr = cross(x, dd); double nc = std::sqrt(dot(cr, cr)); for (auto &q : x) q /= nx;
    if (straight) { double m = dot(prev, x); for (int c = 0; c < 3; ++c) z[c] = prev[c] - m * x[c]; double n = std::sqrt(dot(z, z)); if (n < 1e-3) return; for (auto &q : z) q /= n; if (nc > 0 && nc < 1e-6) { /* rounding decides the branch */ auto p0 = s.P[i]; (void) p0; } }
    else { if (nc < 1e-3) return; z = cr; for (auto &q : z) q /= nc; }
    V y = cross(z, x); prev = z;
    for (int j = 0; j < s.n[1]; ++j) { long l = static_cast<long>(j) * nb + i; for (int c = 0; c < 3; ++c) { double e = static_cast<double>(t[c]) + x[c] * sc[i][0] * C.P[j][0] + y[c] * sc[i][1] * C.P[j][1] + z[c] * sc[i][2] * C.P[j][2]; require(near(s.P[l][c], e, 1e-6), "section ", i, " point ", j, " coordinate ", c, " is ", s.P[l][c], " instead of ", e); } { double ew = C.w[j] * static_cast<double>(T.homog({u}, {0})[3]); require(near(s.w[l], ew, 1e-9), "weight of section ", i, " point ", j, " is ", s.w[l], " instead of ", ew); } }
  }
}
int main(int c, char **v) { return drive(c, v, {{"square", square, 100, 1000}, {"sum", sum, 60, 1500}, {"sweep", [](Rng &g) { sweep(g, false); }, 80, 2000}, {"sweep along a line", [](Rng &g) { sweep(g, true); }, 80, 2000}}); }
