#include "splgen.h"
using namespace vf;
template<int D> bool identical(const Shape<D> &a, const Shape<D> &b) { return a.U == b.U && a.p == b.p && a.n == b.n && a.P == b.P && a.w == b.w; }
// largest distance of two splines of the same parameter box, on a grid
template<int D> double moved(Rng &g, const Shape<D> &a, const Shape<D> &b) {
  double m = 0; for (int t = 0; t < (D == 1 ? 40 : 60); ++t) { auto u = params<D>(g, a); auto x = a.ref(u), y = b.ref(u); LD q = 0; for (int c = 0; c < a.dim; ++c) q += (x[c] - y[c]) * (x[c] - y[c]); double d = static_cast<double>(sqrtl(q)); if (!(d <= 1e300)) return 1e300; m = std::max(m, d); } return m;
}
template<int D, class S> void undo(Rng &g, S &sp, const Shape<D> &s0) {
  int q = g.in(0, D - 1); int p = s0.p[q]; const auto &U = s0.U[q]; double u = U.front() + (U.back() - U.front()) * g.in(1, 31) / 32.0; if (g.in(0, 2) == 0) u = U[g.in(0, static_cast<int>(U.size()) - 1)];
  if (u <= U.front() || u >= U.back() || mult(U, u) >= p) return;
  int m = g.in(1, p - mult(U, u)), k = g.in(1, m); note(s0.text() + str(" insert ", u, " x", m, " remove x", k, " in ", q));
  sp.InsertKnot(ParamCoord{u}, q, m); size_t c = sp.RemoveKnot(ParamCoord{u}, q, 1e-7, k);
  require(static_cast<int>(c) == k, "removed ", c, " of ", k, " just inserted knots"); auto now = read<D>(sp, s0.rational); valid<D>(now);
  auto V = U; for (int i = 0; i < m - k; ++i) V.insert(std::upper_bound(V.begin(), V.end(), u), u); require(now.U[q] == V, "knots after removal ", list(now.U[q]));
  for (int i = 0; i < D; ++i) if (i != q) require(now.U[i] == s0.U[i], "knots of another direction changed"); require(now.p == s0.p, "degree changed");
  same_geometry<D>(g, sp, s0, s0, 6, 1e-7, "after removal of an inserted knot");
}
template<int D, class S> void generic(Rng &g, S &sp, const Shape<D> &s0) {
  int q = g.in(0, D - 1); std::vector<double> in; for (double x : s0.U[q]) if (x > s0.U[q].front() && x < s0.U[q].back()) in.push_back(x); if (in.empty()) return;
  double u = in[g.in(0, static_cast<int>(in.size()) - 1)]; double tol = g.flip() ? 1e-6 : g.flip() ? 0.05 : 0.6; int k = g.in(1, mult(s0.U[q], u));
  note(s0.text() + str(" remove ", u, " x", k, " in ", q, " tol ", tol));
  size_t c = sp.RemoveKnot(ParamCoord{u}, q, tol, k); auto now = read<D>(sp, s0.rational);
  require(static_cast<int>(c) <= k, "count ", c, " above the request"); require(mult(now.U[q], u) == mult(s0.U[q], u) - static_cast<int>(c), "reported ", c, " removals but the multiplicity is now ", mult(now.U[q], u));
  for (int i = 0; i < D; ++i) if (i != q) require(now.U[i] == s0.U[i], "knots of another direction changed");
  if (c == 0) require(identical<D>(now, s0), "refused removal changed the spline");
  else { double d = moved<D>(g, s0, now), mw = 1e300, xw = 0; for (double x : s0.w) { mw = std::min(mw, x); xw = std::max(xw, x); } require(d <= tol * 4 * static_cast<double>(c), "accepted removal moved the geometry by ", d, " with tolerance ", tol); }
}
template<int D> void sel(Rng &g, bool un) {
  GenOpt o; o.pmin = 1; o.pmax = D > 2 ? 2 : 4; o.spans = D > 2 ? 2 : 3; bool r = g.flip(); o.dyadic = g.flip(); auto s = shape<D>(g, r, o);
  if (!un) for (auto &x : s.P) for (auto &y : x) y = g.in(0, 1) + (g.in(0, 3) ? 0 : 0.25);    // coincidences among points are likely
  note(s.text());
  if (r) { auto sp = s.nurbs(); un ? undo<D>(g, *sp, s) : generic<D>(g, *sp, s); } else { auto sp = s.bspline(); un ? undo<D>(g, *sp, s) : generic<D>(g, *sp, s); }
}
// removing at the same place in many directions of nearly removable splines: perturb one point of a refined spline
template<int D> void perturbed(Rng &g) {
  GenOpt o; o.pmin = 1; o.pmax = 3; o.spans = 2; bool r = g.flip(); auto s = shape<D>(g, r, o); int q = g.in(0, D - 1); double u = s.U[q].front() + (s.U[q].back() - s.U[q].front()) * g.in(1, 31) / 32.0; if (mult(s.U[q], u) >= s.p[q]) return;
  Shape<D> f; if (r) { auto sp = s.nurbs(); sp->InsertKnot(ParamCoord{u}, q); f = read<D>(*sp, true); } else { auto sp = s.bspline(); sp->InsertKnot(ParamCoord{u}, q); f = read<D>(*sp, false); }
  double eps = g.flip() ? 1e-9 : 0.5; long l = g.in(0, static_cast<int>(f.total) - 1); f.P[l][g.in(0, f.dim - 1)] += eps; note(f.text() + str(" remove ", u, " in ", q)); double tol = 1e-4;
  size_t c; Shape<D> now; if (r) { auto sp = f.nurbs(); c = sp->RemoveKnot(ParamCoord{u}, q, tol); now = read<D>(*sp, true); } else { auto sp = f.bspline(); c = sp->RemoveKnot(ParamCoord{u}, q, tol); now = read<D>(*sp, false); }
  if (eps < 1e-6) require(c == 1, "nearly exact removal refused");
  if (c) require(moved<D>(g, f, now) <= 4 * tol, "accepted removal moved the geometry by ", moved<D>(g, f, now)); else require(identical<D>(now, f), "refused removal changed the spline");
}
int main(int c, char **v) { return drive(c, v, {{"undo1", [](Rng &g) { sel<1>(g, true); }, 300, 8000}, {"undo2", [](Rng &g) { sel<2>(g, true); }, 150, 3000}, {"undo3", [](Rng &g) { sel<3>(g, true); }, 40, 500},
  {"any1", [](Rng &g) { sel<1>(g, false); }, 500, 20000}, {"any2", [](Rng &g) { sel<2>(g, false); }, 200, 5000}, {"any3", [](Rng &g) { sel<3>(g, false); }, 30, 500}, {"near1", perturbed<1>, 150, 4000}, {"near2", perturbed<2>, 100, 2000}, {"near3", perturbed<3>, 20, 300}}); }
