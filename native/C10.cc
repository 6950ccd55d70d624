#include "splgen.h"
using namespace vf;
template<int D, class S> void elevate(Rng &g, S &sp, const Shape<D> &s0) {
  std::string h = s0.text(); auto before = s0;
  for (int t = g.in(1, 2); t > 0; --t) {
    int q = g.in(0, D - 1); h += str(" elevate ", q); note(h); sp.ElevateDegreeForDimension(q); auto now = read<D>(sp, s0.rational); valid<D>(now);
    for (int i = 0; i < D; ++i) require(now.p[i] == before.p[i] + (i == q), "degree of direction ", i, " is ", now.p[i]);
    for (int i = 0; i < D; ++i) if (i != q) require(now.U[i] == before.U[i], "knots of another direction changed");
    require(distinct(now.U[q]) == distinct(before.U[q]), "distinct knots changed: ", list(now.U[q]));
    for (double u : distinct(before.U[q])) { int m = mult(now.U[q], u), b = mult(before.U[q], u); require(m >= b + 1 && m <= now.p[q] + 1, "multiplicity of ", u, " is ", m, " was ", b); }
    same_geometry<D>(g, sp, s0, s0, D > 2 ? 3 : 6, 1e-8, "after elevation"); before = now;
  }
}
template<int D, class S> void reduce(Rng &g, S &sp, const Shape<D> &s0) {
  int q = g.in(0, D - 1); note(s0.text() + str(" elevate and reduce ", q)); sp.ElevateDegreeForDimension(q); bool ok = sp.ReduceDegreeForDimension(q, 1e-7); require(ok, "reduction of an elevated spline refused"); auto now = read<D>(sp, s0.rational); valid<D>(now);
  require(now.p == s0.p, "degree after reduction ", list(now.p)); same_geometry<D>(g, sp, s0, s0, 6, 1e-6, "after reduction");
}
template<int D, class S> void refuse(Rng &g, S &sp, const Shape<D> &s0) {
  int q = g.in(0, D - 1); if (s0.p[q] < 2) return; double tol = g.flip() ? 1e-9 : 0.3; note(s0.text() + str(" reduce ", q, " tol ", tol)); bool ok = sp.ReduceDegreeForDimension(q, tol); auto now = read<D>(sp, s0.rational); valid<D>(now);
  if (!ok) { require(now.p == s0.p, "refused reduction changed the degree"); for (int i = 0; i < D; ++i) require(distinct(now.U[i]) == distinct(s0.U[i]), "refused reduction changed the distinct knots"); same_geometry<D>(g, sp, s0, s0, 6, 1e-8, "after refused reduction"); }
  else { require(now.p[q] == s0.p[q] - 1, "degree not reduced"); if (tol < 1e-6) same_geometry<D>(g, sp, s0, s0, 6, 1e-6, "after reduction"); }
}
template<int D> void sel(Rng &g, int what) {
  GenOpt o; o.pmin = 1; o.pmax = D > 2 ? 2 : 4; o.spans = D > 2 ? 2 : 3; bool r = g.flip(); o.dyadic = g.flip(); auto s = shape<D>(g, r, o);
  if (what == 3) { what = 2; for (long l = 0; l < s.total; ++l) { auto t = tuple_of<D>(s.n, l); for (int c = 0; c < s.dim; ++c) { LD x = 0; for (int i = 0; i < D; ++i) { LD gr = 0; for (int j = 1; j <= s.p[i]; ++j) gr += s.U[i][t[i] + j]; x += gr / std::max(1, s.p[i]) * (i + 1); } s.P[l][c] = static_cast<double>(x); } s.w[l] = 1; } }   // affine geometry: reducible to degree one, every inner knot removable
  note(s.text());
  if (r) { auto sp = s.nurbs(); what == 0 ? elevate<D>(g, *sp, s) : what == 1 ? reduce<D>(g, *sp, s) : refuse<D>(g, *sp, s); } else { auto sp = s.bspline(); what == 0 ? elevate<D>(g, *sp, s) : what == 1 ? reduce<D>(g, *sp, s) : refuse<D>(g, *sp, s); }
}
#define S(D, w) [](Rng &g) { sel<D>(g, w); }
int main(int c, char **v) { return drive(c, v, {{"elevate1", S(1, 0), 200, 6000}, {"elevate2", S(2, 0), 100, 2000}, {"elevate3", S(3, 0), 20, 300}, {"reduce1", S(1, 1), 150, 4000}, {"reduce2", S(2, 1), 80, 1500}, {"reduce3", S(3, 1), 15, 200}, {"refuse1", S(1, 2), 150, 4000}, {"refuse2", S(2, 2), 80, 1500}, {"refuse3", S(3, 2), 15, 200}, {"affine1", S(1, 3), 150, 4000}, {"affine2", S(2, 3), 60, 1000}}); }
