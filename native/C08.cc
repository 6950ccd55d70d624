#include "splgen.h"
using namespace vf;
template<int D, class S> void run(Rng &g, S &sp, Shape<D> s0) {
  auto cur = s0; std::string h = s0.text();
  for (int t = 0; t < 3; ++t) {
    int q = g.in(0, D - 1); auto &U = cur.U[q]; int p = cur.p[q]; std::vector<double> added;
    auto pick = [&]() { double u = 0; for (int z = 0; z < 40; ++z) { if (g.in(0, 2) == 0) u = U[g.in(0, static_cast<int>(U.size()) - 1)]; else u = U.front() + (U.back() - U.front()) * g.in(1, 31) / 32.0; if (u > U.front() && u < U.back() && mult(U, u) < p) return u; } return U.front() - 1; };
    double u = pick(); if (u < U.front()) continue;
    if (g.in(0, 2)) { int m = g.in(1, p - mult(U, u)); h += str(" insert ", u, " x", m, " in ", q); note(h); sp.InsertKnot(ParamCoord{u}, q, m); for (int i = 0; i < m; ++i) U.insert(std::upper_bound(U.begin(), U.end(), u), u); }
    else { std::vector<ParamCoord> l; int k = g.in(1, 3); for (int i = 0; i < k; ++i) { u = pick(); if (u < U.front()) break; l.emplace_back(u); U.insert(std::upper_bound(U.begin(), U.end(), u), u); h += str(" refine ", u, " in ", q); } note(h); sp.RefineKnots(l, q); }
    auto now = read<D>(sp, s0.rational); valid<D>(now);
    for (int i = 0; i < D; ++i) { require(now.U[i] == cur.U[i], "knots of direction ", i, " are ", list(now.U[i]), " expected ", list(cur.U[i])); require(now.p[i] == s0.p[i], "degree changed"); }
    same_geometry<D>(g, sp, s0, s0, D > 2 ? 3 : 6, 1e-9, "after insertion");
  }
}
template<int D> void one(Rng &g) {
  GenOpt o; o.pmin = 1; o.pmax = D > 2 ? 2 : 4; o.spans = D > 2 ? 2 : 3; bool r = g.flip(); o.dyadic = g.flip(); auto s = shape<D>(g, r, o); note(s.text());
  if (r) { auto sp = s.nurbs(); run<D>(g, *sp, s); } else { auto sp = s.bspline(); run<D>(g, *sp, s); }
}
int main(int c, char **v) { return drive(c, v, {{"D1", one<1>, 200, 6000}, {"D2", one<2>, 120, 3000}, {"D3", one<3>, 30, 500}}); }
