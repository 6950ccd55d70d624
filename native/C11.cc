#include "splgen.h"
using namespace vf;
template<int D, class S> void cut(Rng &g, S &sp, const Shape<D> &s0) {
  int q = g.in(0, D - 1); const auto &U = s0.U[q]; double u = U.front() + (U.back() - U.front()) * g.in(1, 31) / 32.0; if (g.in(0, 2) == 0) u = U[g.in(0, static_cast<int>(U.size()) - 1)]; if (u <= U.front() || u >= U.back()) return;
  note(s0.text() + str(" cut ", u, " in ", q)); auto parts = sp.SudivideSpline(ParamCoord{u}, q);
  for (int k = 0; k < 2; ++k) {
    auto now = read<D>(*parts[k], s0.rational); valid<D>(now); require(now.p == s0.p, "degrees of part ", k);
    for (int i = 0; i < D; ++i) if (i != q) require(now.U[i] == s0.U[i], "knots of another direction changed");
    std::vector<double> e; int p = s0.p[q]; if (k == 0) { for (double x : U) if (x < u) e.push_back(x); for (int i = 0; i <= p; ++i) e.push_back(u); } else { for (int i = 0; i <= p; ++i) e.push_back(u); for (double x : U) if (x > u) e.push_back(x); }
    require(now.U[q] == e, "knots of part ", k, " are ", list(now.U[q]), " expected ", list(e));
    // at the cut the first part has to give the limit from the left, the original may jump only if the multiplicity is p+1, which the generator excludes
    same_geometry<D>(g, *parts[k], s0, now, D > 2 ? 4 : 8, 1e-9, k ? "second part" : "first part");
  }
  // the parts are independent of each other and of the original
  auto keep = read<D>(*parts[1], s0.rational); parts[0]->ElevateDegreeForDimension(q); auto again = read<D>(*parts[1], s0.rational); require(again.U == keep.U && again.P == keep.P && again.w == keep.w, "changing one part changes the other");
  if (D > 1) { int o = (q + 1) % D; auto W = s0.U[o]; double x = (W.front() + W.back()) / 2 + (W.back() - W.front()) / 64; parts[0]->InsertKnot(ParamCoord{x}, o); again = read<D>(*parts[1], s0.rational); require(again.U == keep.U && again.P == keep.P, "changing one part changes the other"); require(knots_of(sp.GetKnotVector(o)) == s0.U[o], "changing a part changes the original"); }
}
template<int D> void one(Rng &g) {
  GenOpt o; o.pmin = 1; o.pmax = D > 2 ? 2 : 4; o.spans = D > 2 ? 2 : 3; bool r = g.flip(); o.dyadic = g.flip(); auto s = shape<D>(g, r, o); note(s.text());
  if (r) { auto sp = s.nurbs(); cut<D>(g, *sp, s); } else { auto sp = s.bspline(); cut<D>(g, *sp, s); }
}
int main(int c, char **v) { return drive(c, v, {{"D1", one<1>, 200, 6000}, {"D2", one<2>, 100, 2000}, {"D3", one<3>, 20, 400}}); }
