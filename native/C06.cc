#include "splgen.h"
using namespace vf;
template<int D, class S> void run(Rng &g, const S &sp, const Shape<D> &s, int T) {
  for (int t = 0; t < T; ++t) {
    auto u = params<D>(g, s); auto e = s.ref(u); std::vector<int> dims = alldims(s.dim); if (g.flip()) { dims.clear(); int k = g.in(1, s.dim + 1); for (int i = 0; i < k; ++i) dims.push_back(g.in(0, s.dim - 1)); }
    auto v = sp.Evaluate(pc<D>(u), dims); require(v.size() == dims.size(), "number of coordinates");
    for (size_t i = 0; i < dims.size(); ++i) require(near(v[i], static_cast<double>(e[dims[i]]), 1e-10), "at ", list(u), " coordinate ", dims[i], " is ", v[i], " expected ", static_cast<double>(e[dims[i]]));
    for (size_t i = 0; i < dims.size(); ++i) { double lo = 1e300, hi = -1e300; for (auto &p : s.P) { lo = std::min(lo, p[dims[i]]); hi = std::max(hi, p[dims[i]]); } require(v[i] >= lo - 1e-9 && v[i] <= hi + 1e-9, "outside the bounding box"); }
    auto z = sp.EvaluateDerivative(pc<D>(u), dims, std::array<int, D>{}); for (size_t i = 0; i < dims.size(); ++i) require(near(z[i], v[i], 1e-10), "derivative of order zero at ", list(u));
    int q = g.in(0, D - 1); auto w = u; w[q] = g.flip() ? s.U[q].back() + g.real(1e-6, 1) : s.U[q].front() - g.real(1e-6, 1); bool thrown = false;
    try { sp.Evaluate(pc<D>(w), dims); } catch (const std::range_error &) { thrown = true; } require(thrown, "parameter ", list(w), " outside the range accepted");
    thrown = false; try { sp.EvaluateDerivative(pc<D>(w), dims, std::array<int, D>{}); } catch (const std::range_error &) { thrown = true; } require(thrown, "derivative at ", list(w), " outside the range accepted");
  }
  for (int m = 0; m < (1 << D); ++m) {   // corners
    std::array<double, D> u; long l = 0, mul = 1; for (int i = 0; i < D; ++i) { bool e = m >> i & 1; u[i] = e ? s.U[i].back() : s.U[i].front(); l += (e ? s.n[i] - 1 : 0) * mul; mul *= s.n[i]; }
    auto v = sp.Evaluate(pc<D>(u), alldims(s.dim)); for (int c = 0; c < s.dim; ++c) require(near(v[c], s.P[l][c], 1e-11), "corner ", list(u), " is not the corner control point");
  }
}
template<int D> void eval(Rng &g) {
  GenOpt o; o.pmax = D > 2 ? 2 : 4; o.spans = D > 2 ? 2 : 3; o.dyadic = g.flip(); o.dimmax = 4; bool r = g.flip(); auto s = shape<D>(g, r, o); note(s.text());
  if (r) { auto sp = s.nurbs(); run<D>(g, *sp, s, D > 3 ? 2 : 6); } else { auto sp = s.bspline(); run<D>(g, *sp, s, D > 3 ? 3 : 8); }
}
int main(int c, char **v) { return drive(c, v, {{"eval1", eval<1>, 200, 6000}, {"eval2", eval<2>, 120, 3000}, {"eval3", eval<3>, 40, 600}, {"eval4", eval<4>, 8, 80}}); }
