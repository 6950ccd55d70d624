#include "splgen.h"
#include "basis_function_factory.h"
using namespace vf;
static void basis(Rng &g) {
  GenOpt o; o.dyadic = g.flip(); int p = g.in(0, 5); auto U = knots(g, p, o); int n = static_cast<int>(U.size()) - p - 1; std::vector<ParamCoord> c; for (double x : U) c.emplace_back(x); baf::KnotVector k(c); note(str("p=", p, " U=", list(U)));
  Shape<1> s; s.U[0] = U;
  for (int i = 0; i < n; ++i) {
    std::unique_ptr<baf::BasisFunction> B(baf::BasisFunctionFactory::CreateDynamic(k, KnotSpan{i}, Degree{p}));
    for (int t = 0; t < 4; ++t) { double u = param<1>(g, s, 0); for (int q = 0; q <= p + 2; ++q) { double v = B->EvaluateDerivative(ParamCoord{u}, Derivative{q}), e = static_cast<double>(dN(U, i, p, u, q)); require(near(v, e, 1e-8), "derivative ", q, " of function ", i, " at ", u, " is ", v, " expected ", e); if (q > p) require(v == 0, "derivative above the degree"); } }
  }
}
template<int D, class S> void run(Rng &g, const S &sp, const Shape<D> &s, int T, int kmax) {
  for (int t = 0; t < T; ++t) {
    auto u = params<D>(g, s); std::array<int, D> k; int sum = 0; for (auto &x : k) { x = g.in(0, kmax); sum += x; } if (s.rational && sum > 4) for (auto &x : k) x = x > 1 ? 1 : x;
    auto e = s.ref(u, k); auto dims = alldims(s.dim); if (g.flip()) std::reverse(dims.begin(), dims.end()); auto v = sp.EvaluateDerivative(pc<D>(u), dims, k);
    double scale = 1; for (auto x : e) scale = std::max(scale, static_cast<double>(fabsl(x)));
    for (size_t i = 0; i < dims.size(); ++i) require(std::isfinite(v[i]) && std::fabs(v[i] - static_cast<double>(e[dims[i]])) <= 1e-7 * scale, "derivative ", list(k), " at ", list(u), " coordinate ", dims[i], " is ", v[i], " expected ", static_cast<double>(e[dims[i]]));
    if (!s.rational) { for (int i = 0; i < D; ++i) if (k[i] > s.p[i]) for (double x : v) require(x == 0, "derivative above the degree is not zero"); }
  }
}
template<int D> void spline(Rng &g) {
  GenOpt o; o.pmax = D > 2 ? 2 : 4; o.spans = D > 2 ? 2 : 3; o.dimmax = 3; bool r = g.flip(); auto s = shape<D>(g, r, o); note(s.text());
  if (r) { auto sp = s.nurbs(); run<D>(g, *sp, s, D > 2 ? 2 : 4, D == 1 ? 4 : D == 2 ? 2 : 1); } else { auto sp = s.bspline(); run<D>(g, *sp, s, D > 2 ? 3 : 8, D == 1 ? 6 : 3); }
}
int main(int c, char **v) { return drive(c, v, {{"basis", basis, 150, 4000}, {"spline1", spline<1>, 150, 4000}, {"spline2", spline<2>, 80, 1500}, {"spline3", spline<3>, 12, 150}}); }
