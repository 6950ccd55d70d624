#include "splgen.h"
#include "basis_function_factory.h"
using namespace vf;
static void values(Rng &g) {
  GenOpt o; o.dyadic = g.flip(); int p = g.in(0, 5); auto U = knots(g, p, o); int n = static_cast<int>(U.size()) - p - 1;
  std::vector<ParamCoord> c; for (double x : U) c.emplace_back(x); baf::KnotVector k(c);
  note(str("p=", p, " U=", list(U)));
  std::vector<std::unique_ptr<baf::BasisFunction>> B; for (int i = 0; i < n; ++i) B.emplace_back(baf::BasisFunctionFactory::CreateDynamic(k, KnotSpan{i}, Degree{p}));
  KnotVectors<1> kv{std::make_shared<baf::KnotVector>(k)}; spl::ParameterSpace<1> ps(kv, {Degree{p}});
  for (int t = 0; t < 15; ++t) {
    Shape<1> s; s.U[0] = U; double u = param<1>(g, s, 0);
    if (g.in(0, 5) == 0) u = std::nextafter(u, U.front()); if (g.in(0, 5) == 0) u = std::nextafter(u, U.back());
    if (U.back() - u < 1e-12 && u != U.back()) u = U.back();
    LD sum = 0;
    for (int i = 0; i < n; ++i) {
      double v = B[i]->Evaluate(ParamCoord{u}), e = static_cast<double>(N(U, i, p, u));
      require(near(v, e, 1e-10), "function ", i, " at ", u, " is ", v, " expected ", e); require(v >= -1e-14, "negative value ", v, " of function ", i, " at ", u);
      if (u < U[i] || u > U[i + p + 1]) require(v == 0, "function ", i, " at ", u, " outside its support is ", v);
      require(near(B[i]->EvaluateDerivative(ParamCoord{u}, Derivative{0}), v, 1e-13), "derivative of order zero");
      sum += v;
    }
    require(near(static_cast<double>(sum), 1, 1e-11), "sum of all functions at ", u, " is ", static_cast<double>(sum));
    auto nz = ps.EvaluateAllNonZeroBasisFunctions(0, ParamCoord{u}); LD s2 = 0; for (double x : nz) s2 += x;
    require(static_cast<int>(nz.size()) == p + 1, "reported functions ", nz.size()); require(near(static_cast<double>(s2), 1, 1e-11), "sum of the reported non-zero functions at ", u, " is ", static_cast<double>(s2));
  }
}
int main(int c, char **v) { return drive(c, v, {{"values", values, 600, 20000}}); }
