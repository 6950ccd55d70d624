#include "splgen.h"
using namespace vf;
template<int D> void check(Rng &g, const spl::ParameterSpace<D> &ps, const Shape<D> &s) {
  for (int i = 0; i < D; ++i) {
    require(ps.GetDegree(i).get() == s.p[i], "degree of direction ", i, " is ", ps.GetDegree(i).get()); require(knots_of(ps.GetKnotVector(i)) == s.U[i], "knots of direction ", i, " are ", list(knots_of(ps.GetKnotVector(i))), " expected ", list(s.U[i]));
    require(near(ps.GetKnotVectorRange(i), s.U[i].back() - s.U[i].front(), 1e-15), "range of direction ", i);
  }
  for (int t = 0; t < 6; ++t) {
    auto u = params<D>(g, s); std::array<int, D> id, k; for (int i = 0; i < D; ++i) { id[i] = g.in(0, static_cast<int>(s.U[i].size()) - s.p[i] - 2); k[i] = g.in(0, 2); }
    LD e = 1, d = 1; for (int i = 0; i < D; ++i) { e *= N(s.U[i], id[i], s.p[i], u[i]); d *= dN(s.U[i], id[i], s.p[i], u[i], k[i]); }
    require(near(ps.GetBasisFunctions(id, pc<D>(u)), static_cast<double>(e), 1e-10), "tensor basis value ", list(id), " at ", list(u), " is ", ps.GetBasisFunctions(id, pc<D>(u)), " expected ", static_cast<double>(e));
    require(near(ps.GetBasisFunctionDerivatives(id, pc<D>(u), k), static_cast<double>(d), 1e-9), "tensor basis derivative ", list(k), " of ", list(id), " at ", list(u));
    auto f = ps.GetArrayOfFirstNonZeroBasisFunctions(pc<D>(u));
    for (int i = 0; i < D; ++i) {
      auto nz = ps.EvaluateAllNonZeroBasisFunctions(i, ParamCoord{u[i]}); auto nd = ps.EvaluateAllNonZeroBasisFunctionDerivatives(i, ParamCoord{u[i]}, k[i]);
      require(static_cast<int>(nz.size()) == s.p[i] + 1 && nd.size() == nz.size(), "number of non-zero functions");
      for (int j = 0; j <= s.p[i]; ++j) { require(near(nz[j], static_cast<double>(N(s.U[i], f[i] + j, s.p[i], u[i])), 1e-10), "non-zero function ", j, " of direction ", i, " at ", u[i]); require(near(nd[j], static_cast<double>(dN(s.U[i], f[i] + j, s.p[i], u[i], k[i])), 1e-9), "non-zero derivative ", j, " of direction ", i); }
    }
    ps.ThrowIfParametricCoordinateOutsideKnotVectorRange(pc<D>(u));
    int q = g.in(0, D - 1); auto v = u; v[q] = g.flip() ? s.U[q].back() + g.real(1e-6, 1) : s.U[q].front() - g.real(1e-6, 1); bool thrown = false;
    try { ps.ThrowIfParametricCoordinateOutsideKnotVectorRange(pc<D>(v)); } catch (const std::range_error &) { thrown = true; }
    require(thrown, "parameter ", list(v), " outside the range accepted");
  }
}
template<int D> void edits(Rng &g) {
  GenOpt o; o.pmax = D > 2 ? 2 : 3; auto s = shape<D>(g, false, o); std::string h = s.text(); note(h);
  spl::ParameterSpace<D> ps(s.kv(), s.deg()); check<D>(g, ps, s);
  spl::ParameterSpace<D> cp(ps); require(cp.AreEqual(ps), "copy differs"); const auto s0 = s;
  for (int t = 0; t < 6; ++t) {
    int q = g.in(0, D - 1); auto &U = s.U[q];
    switch (g.in(0, 4)) {
      case 0: { double u = U.front() + (U.back() - U.front()) * g.in(1, 31) / 32.0; h += str(" insert ", u, " in ", q); note(h); ps.InsertKnot(ParamCoord{u}, q); U.insert(std::upper_bound(U.begin(), U.end(), u), u); break; }
      case 1: { std::vector<double> in; for (double x : U) if (x != U.front() && x != U.back()) in.push_back(x); if (in.empty()) break; double u = in[g.in(0, static_cast<int>(in.size()) - 1)]; h += str(" remove ", u, " in ", q); note(h); ps.RemoveKnot(ParamCoord{u}, q); U.erase(std::find(U.begin(), U.end(), u)); break; }
      case 2: { if (s.p[q] > 4) break; h += str(" elevate ", q); note(h); ps.ElevateDegree(q); ps.IncrementMultiplicityOfAllKnots(q); ++s.p[q]; for (double u : distinct(U)) U.insert(std::upper_bound(U.begin(), U.end(), u), u); break; }
      case 3: { bool ok = s.p[q] >= 1; if (!ok) break; h += str(" reduce ", q); note(h); ps.ReduceDegree(q); ps.DecrementMultiplicityOfAllKnots(q); --s.p[q]; for (double u : distinct(U)) U.erase(std::find(U.begin(), U.end(), u)); break; }
      default: { double u = U.front() + (U.back() - U.front()) * g.in(1, 31) / 32.0; auto parts = ps.GetDividedKnotVectors(ParamCoord{u}, q); (void) parts; break; }
    }
    check<D>(g, ps, s);
  }
  check<D>(g, cp, s0);
}
template<int D> void ctor(Rng &g) {
  GenOpt o; o.pmin = 0; auto s = shape<D>(g, false, o); int q = g.in(0, D - 1); auto &U = s.U[q]; int p = s.p[q]; bool bad = true;
  switch (g.in(0, 3)) {
    case 0: { int c = g.in(1, static_cast<int>(U.size()) - (2 * p + 1)); U.resize(0); for (int i = 0; i <= p; ++i) U.push_back(0); for (int i = 0; i <= p; ++i) U.push_back(1); (void) c; U.erase(U.begin()); break; }
    case 1: if (p == 0) { bad = false; break; } for (int i = 0, j = g.in(1, p); i < j; ++i) U[i] -= 0.5; break;
    case 2: if (p == 0) { bad = false; break; } for (int i = 0, j = g.in(1, p); i < j; ++i) U[U.size() - 1 - i] += 0.5; break;
    default: bad = false;
  }
  note(s.text()); bool thrown = false;
  try { spl::ParameterSpace<D> ps(s.kv(), s.deg()); } catch (const std::runtime_error &) { thrown = true; }
  require(thrown == bad, bad ? "unclamped or short knot vector accepted" : "valid knot vector rejected");
}
int main(int c, char **v) { return drive(c, v, {{"edits1", edits<1>, 150, 4000}, {"edits2", edits<2>, 120, 3000}, {"edits3", edits<3>, 60, 1000}, {"edits4", edits<4>, 20, 200}, {"ctor1", ctor<1>, 150, 2000}, {"ctor2", ctor<2>, 150, 2000}, {"ctor3", ctor<3>, 80, 500}}); }
