#include "splgen.h"
#include "bdf_handler.h"
#include "linear_equation_assembler.h"
#include "poisson_problem.h"
#include "solution_spline.h"
#include "solution_vtk_writer.h"
#include "one_point_gauss_legendre.h"
#include "two_point_gauss_legendre.h"
#include "three_point_gauss_legendre.h"
#include "four_point_gauss_legendre.h"
#include "five_point_gauss_legendre.h"
using namespace vf;
iga::itg::IntegrationRule rule(int n) { using namespace iga::itg; switch (n) { case 1: return OnePointGaussLegendre(); case 2: return TwoPointGaussLegendre(); case 3: return ThreePointGaussLegendre(); case 4: return FourPointGaussLegendre(); default: return FivePointGaussLegendre(); } }
void gauss(Rng &g) {
  int n = g.in(1, 5); note(str("rule ", n)); auto r = rule(n); auto P = r.GetIntegrationPoints(); require(r.GetNumberOfIntegrationPoints() == n && static_cast<int>(P.size()) == n, "number of points"); for (int i = 0; i < n; ++i) { require(r.GetCoordinate(i) == P[i].GetCoordinate(), "coordinate ", i); require(P[i].GetCoordinate() > -1 && P[i].GetCoordinate() < 1 && P[i].GetWeight() > 0, "point ", i); if (i) require(P[i].GetCoordinate() > P[i - 1].GetCoordinate(), "points not in order"); }
  for (int k = 0; k < 2 * n; ++k) { LD s = 0; for (auto &p : P) s += std::pow(static_cast<LD>(p.GetCoordinate()), k) * p.GetWeight(); LD e = k % 2 ? 0 : 2.0L / (k + 1); require(std::fabs(static_cast<double>(s - e)) < 1e-14, "integral of x^", k, " is ", static_cast<double>(s)); }
}
template<int D> Shape<D> patch(Rng &g, bool rational) {   // a deformed box: regular geometry
  GenOpt o; o.pmin = 1; o.pmax = 2; o.spans = D == 1 ? 4 : D == 2 ? 3 : 2; o.dimmin = o.dimmax = D; o.maxmult = 2; auto s = shape<D>(g, rational, o);
  for (long l = 0; l < s.total; ++l) { auto t = tuple_of<D>(s.n, l); if (rational) s.w[l] = g.in(7, 10) / 8.0; for (int d = 0; d < D; ++d) { double m = 0; for (int j = 1; j <= s.p[d]; ++j) m += s.U[d][t[d] + j]; s.P[l][d] = m / s.p[d] + g.in(-2, 2) / 64.0; } } return s;
}
template<int D> LD quad(const Shape<D> &s, int n, std::function<LD(const std::array<double, D> &, LD)> f) {   // independent quadrature over the same spans
  auto P = rule(n).GetIntegrationPoints(); std::array<std::vector<double>, D> br; std::array<int, D> ne, q; long tot = 1; for (int d = 0; d < D; ++d) { br[d] = distinct(s.U[d]); ne[d] = static_cast<int>(br[d].size()) - 1; tot *= ne[d]; q[d] = n; } long pts = 1; for (int d = 0; d < D; ++d) pts *= n; LD sum = 0;
  for (long e = 0; e < tot; ++e) for (long k = 0; k < pts; ++k) { auto t = tuple_of<D>(ne, e); auto i = tuple_of<D>(q, k); std::array<double, D> u; LD w = 1; for (int d = 0; d < D; ++d) { double lo = br[d][t[d]], hi = br[d][t[d] + 1]; u[d] = (lo + hi) / 2 + (hi - lo) / 2 * P[i[d]].GetCoordinate(); w *= static_cast<LD>(P[i[d]].GetWeight()) * (hi - lo) / 2; }
    LD J[3][3]; for (int d = 0; d < D; ++d) { std::array<int, D> kk{}; kk[d] = 1; auto v = s.ref(u, kk); for (int c = 0; c < D; ++c) J[c][d] = v[c]; } LD det = D == 1 ? J[0][0] : D == 2 ? J[0][0] * J[1][1] - J[0][1] * J[1][0] : J[0][0] * (J[1][1] * J[2][2] - J[1][2] * J[2][1]) - J[0][1] * (J[1][0] * J[2][2] - J[1][2] * J[2][0]) + J[0][2] * (J[1][0] * J[2][1] - J[1][1] * J[2][0]); sum += f(u, w * std::fabs(det)); }
  return sum;
}
// value and parametric gradient of the rational basis function l
template<int D> std::array<LD, 4> R(const Shape<D> &s, long l, const std::array<double, D> &u) { auto t = tuple_of<D>(s.n, l); std::array<LD, 4> r{}; std::array<int, D> z{}; LD W = s.homog(u, z)[s.dim]; LD A = s.w[l]; for (int d = 0; d < D; ++d) A *= N(s.U[d], t[d], s.p[d], u[d]); r[0] = A / W; for (int d = 0; d < D; ++d) { std::array<int, D> k{}; k[d] = 1; LD Wd = s.homog(u, k)[s.dim], Ad = s.w[l]; for (int e = 0; e < D; ++e) Ad *= e == d ? dN(s.U[e], t[e], s.p[e], u[e], 1) : N(s.U[e], t[e], s.p[e], u[e]); r[1 + d] = (Ad - A / W * Wd) / W; } return r; }
template<int D> std::array<LD, 3> physical(const Shape<D> &s, const std::array<double, D> &u, const std::array<LD, 4> &r) { LD M[3][4]; for (int d = 0; d < D; ++d) { std::array<int, D> k{}; k[d] = 1; auto v = s.ref(u, k); for (int c = 0; c < D; ++c) M[d][c] = v[c]; M[d][D] = r[1 + d]; } for (int i = 0; i < D; ++i) { int p = i; for (int j = i; j < D; ++j) if (std::fabs(M[j][i]) > std::fabs(M[p][i])) p = j; for (int c = 0; c <= D; ++c) std::swap(M[i][c], M[p][c]); for (int j = 0; j < D; ++j) if (j != i) { LD f = M[j][i] / M[i][i]; for (int c = 0; c <= D; ++c) M[j][c] -= f * M[i][c]; } } std::array<LD, 3> x{}; for (int i = 0; i < D; ++i) x[i] = M[i][D] / M[i][i]; return x; }
template<int D> void assemble(Rng &g, bool known = false) {   // the stiffness of a patch with unequal weights is a known finding
  bool rat = known || g.in(0, 2) != 0; bool stiff = known || !rat; auto s = patch<D>(g, rat); s.rational = true; int n = g.in(2, D == 1 ? 5 : 3); note(s.text() + str(" rule ", n)); auto sp = s.nurbs(); auto r = rule(n); iga::LinearEquationAssembler<D> as(sp); iga::ElementIntegralCalculator<D> calc(sp); long N_ = s.total;
  auto A = std::make_shared<arma::dmat>(N_, N_, arma::fill::zeros); auto b = std::make_shared<arma::dvec>(N_, arma::fill::zeros); auto src = std::make_shared<arma::dvec>(N_, arma::fill::ones); double kappa = g.in(1, 4) / 2.0; as.GetLeftSide(r, A, calc, kappa); as.GetRightSide(r, b, calc, src);
  double measure = static_cast<double>(quad<D>(s, n, [](const std::array<double, D> &, LD w) { return w; })), sum = 0; for (long i = 0; i < N_; ++i) sum += (*b)(i); require(near(sum, measure, 1e-9), "load vector adds up to ", sum, " instead of ", measure);
  double amax = 1e-300; for (long i = 0; i < N_; ++i) for (long j = 0; j < N_; ++j) amax = std::max(amax, std::fabs((*A)(i, j)));
  if (stiff) for (long i = 0; i < N_; ++i) { double row = 0; for (long j = 0; j < N_; ++j) { row += (*A)(i, j); require(std::fabs((*A)(i, j) - (*A)(j, i)) <= 1e-9 * amax, "stiffness not symmetric"); } require(std::fabs(row) <= 1e-8 * amax * N_, "stiffness row ", i, " adds up to ", row); }
  for (int t = 0; t < 3; ++t) {
    long i = g.in(0, N_ - 1), j = g.in(0, N_ - 1); if (g.flip()) j = std::min<long>(N_ - 1, i + 1);
    LD eb = quad<D>(s, n, [&](const std::array<double, D> &u, LD w) { return w * R<D>(s, i, u)[0]; }); require(near((*b)(i), static_cast<double>(eb), 1e-8), "load entry ", i, " is ", (*b)(i), " instead of ", static_cast<double>(eb));
    if (stiff) { LD ea = quad<D>(s, n, [&](const std::array<double, D> &u, LD w) { auto x = physical<D>(s, u, R<D>(s, i, u)), y = physical<D>(s, u, R<D>(s, j, u)); return w * (x[0] * y[0] + x[1] * y[1] + x[2] * y[2]) * kappa; }); require(std::fabs((*A)(i, j) - static_cast<double>(ea)) <= 1e-7 * amax, "stiffness entry ", i, ",", j, " is ", (*A)(i, j), " instead of ", static_cast<double>(ea)); }
  }
  { iga::BDFHandler<D> bdf(sp, r); auto Z = std::make_shared<arma::dmat>(N_, N_, arma::fill::zeros); double dt = g.in(1, 8) / 8.0; auto M = bdf.GetBDF1LeftSide(Z, dt); double ms = 0; for (long i = 0; i < N_; ++i) for (long j = 0; j < N_; ++j) ms += (*M)(i, j) * dt; require(near(ms, measure, 1e-9), "mass matrix adds up to ", ms, " instead of ", measure); auto zb = std::make_shared<arma::dvec>(N_, arma::fill::zeros); auto rb = bdf.GetBDF1RightSide(zb, src, dt); for (long i = 0; i < N_; ++i) require(near((*rb)(i) * dt, (*b)(i), 1e-8), "time step right side ", i); }
  // boundary conditions
  auto A2 = std::make_shared<arma::dmat>(*A); auto b2 = std::make_shared<arma::dvec>(*b); as.SetZeroBC(A2, b2); auto A3 = std::make_shared<arma::dmat>(*A); auto b3 = std::make_shared<arma::dvec>(*b); auto dir = std::make_shared<arma::dvec>(N_); for (long i = 0; i < N_; ++i) (*dir)(i) = 10 + i; as.SetDirichletBC(A3, b3, dir); long nb = 0;
  for (long l = 0; l < N_; ++l) { auto t = tuple_of<D>(s.n, l); bool bd = false; for (int d = 0; d < D; ++d) bd = bd || t[d] == 0 || t[d] == s.n[d] - 1; for (long j = 0; j < N_; ++j) { double e = bd ? (j == l) : (*A)(l, j); require((*A2)(l, j) == e && (*A3)(l, j) == e, "boundary condition in matrix row ", l); } require((*b2)(l) == (bd ? 0 : (*b)(l)), "zero boundary value ", l); require((*b3)(l) == (bd ? (*dir)(nb) : (*b)(l)), "boundary value ", l); nb += bd; }
  iga::SolutionSpline<D> ss(sp, *b); auto so = ss.GetSolutionSpline(); for (long l = 0; l < N_; ++l) { auto t = tuple_of<D>(s.n, l); require(so->GetControlPoint(t, D) == (*b)(l), "solution value ", l); for (int c = 0; c < D; ++c) require(so->GetControlPoint(t, c) == s.P[l][c], "solution geometry ", l); require(so->GetWeight(t) == s.w[l], "solution weight ", l); }
}
template<int D> void boundary(Rng &g, bool known = false) {   // directions with different knots or degrees are a known finding
  auto s = patch<D>(g, true); if (!known) { for (int t = 0; ; ++t) { bool ok = true; for (int d = 1; d < D; ++d) ok = ok && s.p[d] == s.p[0] && s.U[d] == s.U[0]; if (ok) break; if (t > 2000) return; s = patch<D>(g, true); } } note(s.text()); auto sp = s.nurbs(); iga::LinearEquationAssembler<D> as(sp); auto B = as.GetBoundarySplines(); auto C = as.GetBoundarySplineConnectivity();
  for (int i = 0; i < D; ++i) for (int k = 0; k < 2; ++k) { auto b = read<D - 1>(*B[i][k], true); int m = 0; for (int j = 0; j < D; ++j) if (j != i) { require(b.U[m] == s.U[j] && b.p[m] == s.p[j], "boundary ", i, ",", k, " direction ", m, " has other knots or degree than direction ", j); ++m; } long l2 = 0; for (long l = 0; l < s.total; ++l) { auto t = tuple_of<D>(s.n, l); if (t[i] == (k ? s.n[i] - 1 : 0)) { require(l2 < static_cast<long>(C[i][k].size()) && C[i][k][l2] == l, "boundary connectivity"); require(b.P[l2] == s.P[l] && b.w[l2] == s.w[l], "boundary control point"); ++l2; } } require(l2 == b.total && l2 == static_cast<long>(C[i][k].size()), "boundary size"); }
  std::array<std::array<std::shared_ptr<arma::dvec>, 2>, D> ne; for (int i = 0; i < D; ++i) for (int k = 0; k < 2; ++k) ne[i][k] = std::make_shared<arma::dvec>(C[i][k].size(), arma::fill::zeros); int i0 = g.in(0, D - 1), k0 = g.in(0, 1); ne[i0][k0]->ones(); auto b = std::make_shared<arma::dvec>(s.total, arma::fill::zeros); int n = 3; as.GetRightSideNeumann(rule(n), b, ne);
  auto bs = read<D - 1>(*B[i0][k0], true); double sum = 0; for (long l = 0; l < s.total; ++l) { auto t = tuple_of<D>(s.n, l); if (t[i0] != (k0 ? s.n[i0] - 1 : 0)) require((*b)(l) == 0, "Neumann load away from the boundary"); sum += (*b)(l); }
  if constexpr (D == 2) { LD len = 0; auto P = rule(n).GetIntegrationPoints(); auto br = distinct(bs.U[0]); for (size_t e = 0; e + 1 < br.size(); ++e) for (auto &p : P) { double u = (br[e] + br[e + 1]) / 2 + (br[e + 1] - br[e]) / 2 * p.GetCoordinate(); auto d = bs.ref({u}, {1}); len += p.GetWeight() * (br[e + 1] - br[e]) / 2 * std::sqrt(d[0] * d[0] + d[1] * d[1]); } require(near(sum, static_cast<double>(len), 1e-9), "Neumann load adds up to ", sum, " instead of ", static_cast<double>(len)); }
}
void known_vtk(Rng &) {
  double e = 0.7389268955692806; note("knots -1..0.7389268955692806, 3 cells"); KnotVectors<1> kv; kv[0] = std::make_shared<baf::KnotVector>(std::vector<ParamCoord>{ParamCoord{-1}, ParamCoord{-1}, ParamCoord{e}, ParamCoord{e}});
  auto sp = std::make_shared<spl::NURBS<1>>(kv, std::array<Degree, 1>{Degree{1}}, std::vector<baf::ControlPoint>{baf::ControlPoint({0.0}), baf::ControlPoint({1.0})}, std::vector<double>{1, 1});
  iga::SolutionVTKWriter<1> w; w.WriteSolutionToVTK(sp, arma::dvec(2, arma::fill::ones), {{3}}, "s.vtk");
}
template<int D> void wrapa(Rng &g) { assemble<D>(g); }
template<int D> void wrapb(Rng &g) { boundary<D>(g); }
int main(int c, char **v) { return drive(c, v, {{"gauss", gauss, 20, 100}, {"assemble1", wrapa<1>, 20, 500}, {"assemble2", wrapa<2>, 6, 100}, {"boundary2", wrapb<2>, 20, 300}, {"boundary3", wrapb<3>, 3, 20},
  {"known-rational", [](Rng &g) { assemble<1>(g, true); }, 1, 1}, {"known-boundary", [](Rng &g) { boundary<2>(g, true); }, 1, 1}, {"known-vtk", known_vtk, 1, 1}}); }
