#include "splgen.h"
#include "random_b_spline_generator.h"
#include "random_nurbs_generator.h"
using namespace vf;
template<int D> void one(Rng &g) {
  // the generators draw from one static engine: move it to a state of its own for every case
  int skip = g.in(0, 400); for (int i = 0; i < skip; ++i) { util::Random::GetBinomialRandom<int>(0, 7, 1); util::Random::GetBinomialRandom<double>(0, 7, 0.5); }
  double lo = g.flip() ? g.in(-5, 5) : g.real(-5, 5), hi = lo + (g.flip() ? g.in(1, 8) : g.real(0.1, 8)); int md = g.in(1, D == 1 ? 6 : D == 2 ? 4 : 2), dim = g.in(1, 4); bool r = g.flip();
  note(str("D=", D, " interval ", lo, " ", hi, " max degree ", md, " dimension ", dim, r ? " NURBS" : " B-spline", " skip ", skip)); std::array<ParamCoord, 2> lim{ParamCoord{lo}, ParamCoord{hi}}; Shape<D> s; std::shared_ptr<spl::Spline<D>> sp;
  if (r) { spl::RandomNURBSGenerator<D> gen(lim, md, dim); sp = std::make_shared<spl::NURBS<D>>(gen); } else { spl::RandomBSplineGenerator<D> gen(lim, md, dim); sp = std::make_shared<spl::BSpline<D>>(gen); }
  s = read<D>(*sp, r); valid<D>(s); require(s.dim == dim, "dimension ", s.dim, " instead of ", dim);
  for (int d = 0; d < D; ++d) { require(s.p[d] >= 1 && s.p[d] <= md, "degree ", s.p[d], " outside 1..", md); require(s.U[d].front() == lo && s.U[d].back() == hi, "knots ", list(s.U[d]), " do not span the interval"); for (double x : s.U[d]) require(x >= lo && x <= hi, "knot outside"); }
  for (int t = 0; t < 3; ++t) { auto u = params<D>(g, s); for (auto &x : u) x = std::min(std::max(x, lo), hi); auto e = s.ref(u); auto v = sp->Evaluate(pc<D>(u), alldims(dim)); for (int c = 0; c < dim; ++c) require(near(v[c], static_cast<double>(e[c]), 1e-9), "evaluation at ", list(u)); }
}
void draws(Rng &g) {
  double lo = g.in(-5, 5), d = g.flip() ? 1 : g.flip() ? 0.1 : 0.01, hi = lo + d * g.in(0, 60); note(str(lo, " ", hi, " ", d));
  double x = util::Random::GetBinomialRandom<double>(lo, hi, d); require(x >= lo - 1e-9 && x <= hi + 1e-9, "binomial draw ", x, " outside ", lo, " ", hi); double k = (x - lo) / d; require(std::fabs(k - std::round(k)) < 1e-6, "binomial draw ", x, " off the grid");
  double y = util::Random::GetUniformRandom<double>(lo, hi + 1); require(y >= lo && y <= hi + 1, "uniform draw ", y);
  int z = util::Random::GetBinomialRandom<int>(lo, lo + 7, 1); require(z >= lo && z <= lo + 7, "integer draw ", z);
}
int main(int c, char **v) { return drive(c, v, {{"one", one<1>, 200, 5000}, {"two", one<2>, 60, 1500}, {"three", one<3>, 20, 300}, {"draws", draws, 500, 20000}}); }
