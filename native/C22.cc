#include "splgen.h"
#include "connectivity_handler.h"
#include "element_generator.h"
#include "mapping_handler.h"
#include "../../../src/util/element_generator.h"
using namespace vf;
template<int D> void one(Rng &g) {
  GenOpt o; o.pmin = 1; o.pmax = D == 1 ? 4 : D == 2 ? 3 : 2; o.spans = D == 1 ? 5 : D == 2 ? 4 : 2; o.dimmin = o.dimmax = std::max(2, D); auto s = shape<D>(g, true, o); note(s.text()); std::shared_ptr<spl::NURBS<D>> sp = s.nurbs(); iga::elm::ElementGenerator<D> eg(sp); iga::ConnectivityHandler<D> ch(sp); iga::MappingHandler<D> mh(sp);
  std::array<std::vector<double>, D> br; std::array<int, D> ne; int total = 1, local = 1;
  for (int d = 0; d < D; ++d) { br[d] = distinct(s.U[d]); ne[d] = static_cast<int>(br[d].size()) - 1; total *= ne[d]; local *= s.p[d] + 1; auto L = eg.GetElementList(d); require(static_cast<int>(L.size()) == ne[d], "direction ", d, ": ", L.size(), " elements for ", ne[d], " non-empty spans"); for (int e = 0; e < ne[d]; ++e) require(L[e].GetLowerBound().get() == br[d][e] && L[e].GetUpperBound().get() == br[d][e + 1], "element ", e, " bounds"); }
  { util::ElementGenerator<D> ug(sp); for (int d = 0; d < D; ++d) { auto L = ug.GetElementList(d); require(static_cast<int>(L.size()) == ne[d], "util: elements"); for (int e = 0; e < ne[d]; ++e) require(L[e].GetLowerBound().get() == br[d][e] && L[e].GetUpperBound().get() == br[d][e + 1], "util: element ", e, " bounds"); } }
  require(eg.GetNumElementsPerParamDir() == ne, "elements per direction"); require(eg.GetNumberOfElements() == total, "number of elements");
  for (int e = 0; e < total; ++e) {
    auto t = tuple_of<D>(ne, e); require(eg.GetElementIndices(e) == t, "indices of element ", e); require(eg.Get1DElementIndex(t) == e, "number of element ", list(t));
    std::array<double, D> mid, xi; std::array<std::vector<int>, D> act; for (int d = 0; d < D; ++d) { xi[d] = g.in(-16, 16) / 16.0; double lo = br[d][t[d]], hi = br[d][t[d] + 1]; mid[d] = lo + (hi - lo) * g.in(1, 15) / 16.0; for (int i = 0; i < s.n[d]; ++i) if (s.U[d][i] <= lo && s.U[d][i + s.p[d] + 1] >= hi) act[d].push_back(i); require(static_cast<int>(act[d].size()) == s.p[d] + 1, "harness"); }
    require(eg.GetElementNumberAtParamCoord(pc<D>(mid)) == e, "element at ", list(mid), " is ", eg.GetElementNumberAtParamCoord(pc<D>(mid)), " instead of ", e);
    std::array<double, D> lowc; for (int d = 0; d < D; ++d) lowc[d] = br[d][t[d]]; require(eg.GetElementNumberAtParamCoord(pc<D>(lowc)) == e, "element at its lower corner ", list(lowc));
    std::array<int, D> ln; for (int d = 0; d < D; ++d) ln[d] = s.p[d] + 1;
    for (int k = 0; k < local; ++k) { auto lt = tuple_of<D>(ln, k); long gi = 0, st = 1; for (int d = 0; d < D; ++d) { gi += act[d][lt[d]] * st; st *= s.n[d]; } int got = ch.GetGlobalIndex(e, k); require(got == gi + 1, "element ", e, " local function ", k, " has global number ", got, " instead of ", gi + 1); }
    auto r = mh.Reference2ParameterSpace(e, xi); for (int d = 0; d < D; ++d) { double lo = br[d][t[d]], hi = br[d][t[d] + 1], ex = lo + (hi - lo) * (xi[d] + 1) / 2; require(near(r[d].get(), ex, 1e-13), "reference point ", list(xi), " of element ", e, " maps to ", r[d].get(), " instead of ", ex); }
    // Jacobian of reference -> physical: sqrt(det(J^T J))
    std::vector<std::vector<LD>> J(D); for (int d = 0; d < D; ++d) { std::array<int, D> k{}; k[d] = 1; J[d] = s.ref(mid, k); for (auto &x : J[d]) x *= (br[d][t[d] + 1] - br[d][t[d]]) / 2; }
    LD G[3][3]; for (int a = 0; a < D; ++a) for (int b = 0; b < D; ++b) { G[a][b] = 0; for (int c = 0; c < s.dim; ++c) G[a][b] += J[a][c] * J[b][c]; }
    LD det = D == 1 ? G[0][0] : D == 2 ? G[0][0] * G[1][1] - G[0][1] * G[1][0] : G[0][0] * (G[1][1] * G[2][2] - G[1][2] * G[2][1]) - G[0][1] * (G[1][0] * G[2][2] - G[1][2] * G[2][0]) + G[0][2] * (G[1][0] * G[2][1] - G[1][1] * G[2][0]);
    double want = std::sqrt(std::fabs(static_cast<double>(det))), have = mh.GetJacobianDeterminant(pc<D>(mid)); LD scale = 1; for (int a = 0; a < D; ++a) scale *= G[a][a]; require(std::fabs(have * have - want * want) <= 1e-9 * (static_cast<double>(scale) + 1e-12), "Jacobian determinant ", have, " instead of ", want, " at ", list(mid));
    if (s.dim == D && want > 1e-2) { auto m = mh.GetDxiDx(pc<D>(mid)); for (int a = 0; a < D; ++a) for (int b = 0; b < D; ++b) { LD sum = 0; for (int c = 0; c < D; ++c) { LD dx = J[b][c] / ((br[b][t[b] + 1] - br[b][t[b]]) / 2); sum += dx * m(a, c); } require(std::fabs(static_cast<double>(sum) - (a == b)) < 1e-6, "inverse of the parameter derivative at ", list(mid)); } }
  }
  // right end belongs to the last element
  std::array<double, D> end; for (int d = 0; d < D; ++d) end[d] = s.U[d].back(); require(eg.GetElementNumberAtParamCoord(pc<D>(end)) == total - 1, "element at the right end");
}
int main(int c, char **v) { return drive(c, v, {{"one", one<1>, 60, 2000}, {"two", one<2>, 30, 600}, {"three", one<3>, 6, 60}}); }
