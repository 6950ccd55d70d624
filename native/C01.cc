#include "vf.h"
#include "multi_index_handler.h"
using namespace vf;
template<int D> long lin(const std::array<int, D> &L, const std::array<int, D> &d) { long r = 0, m = 1; for (int i = 0; i < D; ++i) { r += d[i] * m; m *= L[i]; } return r; }
template<int D> std::array<int, D> tup(const std::array<int, D> &L, long r) { std::array<int, D> d; for (int i = 0; i < D; ++i) { d[i] = r % L[i]; r /= L[i]; } return d; }
template<int D> void one(Rng &g) {
  std::array<int, D> L; long total = 1;
  for (auto &x : L) { x = g.in(1, D == 1 ? 40 : D == 2 ? 9 : 5); total *= x; }
  note(str("D=", D, " lengths=", list(L)));
  util::MultiIndexHandler<D> h(L);
  require(h.Get1DLength() == total, "total length ", h.Get1DLength());
  require(h.Get1DIndex() == 0, "start index");
  long r = 0;
  auto check = [&](const char *op) {
    auto d = tup<D>(L, r);
    require(h.GetIndices() == d, op, ": tuple ", list(h.GetIndices()), " expected ", list(d));
    for (int i = 0; i < D; ++i) require(h[i] == d[i], op, ": operator[]");
    require(h.Get1DIndex() == r, op, ": linear index ", h.Get1DIndex(), " expected ", r);
    require(h.Get1DIndex(d) == r, op, ": linear index of tuple");
    require(h.Get1DLength() == total, op, ": length changed");
    auto m = h.GetDifferenceIndices();
    for (int i = 0; i < D; ++i) require(m[i] == L[i] - 1 - d[i], op, ": difference tuple");
    for (int k = 0; k < D; ++k) {
      long e = 0, mul = 1; for (int i = 0; i < D; ++i) if (i != k) { e += d[i] * mul; mul *= L[i]; }
      require(h.ExtractDimension(k) == e, op, ": dropping direction ", k, " gives ", h.ExtractDimension(k), " expected ", e);
    }
  };
  for (long s = 0; s <= total; ++s) { check("++"); ++h; r = (r + 1) % total; }
  for (long s = 0; s <= total; ++s) { check("--"); --h; r = (r + total - 1) % total; }
  for (int s = 0; s < 25; ++s) {
    switch (g.in(0, 5)) {
      case 0: { auto o = h++; require(o.Get1DIndex() == r, "post-increment value"); r = (r + 1) % total; check("post++"); break; }
      case 1: { int n = g.in(0, static_cast<int>(2 * total)); h + n; r = (r + n) % total; check("+"); break; }
      case 2: { int n = g.in(0, static_cast<int>(2 * total)); h - n; r = ((r - n) % total + total) % total; check("-"); break; }
      case 3: { r = g.in(0, static_cast<int>(total - 1)); h.SetIndices(tup<D>(L, r)); check("SetIndices"); break; }
      case 4: { r = g.in(0, static_cast<int>(total - 1)); h.Set1DIndex(static_cast<int>(r)); check("Set1DIndex"); break; }
      default: { std::array<int, D> M, e; for (int i = 0; i < D; ++i) { M[i] = g.in(1, 6); e[i] = g.in(0, M[i] - 1); } require(h.Get1DIndex(M, e) == lin<D>(M, e), "linear index with lengths"); check("Get1DIndex"); }
    }
  }
}
int main(int c, char **v) { return drive(c, v, {{"D1", one<1>, 60, 2000}, {"D2", one<2>, 60, 2000}, {"D3", one<3>, 60, 2000}, {"D4", one<4>, 40, 1000}}); }
