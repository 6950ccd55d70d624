#include "iogen.h"
#include "vtk_writer.h"
using namespace vf;
template<int D> std::vector<LD> at(const Shape<D> &s, const std::vector<int> &k, const std::vector<int> &sc) {
  std::array<double, D> u; for (int i = 0; i < D; ++i) { double lo = s.U[i].front(), hi = s.U[i].back(); u[i] = k[i] == sc[i] ? hi : std::min(hi, lo + k[i] * (hi - lo) / sc[i]); }
  return s.ref(u);
}
std::vector<LD> at(const Item &it, const std::vector<int> &k, const std::vector<int> &sc) { return it.D == 1 ? at<1>(it.s1, k, sc) : it.D == 2 ? at<2>(it.s2, k, sc) : at<3>(it.s3, k, sc); }
int pdim(const Item &it) { return it.D == 1 ? it.s1.dim : it.D == 2 ? it.s2.dim : it.D == 3 ? it.s3.dim : it.s4.dim; }
void file(Rng &g) {
  std::vector<Item> in; int n = g.in(1, 3); std::string t; std::vector<std::any> a; std::vector<std::vector<int>> sc;
  for (int i = 0; i < n; ++i) {
    Item it; it.D = g.in(1, 3); it.rational = g.flip(); GenOpt o; o.pmin = 1; o.pmax = 2; o.spans = 2; o.dimmin = 1; o.dimmax = 4; o.dyadic = g.flip(); o.maxmult = 1;
    if (it.D == 1) { it.s1 = shape<1>(g, it.rational, o); it.any = to_any(it.s1); } else if (it.D == 2) { it.s2 = shape<2>(g, it.rational, o); it.any = to_any(it.s2); } else { it.s3 = shape<3>(g, it.rational, o); it.any = to_any(it.s3); }
    in.push_back(it); a.push_back(it.any); std::vector<int> s; for (int d = 0; d < it.D; ++d) s.push_back(g.in(1, it.D == 1 ? 9 : it.D == 2 ? 4 : 3)); sc.push_back(s); t += it.text() + " scattering " + list(s) + " | ";
  }
  note(t); std::string f = scratch(".vtk"); Cleanup c; c.f.push_back(f); io::VTKWriter w; w.WriteFile(a, f, sc);
  std::ifstream f1(f); std::string l; auto expect = [&](const std::string &e) { require(static_cast<bool>(std::getline(f1, l)), "file ends before ", e); require(l.substr(0, e.size()) == e, "line '", l, "' instead of '", e, "'"); };
  expect("# vtk DataFile"); require(static_cast<bool>(std::getline(f1, l)), "title missing"); expect("ASCII");
  std::string w1, w2; auto word = [&](const char *e) { f1 >> w1; require(w1 == e, "'", w1, "' instead of '", e, "'"); };
  while (f1 >> w1) if (w1 == "DATASET") break; word("UNSTRUCTURED_GRID");
  long np = 0, nc = 0, ne = 0; std::vector<long> off; for (auto &s : sc) { off.push_back(np); long p = 1, q = 1; for (int x : s) { p *= x + 1; q *= x; } np += p; nc += q; ne += q * ((1 << s.size()) + 1); }
  word("POINTS"); long k; f1 >> k >> w2; require(k == np, k, " points announced instead of ", np);
  for (int i = 0; i < n; ++i) {
    std::vector<int> id(in[i].D, 0);
    while (true) {
      auto e = at(in[i], id, sc[i]);
      for (int q = 0; q < 3; ++q) { double x; require(static_cast<bool>(f1 >> x), "point missing"); double ex = q < pdim(in[i]) ? static_cast<double>(e[q]) : 0; require(std::fabs(x - ex) <= 1e-5 * std::fabs(ex) + 1e-9, "spline ", i, " grid point ", list(id), " coordinate ", q, " is ", x, " instead of ", ex); }
      int d = 0; for (; d < in[i].D; ++d) { if (++id[d] <= sc[i][d]) break; id[d] = 0; } if (d == in[i].D) break;
    }
  }
  word("CELLS"); long k1, k2; f1 >> k1 >> k2; require(k1 == nc && k2 == ne, "CELLS ", k1, " ", k2, " instead of ", nc, " ", ne);
  std::vector<int> types;
  for (int i = 0; i < n; ++i) {
    int D = in[i].D; std::vector<int> id(D, 0); static const int loc[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
    while (true) {
      long m; require(static_cast<bool>(f1 >> m) && m == (1 << D), "cell ", list(id), " of spline ", i, " announces ", m, " points"); std::vector<long> pt;
      for (int q = 0; q < m; ++q) { long x; require(static_cast<bool>(f1 >> x), "cell incomplete"); long e = 0, st = 1; for (int d = 0; d < D; ++d) { e += (id[d] + loc[q][d]) * st; st *= sc[i][d] + 1; } pt.push_back(x); require(x == e + off[i], "cell ", list(id), " of spline ", i, " corner ", q, " is point ", x, " instead of ", e + off[i]); }
      types.push_back(D == 1 ? 3 : D == 2 ? 9 : 12);
      int d = 0; for (; d < D; ++d) { if (++id[d] < sc[i][d]) break; id[d] = 0; } if (d == D) break;
    }
  }
  word("CELL_TYPES"); f1 >> k; require(k == nc, "CELL_TYPES ", k); for (int x : types) { int y; require(static_cast<bool>(f1 >> y) && y == x, "cell type ", y, " instead of ", x); }
  require(!(f1 >> w1), "unexpected data at the end: ", w1);
}
void reject(Rng &g) {
  auto it = item(g, 1, 3, 1, 3, false); std::vector<int> s(it.D, 2); int k = g.in(0, 3); std::vector<std::vector<int>> sc{s}; std::vector<std::any> a{it.any};
  if (k == 0) sc.clear(); if (k == 1) sc.push_back(s); if (k == 2) sc[0].push_back(1); if (k == 3) { auto j = item(g, 4, 4, 1, 3, false); a = {j.any}; sc = {{1, 1, 1, 1}}; }
  note(str("case ", k)); std::string f = scratch(".vtk"); Cleanup c; c.f.push_back(f); bool threw = false; try { io::VTKWriter().WriteFile(a, f, sc); } catch (const std::runtime_error &) { threw = true; } require(threw, "unfit scattering or dimension is accepted");
}
int main(int c, char **v) { return drive(c, v, {{"file", file, 80, 3000}, {"reject", reject, 20, 100}}); }
