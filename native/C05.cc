#include "splgen.h"
using namespace vf;
template<int D> void check(const spl::WeightedPhysicalSpace<D> &w, const spl::PhysicalSpace<D> &b, const Shape<D> &s) {
  require(w.GetPointsPerDirection() == s.n && b.GetPointsPerDirection() == s.n, "points per direction"); require(w.GetNumberOfControlPoints() == s.total && b.GetNumberOfControlPoints() == s.total, "number of points"); require(w.GetDimension() == s.dim && b.GetDimension() == s.dim, "dimension");
  auto mx = b.GetMaximumPointIndexInEachDirection(); for (int i = 0; i < D; ++i) require(mx[i] == s.n[i] - 1, "maximum index");
  double ex = 0, far = 0, mw = s.w[0];
  for (long l = 0; l < s.total; ++l) {
    auto t = tuple_of<D>(s.n, l); auto a = b.GetControlPoint(t), c = w.GetControlPoint(t), h = w.GetHomogenousControlPoint(t); LD q = 0;
    require(a.GetDimension() == s.dim && c.GetDimension() == s.dim && h.GetDimension() == s.dim + 1, "dimension of a point");
    for (int i = 0; i < s.dim; ++i) { require(a.GetValue(i) == s.P[l][i], "point ", list(t), " coordinate ", i, " is ", a.GetValue(i), " expected ", s.P[l][i]); require(c.GetValue(i) == s.P[l][i], "weighted point ", list(t), " coordinate ", i); require(near(h.GetValue(i), s.P[l][i] * s.w[l], 1e-14), "homogeneous point ", list(t), " coordinate ", i); ex = std::max(ex, s.P[l][i]); q += static_cast<LD>(s.P[l][i]) * s.P[l][i]; }
    require(h.GetValue(s.dim) == s.w[l], "homogeneous weight ", list(t)); require(w.GetWeight(t) == s.w[l], "weight ", list(t), " is ", w.GetWeight(t)); require(b.GetWeight(t) == 1, "weight of an unweighted net");
    far = std::max(far, static_cast<double>(sqrtl(q))); mw = std::min(mw, s.w[l]);
  }
  require(near(b.GetExpansion(), ex, 1e-15), "expansion ", b.GetExpansion(), " expected ", ex); require(near(b.GetMaximumDistanceFromOrigin(), far, 1e-13), "maximum distance ", b.GetMaximumDistanceFromOrigin(), " expected ", far); require(w.GetMinimumWeight() == mw, "minimum weight"); require(w.GetWeights() == s.w, "weights");
}
template<int D> Shape<D> net(Rng &g) {
  Shape<D> s; s.total = 1; s.rational = true; s.dim = g.in(1, 4); for (int i = 0; i < D; ++i) { s.n[i] = g.in(1, D > 2 ? 3 : 5); s.total *= s.n[i]; }
  for (long l = 0; l < s.total; ++l) { std::vector<double> c; for (int i = 0; i < s.dim; ++i) c.push_back(g.in(-99, 99) / 8.0); s.P.push_back(c); s.w.push_back(g.in(1, 40) / 8.0); }
  return s;
}
template<int D> std::string txt(const Shape<D> &s) { std::string r = str("n=", list(s.n), " dim=", s.dim, " w=", list(s.w), " P="); for (auto &p : s.P) r += list(p); return r; }
template<int D> void access(Rng &g) {
  auto s = net<D>(g); note(txt<D>(s));
  spl::WeightedPhysicalSpace<D> w(s.cps(), s.w, s.n); spl::PhysicalSpace<D> b(s.cps(), s.n); check<D>(w, b, s);
  spl::WeightedPhysicalSpace<D> w2(w); spl::PhysicalSpace<D> b2(b); const auto s0 = s;
  for (int t = 0; t < 6; ++t) {
    long l = g.in(0, static_cast<int>(s.total) - 1); auto id = tuple_of<D>(s.n, l); std::vector<double> c; for (int i = 0; i < s.dim; ++i) c.push_back(g.in(-99, 99) / 8.0); double x = g.in(1, 40) / 8.0;
    s.P[l] = c; b.SetControlPoint(id, baf::ControlPoint(c));
    switch (g.in(0, 1)) { case 0: w.SetWeightedControlPoint(id, baf::ControlPoint(c), x); s.w[l] = x; break; default: w.SetControlPoint(id, baf::ControlPoint(c)); if (g.flip()) { w.SetWeight(id, x); s.w[l] = x; } }
    check<D>(w, b, s);
  }
  check<D>(w2, b2, s0);
  // slabs
  int q = g.in(0, D - 1), first = g.in(0, s.n[q] - 1), len = g.in(1, s.n[q] - first); auto m = s.n; m[q] = len; long tot = 1; for (int x : m) tot *= x;
  auto dp = w.GetDividedControlPoints(first, len, q); auto dw = w.GetDividedWeights(first, len, q); require(static_cast<long>(dp.size()) == tot && static_cast<long>(dw.size()) == tot, "slab size");
  for (long l = 0; l < tot; ++l) { auto id = tuple_of<D>(m, l); id[q] += first; long k = 0, mul = 1; for (int i = 0; i < D; ++i) { k += id[i] * mul; mul *= s.n[i]; } for (int i = 0; i < s.dim; ++i) require(dp[l].GetValue(i) == s.P[k][i], "slab point ", l); require(dw[l] == s.w[k], "slab weight ", l); }
  // adding and removing at the end, growing the last direction
  int layer = static_cast<int>(s.total / s.n[D - 1]), add = g.in(1, 3); w.AddControlPoints(layer * add); b.AddControlPoints(layer * add);
  require(w.GetNumberOfControlPoints() == s.total + layer * add && b.GetNumberOfControlPoints() == s.total + layer * add, "adding points");
  for (int i = 0; i < add; ++i) { w.IncrementNumberOfPoints(D - 1); b.IncrementNumberOfPoints(D - 1); }
  for (long l = 0; l < s.total; ++l) { auto id = tuple_of<D>(s.n, l); for (int i = 0; i < s.dim; ++i) require(w.GetControlPoint(id).GetValue(i) == s.P[l][i] && b.GetControlPoint(id).GetValue(i) == s.P[l][i], "adding points changed ", list(id)); require(w.GetWeight(id) == s.w[l], "adding points changed a weight"); }
  w.RemoveControlPoints(layer * add); b.RemoveControlPoints(layer * add);
  if (g.flip()) for (int i = 0; i < add; ++i) { w.DecrementNumberOfPoints(D - 1); b.DecrementNumberOfPoints(D - 1); } else { w.SetNumberOfPoints(D - 1, s.n[D - 1]); b.SetNumberOfPoints(D - 1, s.n[D - 1]); }
  check<D>(w, b, s);
  // equality
  auto e = s; spl::WeightedPhysicalSpace<D> we(e.cps(), e.w, e.n); spl::PhysicalSpace<D> be(e.cps(), e.n); require(w.AreEqual(we) && b.AreEqual(be), "equal nets compare different");
  long l = g.in(0, static_cast<int>(s.total) - 1); double tol = 1e-3, f = g.flip() ? 0.5 : 2; auto x = s; if (g.flip()) x.w[l] += f * tol; else { x.P[l][g.in(0, s.dim - 1)] -= f * tol; spl::PhysicalSpace<D> bx(x.cps(), x.n); require(b.AreEqual(bx, tol) == (f < 1), "net equality with tolerance"); }
  spl::WeightedPhysicalSpace<D> wx(x.cps(), x.w, x.n); require(w.AreEqual(wx, tol) == (f < 1), "weighted net equality with tolerance");
}
template<int D> void ctor(Rng &g) {
  auto s = net<D>(g); note(txt<D>(s)); bool bad = true, bw = true;
  switch (g.in(0, 4)) {
    case 0: s.P.pop_back(); if (s.P.empty()) return; s.w.pop_back(); break;
    case 1: s.P.push_back(s.P[0]); s.w.push_back(1); break;
    case 2: if (s.total < 2) { bad = bw = false; break; } s.P[g.in(1, static_cast<int>(s.total) - 1)].push_back(1); break;
    case 3: bad = false; if (g.flip() && s.total > 1) s.w.pop_back(); else s.w.push_back(1); break;
    default: bad = bw = false;
  }
  bool t1 = false, t2 = false; try { spl::PhysicalSpace<D> b(s.cps(), s.n); } catch (const std::runtime_error &) { t1 = true; } try { spl::WeightedPhysicalSpace<D> w(s.cps(), s.w, s.n); } catch (const std::runtime_error &) { t2 = true; }
  require(t1 == bad, bad ? "wrong net accepted" : "right net rejected"); require(t2 == (bad || bw), (bad || bw) ? "wrong weighted net accepted" : "right weighted net rejected");
}
int main(int c, char **v) { return drive(c, v, {{"access1", access<1>, 150, 4000}, {"access2", access<2>, 150, 4000}, {"access3", access<3>, 80, 2000}, {"access4", access<4>, 30, 500}, {"ctor1", ctor<1>, 100, 1000}, {"ctor2", ctor<2>, 100, 1000}, {"ctor3", ctor<3>, 60, 1000}}); }
