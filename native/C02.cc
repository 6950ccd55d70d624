#include "vf.h"
#include "knot_vector.h"
using namespace vf;
static std::vector<double> sorted(Rng &g, int lo, int hi) {
  int n = g.in(lo, hi); std::vector<double> U; double u = g.in(-4, 4);
  for (int i = 0; i < n; ++i) { U.push_back(u); if (g.in(0, 2)) u += g.in(0, 3) ? g.in(1, 12) / 8.0 : g.flip() ? g.real(1e-6, 3) : std::pow(10, -g.real(0, 9)); }
  if (U.front() == U.back()) U.back() += 1;
  return U;
}
static std::vector<double> get(const baf::KnotVector &k) { std::vector<double> v; for (size_t i = 0; i < k.GetNumberOfKnots(); ++i) v.push_back(k.GetKnot(i).get()); return v; }
static std::vector<ParamCoord> pcs(const std::vector<double> &u) { std::vector<ParamCoord> c; for (double x : u) c.emplace_back(x); return c; }
static double pick(Rng &g, const std::vector<double> &U) {
  switch (g.in(0, 4)) { case 0: return U.back(); case 1: return U.front(); case 2: return U[g.in(0, static_cast<int>(U.size()) - 1)]; default: { int k = g.in(0, 32); return k == 32 ? U.back() : U.front() + (U.back() - U.front()) * k / 32.0; } }
}
static void spans(Rng &g) {
  auto U = sorted(g, 2, 14); baf::KnotVector k(pcs(U)); note(list(U));
  require(get(k) == U, "stored knots differ"); require(k.GetNumberOfKnots() == U.size(), "number of knots"); require(k.GetLastKnot().get() == U.back(), "last knot");
  auto d = U; d.erase(std::unique(d.begin(), d.end()), d.end());
  require(k.GetNumberOfDifferentKnots() == static_cast<int>(d.size()), "different knots ", k.GetNumberOfDifferentKnots());
  for (int t = 0; t < 12; ++t) {
    double u = pick(g, U); int s = k.GetKnotSpan(ParamCoord{u}).get(), e = 0;
    if (u == U.back()) { e = static_cast<int>(U.size()) - 2; while (U[e] == U.back()) --e; }
    else for (size_t i = 0; i + 1 < U.size(); ++i) if (U[i] <= u && u < U[i + 1]) e = static_cast<int>(i);
    require(s == e, "span of ", u, " is ", s, " expected ", e);
    require(static_cast<long>(k.GetMultiplicity(ParamCoord{u})) == std::count(U.begin(), U.end(), u), "multiplicity of ", u);
    require(k.IsInKnotVectorRange(ParamCoord{u}), "in range ", u); require(k.IsLastKnot(ParamCoord{u}) == (u == U.back()), "last knot test ", u);
    require(!k.IsInKnotVectorRange(ParamCoord{U.back() + g.real(1e-6, 2)}) && !k.IsInKnotVectorRange(ParamCoord{U.front() - g.real(1e-6, 2)}), "outside counted as in range");
  }
  require(get(k) == U, "queries changed the knots");
}
static void edit(Rng &g) {
  auto U = sorted(g, 2, 12); baf::KnotVector k(pcs(U));
  std::string h = list(U);
  for (int t = 0; t < 12; ++t) {
    if (g.flip() || U.size() < 4) { double u = pick(g, U); h += str(" +", u); note(h); k.InsertKnot(ParamCoord{u}); U.insert(std::upper_bound(U.begin(), U.end(), u), u); }
    else { double u = U[g.in(0, static_cast<int>(U.size()) - 1)]; auto V = U; V.erase(std::find(V.begin(), V.end(), u)); if (V.front() == V.back()) continue; h += str(" -", u); note(h); k.RemoveKnot(ParamCoord{u}); U = V; }
    require(get(k) == U, "knots are ", list(get(k)), " expected ", list(U));
  }
}
static void equality(Rng &g) {
  auto U = sorted(g, 2, 10); auto V = U; double tol = g.flip() ? 1e-3 : 0.25; note(list(U));
  baf::KnotVector a(pcs(U));
  require(a == a && a.AreEqual(a, tol), "not equal to itself");
  int i = g.in(0, static_cast<int>(U.size()) - 1); double f = g.flip() ? 0.5 : 1.5; V[i] += (g.flip() ? 1 : -1) * f * tol;
  baf::KnotVector b(pcs(V));
  require(a.AreEqual(b, tol) == (f < 1), "tolerance test with knot ", i, " off by ", f * tol, " tol ", tol); require(b.AreEqual(a, tol) == (f < 1), "tolerance test not symmetric");
  require(!(a == b), "== ignores a difference");
  auto W = U; W.push_back(U.back() + 1); baf::KnotVector c(pcs(W)); require(!a.AreEqual(c, 10) && !c.AreEqual(a, 10) && !(a == c), "different lengths compare equal");
  auto d = a - b; for (size_t j = 0; j < U.size(); ++j) require(d.GetKnot(j).get() == U[j] - V[j], "difference entry ", j);
  baf::KnotVector cp(a); cp[0] = ParamCoord{U[0] - 1}; require(a.GetKnot(0).get() == U[0], "copy shares storage"); baf::KnotVector as; as = a; require(get(as) == U, "assignment"); baf::KnotVector mv(std::move(as)); require(get(mv) == U, "move");
  baf::KnotVector it(a.begin(), a.end()); require(get(it) == U, "iterator constructor");
}
static void averaging(Rng &g) {
  int p = g.in(1, 5), n = g.in(p + 1, p + 8); std::vector<double> t; double u = g.in(-3, 3); for (int i = 0; i < n; ++i) { t.push_back(u); u += g.real(0.01, 2); }
  note(str("p=", p, " data=", list(t)));
  baf::KnotVector k(pcs(t), Degree{p}, n);
  std::vector<double> e(p + 1, t[0]);
  for (int j = 1; j <= n - 1 - p; ++j) { LD s = 0; for (int i = j; i < j + p; ++i) s += t[i]; e.push_back(static_cast<double>(s / p)); }
  for (int i = 0; i <= p; ++i) e.push_back(t.back());
  auto G = get(k); require(G.size() == e.size(), "number of knots ", G.size()); for (size_t i = 0; i < e.size(); ++i) require(near(G[i], e[i], 1e-13), "knot ", i, " is ", G[i], " expected ", e[i]);
}
int main(int c, char **v) { return drive(c, v, {{"spans", spans, 400, 20000}, {"edit", edit, 400, 20000}, {"equality", equality, 200, 5000}, {"averaging", averaging, 200, 5000}}); }
