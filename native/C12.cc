#include "splgen.h"
#include "b_spline_generator.h"
#include "nurbs_generator.h"
using namespace vf;
template<int D> bool same(const Shape<D> &a, const Shape<D> &b) { return a.U == b.U && a.p == b.p && a.n == b.n && a.P == b.P && a.w == b.w; }
template<int D, class S> void mutate(Rng &g, S &sp, const Shape<D> &s) {
  int q = g.in(0, D - 1); const auto &U = s.U[q];
  switch (g.in(0, 3)) {
    case 0: sp.InsertKnot(ParamCoord{U.front() + (U.back() - U.front()) * g.in(1, 31) / 32.0}, q); break;
    case 1: sp.ElevateDegreeForDimension(q); break;
    case 2: { double u = U.front() + (U.back() - U.front()) * 0.515625; sp.InsertKnot(ParamCoord{u}, q); sp.RemoveKnot(ParamCoord{u}, q, 1e-7); break; }
    default: (*sp.GetKnotVector(q))[0] = ParamCoord{U.front() - 1};
  }
}
template<int D, class S> void copies(Rng &g, std::shared_ptr<S> a, const Shape<D> &s) {
  note(s.text()); S b(*a); require(a->AreEqual(b) && b.AreEqual(*a), "copy is not equal"); require(same<D>(read<D>(b, s.rational), s), "copy differs");
  int k = g.in(0, 1); if (k) { mutate<D>(g, *a, s); require(same<D>(read<D>(b, s.rational), s), "changing the original changes the copy"); auto u = params<D>(g, s); auto e = s.ref(u); auto v = b.Evaluate(pc<D>(u), alldims(s.dim)); for (int c = 0; c < s.dim; ++c) require(near(v[c], static_cast<double>(e[c]), 1e-9), "changing the original changes the evaluation of the copy"); }
  else { mutate<D>(g, b, s); require(same<D>(read<D>(*a, s.rational), s), "changing the copy changes the original"); }
  auto ra = read<D>(*a, s.rational), rb = read<D>(b, s.rational); if (ra.U != rb.U || ra.p != rb.p) require(!a->AreEqual(b, 1e-13), "different splines compare equal");
}
template<int D, class S> void equal(Rng &g, std::shared_ptr<S> a, Shape<D> s) {
  note(s.text()); double tol = 1e-3, f = g.flip() ? 0.5 : 2, d = (g.flip() ? 1 : -1) * f * tol; int what = g.in(0, 3); bool expect = f < 1; auto t = s;
  if (what == 0) { long l = g.in(0, static_cast<int>(s.total) - 1); t.P[l][g.in(0, s.dim - 1)] += d; }
  else if (what == 1 && s.rational) { t.w[g.in(0, static_cast<int>(s.total) - 1)] += d; }
  else if (what == 2) { int q = g.in(0, D - 1); for (auto &x : t.U[q]) if (x == s.U[q].back()) x += std::fabs(d); }
  else { int q = g.in(0, D - 1); bool any = false; for (auto &x : t.U[q]) if (x > s.U[q].front() && x < s.U[q].back()) { x += d; any = true; } if (!any) expect = true; }
  auto mk = [&](const Shape<D> &x) { if constexpr (std::is_same<S, spl::NURBS<D>>::value) return x.nurbs(); else return x.bspline(); };
  auto b = mk(t); require(a->AreEqual(*b, tol) == expect && b->AreEqual(*a, tol) == expect, "equality with tolerance ", tol, " is ", a->AreEqual(*b, tol), " for a difference ", d, " of kind ", what); if (!same<D>(s, t)) require(!a->AreEqual(*b), "equality without tolerance ignores a difference");
  auto c = mk(s); require(a->AreEqual(*c), "equal splines compare different");
  // fewer points, other degree
  Shape<D> u = s; int q = g.in(0, D - 1); std::array<int, D> n = s.n; (void) n; auto e = mk(s); e->ElevateDegreeForDimension(q); require(!a->AreEqual(*e, 1e6) && !e->AreEqual(*a, 1e6), "different degrees compare equal");
}
template<int D> void one(Rng &g, bool c) {
  GenOpt o; o.pmin = 1; o.pmax = 2; o.spans = D > 2 ? 2 : 3; bool r = g.flip(); auto s = shape<D>(g, r, o); note(s.text());
  if (r) { auto a = s.nurbs(); if (c && g.in(0, 2) == 0) {
      std::vector<baf::ControlPoint> np; auto t = s; for (auto &x : t.P) { for (auto &y : x) y = g.in(-40, 40) / 8.0; np.emplace_back(x); }
      spl::NURBS<D> b(*a, np); require(same<D>(read<D>(b, true), t), "spline with new control points does not keep the rest"); mutate<D>(g, b, s); require(same<D>(read<D>(*a, true), s), "changing the derived spline changes the original"); return; }
    c ? copies<D>(g, a, s) : equal<D>(g, a, s); } else { auto a = s.bspline(); c ? copies<D>(g, a, s) : equal<D>(g, a, s); }
}
// building from knot vectors and points does not alias the caller's objects
template<int D> void ctor(Rng &g) {
  GenOpt o; o.pmin = 1; o.pmax = 2; o.spans = 2; bool r = g.flip(); auto s = shape<D>(g, r, o); note(s.text()); auto kv = s.kv(); auto cp = s.cps();
  std::shared_ptr<spl::Spline<D>> a; if (r) a = std::make_shared<spl::NURBS<D>>(kv, s.deg(), cp, s.w); else a = std::make_shared<spl::BSpline<D>>(kv, s.deg(), cp);
  (*kv[g.in(0, D - 1)])[0] = ParamCoord{-77}; cp[0].SetValue(0, 1234); require(same<D>(read<D>(*a, r), s), "the spline shares the caller's knot vectors or points");
}
// geometric comparison: same geometry in another representation, and a shifted copy
template<int D> void geom(Rng &g) {
  GenOpt o; o.pmin = 1; o.pmax = 2; o.spans = 2; bool r = g.flip(); auto s = shape<D>(g, r, o); int q = g.in(0, D - 1); note(s.text());
  auto mk = [&](const Shape<D> &x) { std::shared_ptr<spl::Spline<D>> y; if (r) y = x.nurbs(); else y = x.bspline(); return y; };
  auto a = mk(s), b = mk(s); const auto &U = s.U[q]; double u = U.front() + (U.back() - U.front()) * g.in(1, 31) / 32.0; if (mult(U, u) < s.p[q]) b->InsertKnot(ParamCoord{u}, q); if (g.flip()) b->ElevateDegreeForDimension(q);
  require(a->AreGeometricallyEqual(*b, 1e-6) && b->AreGeometricallyEqual(*a, 1e-6), "refined spline is not geometrically equal");
  auto t = s; double d = (g.flip() ? 1 : -1) * (g.flip() ? 0.5 : 2.0) * 1e-2; int c = g.in(0, s.dim - 1); for (auto &x : t.P) x[c] += d; auto e = mk(t); bool exp = std::fabs(d) < 1e-2; require(a->AreGeometricallyEqual(*e, 1e-2) == exp && e->AreGeometricallyEqual(*a, 1e-2) == exp, "a copy moved by ", d, " compared with tolerance 0.01");
  // a difference only near the end of one direction: the corner point
  auto v = s; v.P[s.total - 1][c] += 5; auto w = mk(v); require(!a->AreGeometricallyEqual(*w, 1e-2) && !w->AreGeometricallyEqual(*a, 1e-2), "different end points compare equal"); v = s; v.P[0][c] += 5; w = mk(v); require(!a->AreGeometricallyEqual(*w, 1e-2), "different start points compare equal");
}
#define S(D, w) [](Rng &g) { one<D>(g, w); }
int main(int c, char **v) { return drive(c, v, {{"copy1", S(1, true), 200, 4000}, {"copy2", S(2, true), 120, 2000}, {"copy3", S(3, true), 20, 300}, {"equal1", S(1, false), 200, 4000}, {"equal2", S(2, false), 100, 2000}, {"equal3", S(3, false), 20, 200}, {"ctor1", ctor<1>, 60, 1000}, {"ctor2", ctor<2>, 40, 600}, {"geom1", geom<1>, 60, 1000}, {"geom2", geom<2>, 30, 400}, {"geom3", geom<3>, 6, 60}}); }
