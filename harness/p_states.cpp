// C23: state manifolds.  The built-in vector state over small dimensions, points and displacements, every
// Jacobian component and assignment mode; the numerical-differentiation state and the convenience wrappers of
// the base class over a curved manifold with non-trivial Jacobians.
#include "models.hpp"
#include "crocoddyl/core/numdiff/state.hpp"
using namespace crocoddyl;

static Mat fill(long n, int k) { return Gen(50 + k).mat(n, n); }
static Mat mode(const Mat& before, const Mat& J, AssignmentOp op) { return op == setto ? J : op == addto ? Mat(before + J) : Mat(before - J); }
static const Jcomponent JC[] = {both, first, second};
static const AssignmentOp OP[] = {setto, addto, rmfrom};

static void euclidean(mc::Ctx& c) {
  const long n = 1 + c.choose(c.thorough ? 5 : 4, "n");
  StateVector s(n);
  const std::vector<double> X = {0., 0.25, -1.5, 8.};
  Vec x0(n), x1(n), dx(n);
  const bool full = n <= 2;
  for (long i = 0; i < n; ++i) {
    const size_t k = c.choose(full ? X.size() : 3, "x0");
    x0[i] = X[k];
    x1[i] = full ? X[c.choose(X.size(), "x1")] : X[(k * 2 + i + 1) % 4];
    dx[i] = full ? X[c.choose(X.size(), "dx")] : X[(k + 3 * i + 2) % 4];
  }
  c.op("n=%ld x0=%s x1=%s dx=%s", n, show(x0).c_str(), show(x1).c_str(), show(dx).c_str());
  c.check((long)s.get_nx() == n && (long)s.get_ndx() == n && (long)s.get_nv() == n / 2 && s.get_nq() + s.get_nv() == s.get_nx(), "dimensions", "wrong dimensions");
  c.check(same(s.zero(), Vec(Vec::Zero(n))), "zero", "zero() is not zero");
  c.check(s.rand().size() == n && finite(s.rand()), "rand", "rand() is not a point");
  Vec d = Vec::Constant(n, 77.), y = Vec::Constant(n, -33.), z(n);
  s.diff(x0, x1, d);
  s.integrate(x0, d, y);
  c.check(same(y, x1), "integrate-diff", "x0 (+) (x1 (-) x0) = " + show(y) + " is not x1");
  s.integrate(x0, dx, y);
  s.diff(x0, y, d);
  c.check(same(d, dx), "diff-integrate", "(x0 (+) dx) (-) x0 = " + show(d) + " is not dx");
  c.check(same(y, Vec(x0 + dx)), "integrate", "wrong integration");
  s.integrate(x0, Vec::Zero(n), y);
  c.check(same(y, x0), "neutral", "zero displacement moved the point");
  z = x0;
  s.integrate(z, dx, z);
  c.check(same(z, Vec(x0 + dx)), "alias", "wrong integration in place");
  c.check(same(s.diff_dx(x0, x1), Vec(x1 - x0)) && same(s.integrate_x(x0, dx), Vec(x0 + dx)), "wrappers", "diff_dx or integrate_x disagrees");
  const Jcomponent w = JC[c.choose(3, "component")];
  const AssignmentOp op = OP[c.choose(3, "operator")];
  Mat I = Mat::Identity(n, n), A = fill(n, 1), B = fill(n, 2), A0 = A, B0 = B;
  s.Jdiff(x0, x1, A, B, w);
  c.check(same(A, w == second ? A0 : Mat(-I)) && same(B, w == first ? B0 : I), "Jdiff", mc::strf("Jdiff component %d: ", (int)w) + show(A) + " " + show(B));
  A = A0, B = B0;
  s.Jintegrate(x0, dx, A, B, w, op);
  c.check(same(A, w == second ? A0 : mode(A0, I, op)) && same(B, w == first ? B0 : mode(B0, I, op)), "Jintegrate",
          mc::strf("Jintegrate component %d, assignment %d: ", (int)w, (int)op) + show(A) + " " + show(B));
  if (w != both) {
    A = A0;
    s.JintegrateTransport(x0, dx, A, w);
    c.check(same(A, A0), "transport", "transport by the identity changed the matrix");
  }
  c.state(mc::hash_mat(mc::hash_mat(mc::hash_mat(0, x0), x1), dx));
  c.outcome(mc::strf("component %d assignment %d", (int)w, (int)op));
}

struct Kind {
  StateP s, exact;
  bool numdiff;
};
static Kind make(int k) {
  StateP e = k & 1 ? StateP(std::make_shared<CurvedState>()) : StateP(std::make_shared<StateVector>(3));
  return {k & 2 ? StateP(std::make_shared<StateNumDiff>(e)) : e, e, (k & 2) != 0};
}
static Vec pointOf(const StateP& s, int i) {
  static const double A[] = {0., 0.7, -1.3, 2.4}, V[] = {0., 1.5, -0.4, 6.};
  if (s->get_ndx() == 2) return CurvedState::point(A[i], V[(i * 3 + 1) % 4]);
  return Vec(Eigen::Vector3d(A[i], V[i], A[(i + 1) % 4] - 1));
}

// base-class wrappers and the numerical-differentiation state
static void manifolds(mc::Ctx& c) {
  Kind k = make(c.choose(4, "state"));
  const int i0 = c.choose(4, "x0"), i1 = c.choose(4, "x1"), id = c.choose(4, "dx");
  const long n = k.s->get_ndx(), nx = k.s->get_nx();
  const Vec x0 = pointOf(k.exact, i0), x1 = pointOf(k.exact, i1);
  Vec dx = Gen(id).vec(n) * (id == 3 ? 0. : 0.9 * (1 + id));
  const double dist = k.numdiff ? c.pick({0., 1e-6, 1e-4}, "disturbance") : 0.;
  double h = 2.2e-8;
  if (dist > 0) static_cast<StateNumDiff*>(k.s.get())->set_disturbance(h = dist);
  const double tol = k.numdiff ? 60 * h + 60 * 4e-16 / h : 1e-12;
  c.op("state %s, x0=%s x1=%s dx=%s", k.numdiff ? "numdiff" : "exact", show(x0).c_str(), show(x1).c_str(), show(dx).c_str());
  c.check(k.s->get_nx() == k.exact->get_nx() && k.s->get_ndx() == k.exact->get_ndx() && k.s->get_nq() == k.exact->get_nq() && k.s->get_nv() == k.exact->get_nv(),
          "dimensions", "wrong dimensions");
  c.check(same(k.s->zero(), k.exact->zero()), "zero", "zero() differs");
  Vec d(n), y(nx), dr(n), yr(nx);
  k.s->diff(x0, x1, d), k.exact->diff(x0, x1, dr);
  k.s->integrate(x0, dx, y), k.exact->integrate(x0, dx, yr);
  c.check(same(d, dr) && same(k.s->diff_dx(x0, x1), dr), "diff", "diff differs from the wrapped state's");
  c.check(same(y, yr) && same(k.s->integrate_x(x0, dx), yr), "integrate", "integrate differs from the wrapped state's");
  const Jcomponent w = JC[c.choose(3, "component")];
  Mat A = fill(n, 1), B = fill(n, 2), A0 = A, B0 = B, Ar(n, n), Br(n, n);
  k.exact->Jdiff(x0, x1, Ar, Br, both);
  k.s->Jdiff(x0, x1, A, B, w);
  c.check(w == second ? same(A, A0) : close(A, Ar, tol), "Jdiff-first", mc::strf("component %d: ", (int)w) + show(A) + " expected " + show(Ar));
  c.check(w == first ? same(B, B0) : close(B, Br, tol), "Jdiff-second", mc::strf("component %d: ", (int)w) + show(B) + " expected " + show(Br));
  auto Js = k.s->Jdiff_Js(x0, x1, w);
  c.check(Js.size() == (w == both ? 2u : 1u) && close(Js[0], w == second ? Br : Ar, tol) && close(Js.back(), w == first ? Ar : Br, tol), "Jdiff_Js", "Jdiff_Js differs");
  A = A0, B = B0;
  Ar.setZero(), Br.setZero();
  k.exact->Jintegrate(x0, dx, Ar, Br, both, setto);
  k.s->Jintegrate(x0, dx, A, B, w, setto);
  c.check(w == second ? same(A, A0) : close(A, Ar, tol), "Jintegrate-first", mc::strf("component %d: ", (int)w) + show(A) + " expected " + show(Ar));
  c.check(w == first ? same(B, B0) : close(B, Br, tol), "Jintegrate-second", mc::strf("component %d: ", (int)w) + show(B) + " expected " + show(Br));
  Js = k.s->Jintegrate_Js(x0, dx, w);
  c.check(Js.size() == (w == both ? 2u : 1u) && close(Js[0], w == second ? Br : Ar, tol) && close(Js.back(), w == first ? Ar : Br, tol), "Jintegrate_Js", "Jintegrate_Js differs");
  c.state(mc::hash_mat(mc::hash_mat(mc::hash_mat(k.numdiff, x0), x1), dx));
  c.outcome(mc::strf("%s component %d", k.numdiff ? "numdiff" : "exact", (int)w));
}

// wrong sizes are refused and write nothing
static void sizes(mc::Ctx& c) {
  Kind k = make(c.pick({0, 2, 3}, "state"));
  const long n = k.s->get_ndx(), nx = k.s->get_nx();
  const int op = c.choose(4, "operation"), which = c.choose(4, "argument"), delta = c.pick({-1, 1, -2}, "delta");
  c.op("operation %d argument %d by %d", op, which, delta);
  auto sz = [&](int a, long v) { return a == which ? v + delta : v; };
  Mat A(sz(2, n), n), B(n, sz(3, n));
  A.setConstant(5), B.setConstant(6);
  const Mat A0 = A, B0 = B;
  Vec a = Vec::Zero(sz(0, nx)), o = Vec::Constant(sz(2, op == 0 ? n : nx), 9), o0 = o;
  Vec b = Vec::Zero(sz(1, op == 0 || op == 2 ? nx : n));
  bool t = false;
  if (op < 2) {
    if (which == 3) c.prune();
    t = throws([&] { op == 0 ? k.s->diff(a, b, o) : k.s->integrate(a, b, o); });
    c.check(same(o, o0), "refused-write", "a refused call wrote its output");
  } else {
    if (which < 2 && !k.numdiff) c.prune();  // the vector state's Jacobians do not depend on the points
    t = throws([&] { op == 2 ? k.s->Jdiff(a, b, A, B, both) : k.s->Jintegrate(a, b, A, B, both, setto); });
  }
  c.check(t, "wrong-size", mc::strf("operation %d accepted argument %d of wrong size", op, which));
  c.outcome(mc::strf("%d/%d", op, which));
}

// limits: after any sequence of edits the bounds are the last accepted ones and the flag tells whether any is finite
static void limits(mc::Ctx& c) {
  StateVector s(2);
  Vec lb = Vec::Constant(2, -INF), ub = Vec::Constant(2, INF);
  const size_t depth = c.thorough ? 5 : 4;
  for (size_t i = 0; i < depth; ++i) {
    const bool lower = c.flip("which");
    const size_t a = c.choose(5, "bounds");
    const double sg = lower ? -1 : 1;
    Vec v = a == 0 ? Vec(Vec::Constant(2, sg * INF)) : a == 1 ? Vec(Eigen::Vector2d(sg * 2, sg * INF)) : a == 2 ? Vec(Eigen::Vector2d(sg * INF, sg * 0.5)) : a == 3 ? Vec(Eigen::Vector2d(sg, sg * 3)) : Vec(Vec::Zero(3));
    c.op("%s %s", lower ? "lb" : "ub", show(v).c_str());
    const bool t = throws([&] { lower ? s.set_lb(v) : s.set_ub(v); });
    c.check(t == (a == 4), "limit-refusal", t ? "bounds of the right size were refused" : "bounds of wrong size were accepted");
    if (!t) (lower ? lb : ub) = v;
    c.check(same(s.get_lb(), lb) && same(s.get_ub(), ub), "limits", "the bounds are not the last accepted ones");
    c.check(s.get_has_limits() == (lb.array().isFinite().any() || ub.array().isFinite().any()), "has-limits", "the limits flag is wrong");
    c.state(mc::hash_mat(mc::hash_mat(1, lb), ub));
  }
  c.outcome(s.get_has_limits() ? "limited" : "free");
}

int main(int argc, char** argv) {
  mc::Explorer e;
  e.add("euclidean", euclidean);
  e.add("manifolds", manifolds);
  e.add("sizes", sizes);
  e.add("limits", limits);
  return e.main(argc, argv);
}
