// C32: the state of a rigid-body system.  Every robot, pair of points, component and assignment mode, with outputs
// that hold other values before; and the stand-in rigid-body library of the multibody harnesses itself, against
// finite differences of placements.
#include "mb.hpp"
using namespace crocoddyl;
static const Jcomponent JC[] = {both, first, second};
static const AssignmentOp OP[] = {setto, addto, rmfrom};
static Mat fill(long n, long m, int k) { return Gen(50 + k).mat(n, m); }
static Mat mode(const Mat& before, const Mat& J, AssignmentOp op) { return op == setto ? J : op == addto ? Mat(before + J) : Mat(before - J); }
static Vec dif(const MbState& s, const Vec& a, const Vec& b) {
  Vec d = Vec::Constant(s->get_ndx(), 77.);
  s->diff(a, b, d);
  return d;
}
static Vec pt(const Robot& r, int i) { return i == 3 ? r.state->zero() : mbpoint(r, i); }

static void algebra(mc::Ctx& c) {
  Robot r = robot(c.choose(3, "robot"));
  const MbState s = r.state;
  const long nq = r.model->nq, nv = r.model->nv, n = s->get_ndx(), nx = s->get_nx();
  const Vec x0 = pt(r, c.choose(c.thorough ? 4 : 3, "x0")), x1 = pt(r, c.choose(4, "x1"));
  const int id = c.choose(4, "dx");
  const Vec dx = Gen(70 + id).vec(n) * (id == 3 ? 0. : 0.4 * (1 + id));
  c.op("%s x0=%s x1=%s dx=%s", r.name, show(x0).c_str(), show(x1).c_str(), show(dx).c_str());
  c.check((long)s->get_nq() == nq && (long)s->get_nv() == nv && nx == nq + nv && n == 2 * nv, "dimensions", "wrong dimensions");
  const Vec z = s->zero();
  c.check(z.size() == nx && same(z, cat(pin::neutral(*r.model), Vec(Vec::Zero(nv)))), "zero", "zero() is not the neutral configuration at rest");
  c.check(s->rand().size() == nx && finite(s->rand()), "rand", "rand() is not a point");
  c.check(close(plus(s, x0, dif(s, x0, x1)), x1, 1e-9), "integrate-diff", "x0 (+) (x1 (-) x0) = " + show(plus(s, x0, dif(s, x0, x1))) + " is not x1");
  c.check(close(dif(s, x0, plus(s, x0, dx)), dx, 1e-9), "diff-integrate", "(x0 (+) dx) (-) x0 = " + show(dif(s, x0, plus(s, x0, dx))) + " is not dx");
  c.check(close(plus(s, x0, Vec(Vec::Zero(n))), x0, 1e-12), "neutral", "zero displacement moved the point");
  c.check(close(dif(s, x0, x0), Vec(Vec::Zero(n)), 1e-12), "self", "a point differs from itself");
  Vec q(nq), dq(nv);
  pin::integrate(*r.model, x0.head(nq), dx.head(nv), q);
  pin::difference(*r.model, x0.head(nq), x1.head(nq), dq);
  c.check(same(plus(s, x0, dx), cat(q, Vec(x0.tail(nv) + dx.tail(nv)))), "integrate", "integrate is not that of the robot's configuration and the sum of velocities");
  c.check(same(dif(s, x0, x1), cat(dq, Vec(x1.tail(nv) - x0.tail(nv)))), "diff", "diff is not that of the robot's configuration and the difference of velocities");
  c.check(same(s->diff_dx(x0, x1), dif(s, x0, x1)) && same(s->integrate_x(x0, dx), plus(s, x0, dx)), "wrappers", "diff_dx or integrate_x disagrees");
  // Jacobians
  const Jcomponent w = JC[c.choose(3, "component")];
  const AssignmentOp op = OP[c.choose(3, "operator")];
  const Mat A0 = fill(n, n, 1), B0 = fill(n, n, 2);
  const double T = 2e-7;
  if (op == setto) {
    Mat A = A0, B = B0;
    s->Jdiff(x0, x1, A, B, w);
    const Vec d = dif(s, x0, x1);
    const Mat F = diff_x(s, x0, [&](const Vec& y) { return Vec(dif(s, y, x1) - d); }), S = diff_x(s, x1, [&](const Vec& y) { return Vec(dif(s, x0, y) - d); });
    c.check(w == second ? same(A, A0) : close(A, F, T), "Jdiff-first", mc::strf("component %d: ", (int)w) + show(A) + " expected " + show(F));
    c.check(w == first ? same(B, B0) : close(B, S, T), "Jdiff-second", mc::strf("component %d: ", (int)w) + show(B) + " expected " + show(S));
    const auto Js = s->Jdiff_Js(x0, x1, w);
    c.check(Js.size() == (w == both ? 2u : 1u) && close(Js[0], w == second ? S : F, T) && close(Js.back(), w == first ? F : S, T), "Jdiff_Js", "Jdiff_Js differs");
  }
  const Vec y0 = plus(s, x0, dx);
  const Mat F = diff_x(s, x0, [&](const Vec& y) { return dif(s, y0, plus(s, y, dx)); }), S = diff_u(dx, [&](const Vec& e) { return dif(s, y0, plus(s, x0, e)); });
  Mat A = A0, B = B0;
  s->Jintegrate(x0, dx, A, B, w, op);
  c.check(w == second ? same(A, A0) : close(A, mode(A0, F, op), T), "Jintegrate-first", mc::strf("component %d, assignment %d: ", (int)w, (int)op) + show(A) + " expected " + show(mode(A0, F, op)));
  c.check(w == first ? same(B, B0) : close(B, mode(B0, S, op), T), "Jintegrate-second", mc::strf("component %d, assignment %d: ", (int)w, (int)op) + show(B) + " expected " + show(mode(B0, S, op)));
  if (op == setto) {
    const auto Js = s->Jintegrate_Js(x0, dx, w);
    c.check(Js.size() == (w == both ? 2u : 1u) && close(Js[0], w == second ? S : F, T) && close(Js.back(), w == first ? F : S, T), "Jintegrate_Js", "Jintegrate_Js differs");
    const long cols = c.pick({1L, 3L, n}, "columns");
    const Mat In = fill(n, cols, 3);
    Mat J = In;
    const bool t = throws([&] { s->JintegrateTransport(x0, dx, J, w); });
    c.check(t == (w == both), "transport-component", "the transport must take one component");
    c.check(t ? same(J, In) : close(J, Mat((w == first ? F : S) * In), 1e-6), "transport", mc::strf("component %d: ", (int)w) + show(J) + " expected " + show(Mat((w == first ? F : S) * In)));
    c.check(same(Mat(J.bottomRows(nv)), Mat(In.bottomRows(nv))), "transport-velocity", "transporting changed the rows of the velocity");
  }
  c.state(mc::hash_mat(mc::hash_mat(mc::hash_mat(0, x0), x1), dx));
  c.outcome(mc::strf("%s component %d assignment %d", r.name, (int)w, (int)op));
}

// wrong sizes are refused and write nothing
static void sizes(mc::Ctx& c) {
  Robot r = robot(c.choose(3, "robot"));
  const long n = r.state->get_ndx(), nx = r.state->get_nx();
  const int op = c.choose(5, "operation"), which = c.choose(op == 0 || op == 1 ? 3 : op == 4 ? 3 : 6, "argument"), delta = c.pick({-1, 1, -2}, "delta");
  const Jcomponent w = op < 2 ? both : op == 4 ? JC[1 + c.choose(2, "component")] : JC[c.choose(3, "component")];
  const AssignmentOp as = op == 3 ? OP[c.choose(3, "assignment")] : setto;
  c.op("%s operation %d argument %d by %d", r.name, op, which, delta);
  auto sz = [&](int a, long v) { return a == which ? v + delta : v; };
  Mat A(sz(2, n), op == 4 ? 4 : sz(3, n)), B(sz(4, n), sz(5, n));
  A.setConstant(5), B.setConstant(6);
  const Mat A0 = A, B0 = B;
  Vec a = Vec::Zero(sz(0, nx)), o = Vec::Constant(sz(2, op == 0 ? n : nx), 9), o0 = o;
  if (a.size() >= nx) a.head(nx) = r.state->zero();
  Vec b = Vec::Zero(sz(1, op == 0 || op == 2 ? nx : n));
  const bool used = op < 2 || which < 2 || op == 4 || (which < 4 ? w != second : w != first);
  bool t = false;
  if (!used) {
    if (a.size() != nx || b.size() != (op == 2 ? nx : n)) c.prune();
    if (op == 2) b = r.state->zero();
  }
  if (op < 2) {
    t = throws([&] { op == 0 ? r.state->diff(a, b, o) : r.state->integrate(a, b, o); });
    c.check(same(o, o0), "refused-write", "a refused call wrote its output");
  } else {
    t = throws([&] { op == 2 ? r.state->Jdiff(a, b, A, B, w) : op == 3 ? r.state->Jintegrate(a, b, A, B, w, as) : r.state->JintegrateTransport(a, b, A, w); });
    if (used && w != both) c.check(same(A, A0) && same(B, B0), "refused-write", "a refused call wrote its output");
  }
  c.check(t == used, used ? "wrong-size" : "unused-output", mc::strf("operation %d, argument %d of wrong size: %s", op, which, t ? "refused though not used" : "accepted"));
  c.outcome(mc::strf("%d/%d", op, which));
}

// limits: the model's at first (none for the configuration of a root joint), then the last accepted ones; casts keep them
static void bounds(mc::Ctx& c) {
  const int k = c.choose(4, "robot");
  std::shared_ptr<pin::Model> m;
  long nq0 = 0;
  if (k < 3) {
    m = robot(k).model;
    nq0 = k == 1 ? 7 : 0;
  } else {  // a root joint that is not a free-flyer
    m = std::make_shared<pin::Model>();
    auto j = m->addJoint(0, pin::REVOLUTE, 2, pin::SE3::Identity(), "root_joint", body(1, 0.1, 0, 0, 1));
    m->addJoint(j, pin::REVOLUTE, 0, at(0.1, 0, 0), "next", body(1, 0.1, 0, 0, 2));
    nq0 = 1;
  }
  const int lim = c.choose(3, "limits");
  limits(*m);
  if (lim) m->lowerPositionLimit.setConstant(-INF), m->upperPositionLimit.setConstant(INF), m->velocityLimit.setConstant(INF);
  if (lim == 2) m->upperPositionLimit[m->nq - 1] = 1.;
  StateMultibody s(m);
  const double big = std::numeric_limits<double>::max();
  Vec lb = cat(m->lowerPositionLimit, Vec(-m->velocityLimit)), ub = cat(m->upperPositionLimit, m->velocityLimit);
  lb.head(nq0).setConstant(-big), ub.head(nq0).setConstant(big);
  const size_t depth = c.thorough ? 4 : 3, nx = s.get_nx();
  for (size_t i = 0; i <= depth; ++i) {
    c.check(same(s.get_lb(), lb) && same(s.get_ub(), ub), "limits", "the bounds are " + show(s.get_lb()) + ", expected " + show(lb));
    c.check(s.get_has_limits() == (lb.array().isFinite().any() || ub.array().isFinite().any()), "has-limits", "the limits flag is wrong");
    const StateMultibody t = s.cast<double>();
    c.check(same(t.get_lb(), lb) && same(t.get_ub(), ub) && t.get_has_limits() == s.get_has_limits(), "cast", "a cast state has other limits: " + show(t.get_lb()));
    c.check(t.get_nx() == nx && t.get_ndx() == s.get_ndx() && same(t.zero(), s.zero()) && t.get_pinocchio() != s.get_pinocchio() && t.get_pinocchio()->nq == m->nq, "cast-dimensions", "a cast state has other dimensions");
    c.state(mc::hash_mat(mc::hash_mat(k, lb), ub));
    if (i == depth || !c.flip("edit")) break;
    const bool lower = c.flip("which");
    const size_t a = c.choose(3, "bounds");
    const Vec v = a == 0 ? Vec(Vec::Constant(nx, lower ? -INF : INF)) : a == 1 ? Vec((lower ? -1. : 1.) * (Vec::LinSpaced(nx, 1, 2))) : Vec(Vec::Zero(nx + 1));
    c.op("%s %s", lower ? "lb" : "ub", show(v).c_str());
    const bool th = throws([&] { lower ? s.set_lb(v) : s.set_ub(v); });
    c.check(th == (a == 2), "limit-refusal", th ? "bounds of the right size were refused" : "bounds of wrong size were accepted");
    if (!th) (lower ? lb : ub) = v;
  }
  c.outcome(mc::strf("robot %d limits %d", k, lim));
}

// --- the stand-in library -----------------------------------------------------------------------------------------
typedef Eigen::Matrix<double, 6, Eigen::Dynamic> J6;
static Vec conf(const Robot& r, const Vec& q, const Vec& d) {
  Vec o(q.size());
  pin::integrate(*r.model, q, d, o);
  return o;
}
static pin::SE3 pose(const Robot& r, const Vec& q, pin::FrameIndex f) {
  pin::Data d(*r.model);
  pin::forwardKinematics(*r.model, d, q);
  return pin::updateFramePlacement(*r.model, d, f);
}
template <class F>
static Mat fdq(const Robot& r, const Vec& q, F f, double h = 1e-5) {
  Mat J;
  for (int i = 0; i < r.model->nv; ++i) {
    const Vec e = Vec::Unit(r.model->nv, i) * h, a = f(conf(r, q, e)), b = f(conf(r, q, Vec(-e)));
    if (!i) J.resize(a.size(), r.model->nv);
    J.col(i) = (a - b) / (2 * h);
  }
  return J;
}
static Vec vec6(const pin::SE3& M) { return Vec(pin::log6(M).toVector()); }
static Vec vec3(const M3& R) { return Vec(pin::log3(R)); }
static Vec inaxes(const pin::SE3& M, pin::ReferenceFrame rf, const Vec& v) {
  if (rf == pin::LOCAL) return v;
  if (rf == pin::WORLD) {
    Vec o(6);
    o << M.R * v.head(3) + M.p.cross(V3(M.R * v.tail(3))), M.R * v.tail(3);
    return o;
  }
  return turned(M.R, v);
}
// Newton and Euler on every body, from placements alone
static Vec torques(const Robot& r, const Vec& q, const Vec& v, const Vec& a) {
  const double h = 2e-4;
  Vec tau = Vec::Zero(r.model->nv);
  const Vec qp = conf(r, q, Vec(v * h + a * h * h / 2)), qm = conf(r, q, Vec(-v * h + a * h * h / 2));
  for (int i = 1; i < r.model->njoints; ++i) {
    const auto& I = r.model->inertias[i];
    auto place = [&](const Vec& qq) {
      pin::Data d(*r.model);
      pin::forwardKinematics(*r.model, d, qq);
      return d.oMi[i];
    };
    const pin::SE3 M = place(q), P = place(qp), N = place(qm);
    auto com = [&](const pin::SE3& X) { return V3(X.R * I.lever + X.p); };
    const V3 acc = (com(P) - 2 * com(M) + com(N)) / (h * h), F = I.mass * (acc - V3(0, 0, -9.81));
    const V3 lp = vec3(M.R.transpose() * P.R), lm = vec3(M.R.transpose() * N.R), w = (lp - lm) / (2 * h), dw = (lp + lm) / (h * h);
    const V3 L = I.inertia * w, T = I.inertia * dw + w.cross(L);
    tau += fdq(r, q, [&](const Vec& y) { return Vec(com(place(y))); }).transpose() * F;
    tau += fdq(r, q, [&](const Vec& y) { return vec3(M.R.transpose() * place(y).R); }).transpose() * T;
  }
  return tau;
}
static Vec momentumOf(const Robot& r, const Vec& q, const Vec& v) {
  const double h = 1e-5;
  Vec o = Vec::Zero(6);
  const Vec qp = conf(r, q, Vec(v * h)), qm = conf(r, q, Vec(-v * h));
  V3 c = V3::Zero();
  double mass = 0;
  std::vector<V3> ci, vi;
  for (int i = 1; i < r.model->njoints; ++i) {
    const auto& I = r.model->inertias[i];
    auto place = [&](const Vec& qq) {
      pin::Data d(*r.model);
      pin::forwardKinematics(*r.model, d, qq);
      return d.oMi[i];
    };
    const pin::SE3 M = place(q), P = place(qp), N = place(qm);
    auto com = [&](const pin::SE3& X) { return V3(X.R * I.lever + X.p); };
    const V3 w = (vec3(M.R.transpose() * P.R) - vec3(M.R.transpose() * N.R)) / (2 * h);
    ci.push_back(com(M)), vi.push_back((com(P) - com(N)) / (2 * h));
    o.tail(3) += M.R * (I.inertia * w);
    c += I.mass * ci.back(), mass += I.mass;
  }
  c /= mass;
  for (size_t i = 0; i < ci.size(); ++i) {
    const double m = r.model->inertias[i + 1].mass;
    o.head(3) += m * vi[i];
    o.tail(3) += m * (ci[i] - c).cross(vi[i]);
  }
  return o;
}
static void library(mc::Ctx& c) {
  Robot r = robot(c.choose(3, "robot"));
  const pin::Model& m = *r.model;
  const int ip = c.choose(3, "point"), part = c.choose(4, "part");
  const Vec x = mbpoint(r, ip), q = x.head(m.nq), v = ip == 2 ? Vec(Gen(31).vec(m.nv)) : Vec(x.tail(m.nv)), a = Gen(40 + ip).vec(m.nv) * 1.5;
  c.op("%s point %d", r.name, ip);
  const double h = 2e-4;
  const Vec qp = conf(r, q, Vec(v * h + a * h * h / 2)), qm = conf(r, q, Vec(-v * h + a * h * h / 2));
  if (part == 0) {  // motion of the frames
    const size_t f = r.frames[c.choose(r.frames.size(), "frame")];
    const int rf = c.choose(3, "axes");
    const pin::JointIndex j = m.frames[f].parentJoint;
    pin::Data d(m);
    pin::computeForwardKinematicsDerivatives(m, d, q, v, a);
    const pin::SE3 M = pose(r, q, f);
    const Vec lp = vec6(M.inverse() * pose(r, qp, f)), lm = vec6(M.inverse() * pose(r, qm, f));
    const Vec vel = inaxes(M, RF[rf], (lp - lm) / (2 * h)), acc = inaxes(M, RF[rf], (lp + lm) / (h * h));
    c.check(close(Vec(pin::getFrameVelocity(m, d, f, RF[rf]).toVector()), vel, 1e-6), "velocity", "frame velocity");
    c.check(close(Vec(pin::getFrameAcceleration(m, d, f, RF[rf]).toVector()), acc, 2e-6), "acceleration", "frame acceleration");
    // the classical acceleration is the second derivative of the position
    const V3 pacc = (pose(r, qp, f).p - 2 * M.p + pose(r, qm, f).p) / (h * h);
    c.check(close(Vec(pin::getFrameClassicalAcceleration(m, d, f, pin::LOCAL_WORLD_ALIGNED).linear()), Vec(pacc), 2e-6), "classical", "classical acceleration");
    J6 J = J6::Zero(6, m.nv);
    pin::getFrameJacobian(m, d, f, RF[rf], J);
    const Mat Jl = fdq(r, q, [&](const Vec& y) { return vec6(M.inverse() * pose(r, y, f)); });
    Mat Je(6, m.nv);
    for (int k = 0; k < m.nv; ++k) Je.col(k) = inaxes(M, RF[rf], Jl.col(k));
    c.check(close(Mat(J), Je, 1e-7), "jacobian", "frame Jacobian " + show(Mat(J)) + " expected " + show(Je));
    // derivatives of velocities and accelerations
    auto jv = [&](const Vec& qq, const Vec& vv, const Vec& aa, bool frame, bool accel) {
      pin::Data e(m);
      pin::forwardKinematics(m, e, qq, vv, aa);
      if (frame) return Vec(pin::getFrameVelocity(m, e, f, RF[rf]).toVector());
      return inaxes(e.oMi[j], RF[rf], Vec(accel ? e.a[j].toVector() : e.v[j].toVector()));
    };
    J6 A = J6::Zero(6, m.nv), B = A, C = A, D = A;
    pin::getFrameVelocityDerivatives(m, d, f, RF[rf], A, B);
    c.check(close(Mat(A), fdq(r, q, [&](const Vec& y) { return jv(y, v, a, true, false); }), 1e-6) && close(Mat(B), diff_u(v, [&](const Vec& y) { return jv(q, y, a, true, false); }), 1e-6), "frame-velocity-derivatives", "frame velocity derivatives");
    pin::getJointVelocityDerivatives(m, d, j, RF[rf], A, B);
    const Mat vq = fdq(r, q, [&](const Vec& y) { return jv(y, v, a, false, false); });
    c.check(close(Mat(A), vq, 1e-6) && close(Mat(B), diff_u(v, [&](const Vec& y) { return jv(q, y, a, false, false); }), 1e-6), "joint-velocity-derivatives", "joint velocity derivatives");
    pin::getJointAccelerationDerivatives(m, d, j, RF[rf], A, B, C, D);
    c.check(close(Mat(A), vq, 1e-6) && close(Mat(B), fdq(r, q, [&](const Vec& y) { return jv(y, v, a, false, true); }), 1e-6) &&
                close(Mat(C), diff_u(v, [&](const Vec& y) { return jv(q, y, a, false, true); }), 1e-6) && close(Mat(D), diff_u(a, [&](const Vec& y) { return jv(q, v, y, false, true); }), 1e-6),
            "joint-acceleration-derivatives", "joint acceleration derivatives");
    // logarithms
    Eigen::Matrix<double, 6, 6> J6x6;
    pin::Jlog6(M, J6x6);
    M3 J3;
    pin::Jlog3(M.R, J3);
    const Vec z6 = Vec::Zero(6), z3 = Vec::Zero(3);
    c.check(close(Mat(J6x6), diff_u(z6, [&](const Vec& e) { return vec6(M * pin::exp6<double>(pin::V6<double>(e))); }), 1e-7), "Jlog6", "Jlog6");
    c.check(close(Mat(J3), diff_u(z3, [&](const Vec& e) { return vec3(M.R * pin::exp3<double>(V3(e))); }), 1e-7), "Jlog3", "Jlog3");
    c.check(close(Mat(pin::exp6<double>(pin::log6(M).toVector()).toActionMatrix()), Mat(M.toActionMatrix()), 1e-9), "exp-log", "exp of log");
  } else if (part == 1) {  // inverse and forward dynamics
    pin::Data d(m);
    const Vec tau = torques(r, q, v, a), t0 = pin::rnea(m, d, q, v, a);
    c.check(close(t0, tau, 2e-5), "rnea", "torques " + show(t0) + " expected " + show(tau));
    pin::container::aligned_vector<pin::Force> f(m.njoints, pin::Force::Zero());
    Vec t1 = t0;
    for (int i = 1; i < m.njoints; ++i) {
      f[i] = pin::Force(pin::V6<double>(Gen(i).vec(6)));
      pin::Data e(m);
      pin::forwardKinematics(m, e, q);
      const pin::SE3 M = e.oMi[i];
      t1 -= fdq(r, q, [&](const Vec& y) {
              pin::Data g(m);
              pin::forwardKinematics(m, g, y);
              return vec6(M.inverse() * g.oMi[i]);
            }).transpose() * f[i].toVector();
    }
    c.check(close(Vec(pin::rnea(m, d, q, v, a, f)), t1, 1e-6), "rnea-forces", "torques with forces on the bodies");
    const bool with = c.flip("forces");
    auto id = [&](const Vec& qq, const Vec& vv, const Vec& aa) {
      pin::Data e(m);
      return with ? Vec(pin::rnea(m, e, qq, vv, aa, f)) : Vec(pin::rnea(m, e, qq, vv, aa));
    };
    if (with) pin::computeRNEADerivatives(m, d, q, v, a, f);
    else pin::computeRNEADerivatives(m, d, q, v, a);
    const Mat tq = fdq(r, q, [&](const Vec& y) { return id(y, v, a); }), tv = diff_u(v, [&](const Vec& y) { return id(q, y, a); }), ta = diff_u(a, [&](const Vec& y) { return id(q, v, y); });
    const Mat M = Mat(d.M.selfadjointView<Eigen::Upper>());
    c.check(close(Mat(d.dtau_dq), tq, 1e-6) && close(Mat(d.dtau_dv), tv, 1e-6) && close(M, ta, 1e-6), "rnea-derivatives", "derivatives of the torques");
    c.check(same(Vec(d.tau), id(q, v, a)), "rnea-derivatives-torque", "torque after the derivatives");
    if (!with) {
      pin::Data e(m);
      c.check(close(Vec(pin::aba(m, e, q, v, t0)), a, 1e-8), "aba", "forward dynamics do not invert the inverse dynamics");
      Mat dq(m.nv, m.nv), dv = dq, dt = dq;
      pin::computeABADerivatives(m, e, q, v, t0, dq, dv, dt);
      auto fd = [&](const Vec& qq, const Vec& vv, const Vec& tt) {
        pin::Data g(m);
        return Vec(pin::aba(m, g, qq, vv, tt));
      };
      c.check(close(dq, fdq(r, q, [&](const Vec& y) { return fd(y, v, t0); }), 2e-5) && close(dv, diff_u(v, [&](const Vec& y) { return fd(q, y, t0); }), 2e-5) && close(dt, diff_u(t0, [&](const Vec& y) { return fd(q, v, y); }), 2e-5), "aba-derivatives", "derivatives of the forward dynamics");
    }
    const Vec z = Vec::Zero(m.nv);
    Mat G(m.nv, m.nv);
    pin::computeGeneralizedGravityDerivatives(m, d, q, G);
    c.check(close(Vec(pin::computeGeneralizedGravity(m, d, q)), torques(r, q, z, z), 1e-6) && close(G, fdq(r, q, [&](const Vec& y) { pin::Data e(m); return Vec(pin::rnea(m, e, y, z, z)); }), 1e-6), "gravity", "gravity");
    pin::computeStaticTorqueDerivatives(m, d, q, f, G);
    c.check(close(Vec(pin::computeStaticTorque(m, d, q, f)), Vec(t1 - t0 + torques(r, q, z, z)), 1e-6) && close(G, fdq(r, q, [&](const Vec& y) { pin::Data e(m); return Vec(pin::rnea(m, e, y, z, z, f)); }), 1e-6), "static", "static torques");
  } else if (part == 2) {  // constrained dynamics
    pin::Data d(m);
    pin::computeAllTerms(m, d, q, v);
    pin::Data e(m);
    const Vec z = Vec::Zero(m.nv);
    Mat M(m.nv, m.nv);
    for (int k = 0; k < m.nv; ++k) M.col(k) = Vec(pin::rnea(m, e, q, v, Vec(Vec::Unit(m.nv, k)))) - Vec(pin::rnea(m, e, q, v, z));
    c.check(close(Mat(d.M), M, 1e-9) && close(Vec(d.nle), Vec(pin::rnea(m, e, q, v, z)), 1e-9), "mass", "mass matrix or bias");
    const int rows = 1 + c.choose(3, "rows");
    const double damping = c.pick({0., 1e-3}, "damping");
    const Mat J = Gen(rows).mat(rows, m.nv);
    const Vec g = Gen(7).vec(rows), tau = Gen(8).vec(m.nv);
    pin::forwardDynamics(m, d, tau, J, g, damping);
    c.check(close(Vec(M * d.ddq + d.nle), Vec(tau + J.transpose() * d.lambda_c), 1e-8) && close(Vec(J * d.ddq + g + damping * d.lambda_c), Vec(Vec::Zero(rows)), 1e-8), "forward-dynamics", "constrained forward dynamics");
    Mat K = Mat::Zero(m.nv + rows, m.nv + rows), Ki = K;
    K.topLeftCorner(m.nv, m.nv) = M;
    K.topRightCorner(m.nv, rows) = J.transpose();
    K.bottomLeftCorner(rows, m.nv) = J;
    K.bottomRightCorner(rows, rows).diagonal().setConstant(-damping);
    pin::getKKTContactDynamicMatrixInverse(m, d, J, Ki);
    c.check(close(Mat(K * Ki), Mat(Mat::Identity(K.rows(), K.rows())), 1e-8), "kkt-inverse", "inverse of the contact dynamics");
    const double re = c.pick({0., 0.4}, "restitution");
    pin::impulseDynamics(m, d, v, J, re, damping);
    c.check(close(Vec(M * (d.dq_after - v)), Vec(J.transpose() * d.impulse_c), 1e-8) && close(Vec(J * (d.dq_after + re * v) + damping * d.impulse_c), Vec(Vec::Zero(rows)), 1e-8), "impulse-dynamics", "impulse dynamics");
    pin::cholesky::decompose(m, d);
    Mat Mi(m.nv, m.nv);
    pin::cholesky::computeMinv(m, d, Mi);
    c.check(close(Mat(M * Mi), Mat(Mat::Identity(m.nv, m.nv)), 1e-8), "minv", "inverse mass matrix");
  } else {  // centre of mass and momentum
    pin::Data d(m);
    auto com = [&](const Vec& y) {
      pin::Data e(m);
      return Vec(pin::centerOfMass(m, e, y));
    };
    V3 cm = V3::Zero();
    double mass = 0;
    pin::forwardKinematics(m, d, q);
    for (int i = 1; i < m.njoints; ++i) cm += m.inertias[i].mass * (d.oMi[i].R * m.inertias[i].lever + d.oMi[i].p), mass += m.inertias[i].mass;
    c.check(close(com(q), Vec(cm / mass), 1e-12), "com", "centre of mass");
    pin::centerOfMass(m, d, q, v);
    c.check(close(Vec(d.vcom[0]), Vec((com(qp) - com(qm)) / (2 * h)), 1e-6), "vcom", "velocity of the centre of mass");
    Eigen::Matrix<double, 3, Eigen::Dynamic> Jv = Mat::Zero(3, m.nv);
    pin::getCenterOfMassVelocityDerivatives(m, d, Jv);
    c.check(close(Mat(Jv), fdq(r, q, [&](const Vec& y) { pin::Data e(m); pin::centerOfMass(m, e, y, v); return Vec(e.vcom[0]); }), 1e-6), "dvcom", "derivative of the velocity of the centre of mass");
    pin::forwardKinematics(m, d, q, v);
    pin::jacobianCenterOfMass(m, d, false);
    c.check(close(Mat(d.Jcom), fdq(r, q, com), 1e-7), "Jcom", "Jacobian of the centre of mass");
    c.check(close(Vec(pin::computeCentroidalMomentum(m, d).toVector()), momentumOf(r, q, v), 1e-6), "momentum", "centroidal momentum");
    pin::computeRNEADerivatives(m, d, q, v, a);
    J6 A = J6::Zero(6, m.nv), B = A, C = A, D = A;
    pin::getCentroidalDynamicsDerivatives(m, d, A, B, C, D);
    auto hg = [&](const Vec& y, const Vec& w) {
      pin::Data e(m);
      return Vec(pin::computeCentroidalMomentum(m, e, y, w).toVector());
    };
    auto hd = [&](const Vec& y, const Vec& w, const Vec& b) {  // its rate along a motion
      const double k = 1e-4;
      return Vec((hg(conf(r, y, Vec(w * k + b * k * k / 2)), Vec(w + b * k)) - hg(conf(r, y, Vec(-w * k + b * k * k / 2)), Vec(w - b * k))) / (2 * k));
    };
    c.check(close(Mat(A), fdq(r, q, [&](const Vec& y) { return hg(y, v); }), 1e-6), "dh", "derivative of the momentum");
    c.check(close(Mat(B), fdq(r, q, [&](const Vec& y) { return hd(y, v, a); }, 1e-3), 2e-4) && close(Mat(C), diff_u(v, [&](const Vec& y) { return hd(q, y, a); }, 1e-3), 2e-4) && close(Mat(D), diff_u(a, [&](const Vec& y) { return hd(q, v, y); }, 1e-3), 2e-4), "dhd", "derivatives of the momentum's rate");
  }
  c.state(mc::hash_mat(part, x));
  c.outcome(mc::strf("%s part %d", r.name, part));
}

int main(int argc, char** argv) {
  mc::Explorer e;
  e.add("algebra", algebra);
  e.add("sizes", sizes);
  e.add("bounds", bounds);
  e.add("library", library);
  return e.main(argc, argv);
}
