// Robots and numerical oracles of the multibody harnesses (variant "mb": the rigid-body library is mini/).
#ifndef MB_HPP
#define MB_HPP
#include "prelude.hpp"
#include "util.hpp"
#include "crocoddyl/multibody/fwd.hpp"
#include "crocoddyl/multibody/states/multibody.hpp"
namespace pin = pinocchio;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
typedef std::shared_ptr<crocoddyl::StateMultibody> MbState;
static const pin::ReferenceFrame RF[] = {pin::LOCAL, pin::WORLD, pin::LOCAL_WORLD_ALIGNED};
static const char* RFN[] = {"LOCAL", "WORLD", "LOCAL_WORLD_ALIGNED"};

inline M3 turn(double x, double y, double z) {
  return (Eigen::AngleAxisd(z, V3::UnitZ()) * Eigen::AngleAxisd(y, V3::UnitY()) * Eigen::AngleAxisd(x, V3::UnitX())).toRotationMatrix();
}
inline pin::SE3 at(double x, double y, double z, double a = 0, double b = 0, double c = 0) { return pin::SE3(turn(a, b, c), V3(x, y, z)); }
inline pin::InertiaTpl<double> body(double m, double x, double y, double z, int seed) {
  M3 I = Gen(seed).spd(3, 2.) * 0.03;
  return pin::InertiaTpl<double>{m, V3(x, y, z), I};
}
inline void limits(pin::Model& m) {
  m.lowerPositionLimit = Vec::Constant(m.nq, -3.) - 0.1 * Vec::LinSpaced(m.nq, 0, 1);
  m.upperPositionLimit = Vec::Constant(m.nq, 2.5) + 0.1 * Vec::LinSpaced(m.nq, 0, 1);
  m.velocityLimit = Vec::Constant(m.nv, 7.) + 0.1 * Vec::LinSpaced(m.nv, 0, 1);
  m.effortLimit = Vec::Constant(m.nv, 11.) + 0.1 * Vec::LinSpaced(m.nv, 0, 1);
}
struct Robot {
  const char* name;
  std::shared_ptr<pin::Model> model;
  MbState state;
  std::vector<pin::FrameIndex> frames;  // operational frames; the last two are on one joint
  bool floating, planar;
};
// 0: arm on a fixed base; 1: free-flying base with two legs; 2: planar base (prismatic x and z, revolute y) with a leg
inline Robot robot(int k) {
  Robot r;
  auto m = std::make_shared<pin::Model>();
  r.floating = k == 1, r.planar = k == 2;
  if (k == 0) {
    r.name = "arm";
    auto j1 = m->addJoint(0, pin::REVOLUTE, 1, at(0.1, -0.2, 0.3, 0.2, 0.1, -0.4), "shoulder", body(1.5, 0.05, 0.02, 0.1, 1));
    auto j2 = m->addJoint(j1, pin::REVOLUTE, 2, at(0.3, 0.1, 0.2, -0.5, 0.3, 0.2), "elbow", body(1.1, 0.1, -0.04, 0.03, 2));
    auto j3 = m->addJoint(j2, pin::PRISMATIC, 0, at(0.2, 0.05, -0.1, 0.3, -0.2, 0.6), "slide", body(0.7, 0.02, 0.06, -0.05, 3));
    auto j4 = m->addJoint(j3, pin::REVOLUTE, 0, at(0.15, 0.1, 0.05, 0.1, 0.5, 0.2), "wrist", body(0.4, 0.03, 0.02, 0.04, 4));
    r.frames = {m->addFrame("forearm", j2, at(0.1, 0.2, 0.05, 0.4, 0.1, -0.3)), m->addFrame("tool", j4, at(0.2, -0.1, 0.15, 0.3, -0.6, 0.2)), m->addFrame("palm", j4, at(-0.1, 0.12, 0.07, -0.2, 0.4, 0.7))};
  } else if (k == 1) {
    r.name = "floater";
    auto b = m->addJoint(0, pin::FREE_FLYER, 0, pin::SE3::Identity(), "root_joint", body(4., 0.02, 0.03, -0.05, 5));
    auto l = m->addJoint(b, pin::REVOLUTE, 0, at(0.1, 0.25, -0.1, 0.1, 0.2, -0.1), "left", body(0.8, 0.03, 0.01, -0.15, 6));
    auto s = m->addJoint(b, pin::REVOLUTE, 1, at(-0.1, -0.22, -0.12, -0.2, 0.1, 0.15), "right", body(0.9, -0.02, 0.02, -0.12, 7));
    auto t = m->addJoint(s, pin::REVOLUTE, 1, at(0.02, -0.03, -0.25, 0.1, 0.1, -0.2), "knee", body(0.5, 0.01, 0.02, -0.1, 8));
    r.frames = {m->addFrame("left_foot", l, at(0.05, 0.02, -0.3, 0.2, -0.1, 0.4)), m->addFrame("right_foot", t, at(0.06, -0.02, -0.2, -0.3, 0.2, 0.1)), m->addFrame("right_heel", t, at(-0.07, 0.03, -0.18, 0.1, 0.3, -0.5))};
  } else {
    r.name = "planar";
    auto x = m->addJoint(0, pin::PRISMATIC, 0, pin::SE3::Identity(), "x", body(0.1, 0, 0, 0, 9));
    auto z = m->addJoint(x, pin::PRISMATIC, 2, pin::SE3::Identity(), "z", body(0.1, 0, 0, 0, 10));
    auto y = m->addJoint(z, pin::REVOLUTE, 1, pin::SE3::Identity(), "pitch", body(2., 0.05, 0, 0.02, 11));
    auto h = m->addJoint(y, pin::REVOLUTE, 1, at(0.1, 0, -0.2, 0, 0.3, 0), "hip", body(0.6, 0.02, 0, -0.1, 12));
    r.frames = {m->addFrame("trunk", y, at(-0.2, 0, 0.1, 0, 0.4, 0)), m->addFrame("toe", h, at(0.1, 0, -0.3, 0, -0.5, 0)), m->addFrame("heel", h, at(-0.06, 0, -0.28, 0, 0.7, 0))};
  }
  limits(*m);
  r.model = m;
  r.state = std::make_shared<crocoddyl::StateMultibody>(m);
  return r;
}
// a point of the state space and an acceleration
inline Vec mbpoint(const Robot& r, int i) {
  Vec x = r.state->zero(), dx = Gen(900 + i).vec(r.state->get_ndx()) * (i ? 0.8 : 0.5);
  if (i == 2) dx.tail(r.state->get_nv()).setZero();
  Vec y(x.size());
  r.state->integrate(x, dx, y);
  return y;
}
inline Vec plus(const MbState& s, const Vec& x, const Vec& dx) {
  Vec y(x.size());
  s->integrate(x, dx, y);
  return y;
}
// central differences of f over the state space / a vector
template <class F>
Mat diff_x(const MbState& s, const Vec& x, F f, double h = 1e-5) {
  Mat J;
  const long n = s->get_ndx();
  for (long i = 0; i < n; ++i) {
    const Vec d = Vec::Unit(n, i) * h, a = f(plus(s, x, d)), b = f(plus(s, x, -d));
    if (!i) J.resize(a.size(), n);
    J.col(i) = (a - b) / (2 * h);
  }
  return J;
}
template <class F>
Mat diff_u(const Vec& u, F f, double h = 1e-5) {
  Mat J;
  const long n = u.size();
  for (long i = 0; i < n; ++i) {
    const Vec d = Vec::Unit(n, i) * h, a = f(Vec(u + d)), b = f(Vec(u - d));
    if (!i) J.resize(a.size(), n);
    J.col(i) = (a - b) / (2 * h);
  }
  return J;
}
// the rigid-body quantities the oracles rest on: placements and motion of a frame, inverse dynamics with forces
// applied at frames (given in world axes at the frame's origin)
struct Motion6 {
  pin::SE3 M;
  Vec v, a;  // spatial velocity and acceleration in the frame
};
inline Motion6 motion(const Robot& r, const Vec& x, const Vec& a, pin::FrameIndex f) {
  const long nq = r.model->nq, nv = r.model->nv;
  const auto k = pin::kin<double, double>(*r.model, Vec(x.head(nq)), Vec(Vec::Zero(nv)), Vec(x.tail(nv)), a);
  const auto& fr = r.model->frames[f];
  Motion6 o;
  o.M = k.oMi[fr.parentJoint] * fr.placement;
  o.v = fr.placement.toActionMatrixInverse() * k.v[fr.parentJoint];
  o.a = fr.placement.toActionMatrixInverse() * k.a[fr.parentJoint];
  return o;
}
inline Vec invdyn(const Robot& r, const Vec& x, const Vec& a) {
  const long nq = r.model->nq, nv = r.model->nv;
  return pin::kin<double, double>(*r.model, Vec(x.head(nq)), Vec(Vec::Zero(nv)), Vec(x.tail(nv)), a).tau;
}
inline Vec cat(const Vec& a, const Vec& b) {
  Vec c(a.size() + b.size());
  c << a, b;
  return c;
}
inline Vec turned(const M3& R, const Vec& v) {  // a spatial vector in other axes
  Vec o(6);
  o << R * v.head(3), R * v.tail(3);
  return o;
}
#endif
