// A small stand-in for the parts of pinocchio (absent here) that crocoddyl's multibody models call, with pinocchio's
// names, conventions and call order.  It is meant to be obviously right instead of fast: rigid bodies are joined by
// free-flyer, revolute and prismatic joints, one recursion computes motion and torques for any scalar, and every
// derivative is taken with the complex step (exact to rounding).  What an algorithm leaves behind in the data is
// what pinocchio documents; nothing else is.
#ifndef PINOCCHIO_MINI_HPP
#define PINOCCHIO_MINI_HPP
#include <Eigen/Dense>
#include <Eigen/StdVector>
#include <complex>
#include <iostream>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include "pinocchio/utils/static-if.hpp"
#define PINOCCHIO_VERSION_AT_LEAST(a, b, c) 1

namespace pinocchio {
typedef std::size_t Index, JointIndex, FrameIndex, GeomIndex, PairIndex;
enum ReferenceFrame { WORLD = 0, LOCAL = 1, LOCAL_WORLD_ALIGNED = 2 };
enum ArgumentPosition { ARG0 = 0, ARG1 = 1, ARG2 = 2, ARG3 = 3, ARG4 = 4 };
enum AssignmentOperatorType { SETTO, ADDTO, RMTO };
namespace container {
template <class T>
using aligned_vector = std::vector<T, Eigen::aligned_allocator<T>>;
}

template <class S> using V3 = Eigen::Matrix<S, 3, 1>;
template <class S> using M3 = Eigen::Matrix<S, 3, 3>;
template <class S> using V6 = Eigen::Matrix<S, 6, 1>;
template <class S> using M6 = Eigen::Matrix<S, 6, 6>;
template <class S> using VX = Eigen::Matrix<S, Eigen::Dynamic, 1>;
template <class S> using MX = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
template <class S> using M6X = Eigen::Matrix<S, 6, Eigen::Dynamic>;
template <class S> using M3X = Eigen::Matrix<S, 3, Eigen::Dynamic>;

// (Eigen's cross and dot conjugate complex numbers)
template <class D>
M3<typename D::Scalar> hat(const Eigen::MatrixBase<D>& v) {
  typedef typename D::Scalar S;
  M3<S> m;
  m << S(0), -v(2), v(1), v(2), S(0), -v(0), -v(1), v(0), S(0);
  return m;
}
template <class D>
M3<typename D::Scalar> skew(const Eigen::MatrixBase<D>& v) { return hat(v); }
template <class D, class M>
void skew(const Eigen::MatrixBase<D>& v, const Eigen::MatrixBase<M>& out) { const_cast<Eigen::MatrixBase<M>&>(out).derived() = hat(v); }

template <class S> class MotionTpl;
template <class S> class ForceTpl;
template <class Derived, class S>
class Spatial {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  typedef V6<S> Vector6;
  typedef Eigen::VectorBlock<V6<S>, 3> Seg;
  typedef const Eigen::VectorBlock<const V6<S>, 3> CSeg;
  V6<S> m;
  Spatial() { m.setConstant(S(std::numeric_limits<double>::quiet_NaN())); }
  template <class D>
  explicit Spatial(const Eigen::MatrixBase<D>& v) : m(v) {}
  template <class A, class B>
  Spatial(const Eigen::MatrixBase<A>& l, const Eigen::MatrixBase<B>& a) { m << l, a; }
  static Derived Zero() { return Derived(V6<S>(V6<S>::Zero())); }
  static Derived Random() { return Derived(V6<S>(V6<S>::Random())); }
  Derived& setZero() { m.setZero(); return static_cast<Derived&>(*this); }
  Seg linear() { return m.template head<3>(); }
  Seg angular() { return m.template tail<3>(); }
  CSeg linear() const { return m.template head<3>(); }
  CSeg angular() const { return m.template tail<3>(); }
  const V6<S>& toVector() const { return m; }
  V6<S>& toVector() { return m; }
  operator V6<S>() const { return m; }
  Derived operator+(const Derived& o) const { return Derived(V6<S>(m + o.m)); }
  Derived operator-(const Derived& o) const { return Derived(V6<S>(m - o.m)); }
  Derived operator-() const { return Derived(V6<S>(-m)); }
  Derived operator*(const S& s) const { return Derived(V6<S>(m * s)); }
  friend Derived operator*(const S& s, const Derived& d) { return Derived(V6<S>(d.m * s)); }
  Derived& operator+=(const Derived& o) { m += o.m; return static_cast<Derived&>(*this); }
  Derived& operator-=(const Derived& o) { m -= o.m; return static_cast<Derived&>(*this); }
  bool isApprox(const Derived& o, const S& p = Eigen::NumTraits<S>::dummy_precision()) const { return (m - o.m).norm() <= p; }
  bool operator==(const Derived& o) const { return m == o.m; }
  bool operator!=(const Derived& o) const { return m != o.m; }
  friend std::ostream& operator<<(std::ostream& os, const Derived& d) { return os << d.m.transpose(); }
};
template <class S>
class MotionTpl : public Spatial<MotionTpl<S>, S> {
  typedef Spatial<MotionTpl<S>, S> B;
 public:
  enum { LINEAR = 0, ANGULAR = 3 };
  using B::B;
  MotionTpl() {}
  template <class D>
  MotionTpl& operator=(const Eigen::MatrixBase<D>& v) { this->m = v; return *this; }
  template <class T> MotionTpl<T> cast() const { return MotionTpl<T>(V6<T>(this->m.template cast<T>())); }
};
template <class S>
class ForceTpl : public Spatial<ForceTpl<S>, S> {
  typedef Spatial<ForceTpl<S>, S> B;
 public:
  enum { LINEAR = 0, ANGULAR = 3 };
  using B::B;
  ForceTpl() {}
  template <class D>
  ForceTpl& operator=(const Eigen::MatrixBase<D>& v) { this->m = v; return *this; }
  template <class T> ForceTpl<T> cast() const { return ForceTpl<T>(V6<T>(this->m.template cast<T>())); }
};

template <class S>
class SE3Tpl {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  typedef M6<S> ActionMatrixType;
  typedef M6<S> Matrix6;
  typedef M3<S> Matrix3;
  typedef V3<S> Vector3;
  typedef Eigen::Matrix<S, 4, 4> Matrix4;
  typedef Eigen::Quaternion<S> Quaternion;
  M3<S> R;
  V3<S> p;
  SE3Tpl() : R(M3<S>::Identity()), p(V3<S>::Zero()) {}
  template <class A, class B>
  SE3Tpl(const Eigen::MatrixBase<A>& r, const Eigen::MatrixBase<B>& t) : R(r), p(t) {}
  template <class B>
  SE3Tpl(const Eigen::Quaternion<S>& q, const Eigen::MatrixBase<B>& t) : R(q.toRotationMatrix()), p(t) {}
  static SE3Tpl Identity() { return SE3Tpl(); }
  static SE3Tpl Random() { return SE3Tpl(); }
  SE3Tpl& setIdentity() { return *this = SE3Tpl(); }
  const M3<S>& rotation() const { return R; }
  M3<S>& rotation() { return R; }
  const V3<S>& translation() const { return p; }
  V3<S>& translation() { return p; }
  template <class D>
  void rotation(const Eigen::MatrixBase<D>& r) { R = r; }
  template <class D>
  void translation(const Eigen::MatrixBase<D>& t) { p = t; }
  SE3Tpl inverse() const { return SE3Tpl(M3<S>(R.transpose()), V3<S>(-(R.transpose() * p))); }
  SE3Tpl operator*(const SE3Tpl& o) const { return SE3Tpl(M3<S>(R * o.R), V3<S>(R * o.p + p)); }
  SE3Tpl act(const SE3Tpl& o) const { return *this * o; }
  SE3Tpl actInv(const SE3Tpl& o) const { return inverse() * o; }
  M6<S> toActionMatrix() const {
    M6<S> x;
    x << R, hat(p) * R, M3<S>::Zero(), R;
    return x;
  }
  M6<S> toActionMatrixInverse() const { return inverse().toActionMatrix(); }
  M6<S> toDualActionMatrix() const { return toActionMatrixInverse().transpose(); }
  MotionTpl<S> act(const MotionTpl<S>& v) const { return MotionTpl<S>(V6<S>(toActionMatrix() * v.m)); }
  MotionTpl<S> actInv(const MotionTpl<S>& v) const { return MotionTpl<S>(V6<S>(toActionMatrixInverse() * v.m)); }
  ForceTpl<S> act(const ForceTpl<S>& f) const { return ForceTpl<S>(V6<S>(toDualActionMatrix() * f.m)); }
  ForceTpl<S> actInv(const ForceTpl<S>& f) const { return ForceTpl<S>(V6<S>(inverse().toDualActionMatrix() * f.m)); }
  template <class D>
  V3<S> act(const Eigen::MatrixBase<D>& v) const { return R * v + p; }
  template <class T> SE3Tpl<T> cast() const { return SE3Tpl<T>(M3<T>(R.template cast<T>()), V3<T>(p.template cast<T>())); }
  bool isApprox(const SE3Tpl& o, const S& e = Eigen::NumTraits<S>::dummy_precision()) const { return (R - o.R).norm() <= e && (p - o.p).norm() <= e; }
  bool operator==(const SE3Tpl& o) const { return R == o.R && p == o.p; }
  bool operator!=(const SE3Tpl& o) const { return !(*this == o); }
  friend std::ostream& operator<<(std::ostream& os, const SE3Tpl& X) { return os << "R=\n" << X.R << "\np=" << X.p.transpose() << "\n"; }
};
typedef SE3Tpl<double> SE3;
typedef MotionTpl<double> Motion;
typedef ForceTpl<double> Force;

// motion cross motion, and its dual on forces
template <class S> M6<S> ad(const V6<S>& v) {
  M6<S> x;
  x << hat(v.template tail<3>()), hat(v.template head<3>()), M3<S>::Zero(), hat(v.template tail<3>());
  return x;
}

// exponentials and logarithms
template <class S> M3<S> exp3(const V3<S>& w) {
  const S t = w.norm();
  const M3<S> h = hat(w);
  if (t < S(1e-6)) return M3<S>::Identity() + h + S(0.5) * h * h + h * h * h / S(6);
  return M3<S>::Identity() + std::sin(t) / t * h + (S(1) - std::cos(t)) / (t * t) * h * h;
}
template <class D> V3<typename D::Scalar> log3(const Eigen::MatrixBase<D>& R_) {
  typedef typename D::Scalar S;
  const M3<S> R = R_;
  V3<S> w(R(2, 1) - R(1, 2), R(0, 2) - R(2, 0), R(1, 0) - R(0, 1));
  const S s = w.norm() / 2, c = (R.trace() - S(1)) / 2;
  const S t = std::atan2(s, c);
  if (s < S(1e-9) && c > 0) return w / 2;
  return w * (t / (2 * s));
}
// right Jacobians by their series (fast for the moderate angles used)
template <class S> M6<S> Jexp6_(const V6<S>& v) {
  const M6<S> a = -ad<S>(v);
  M6<S> term = M6<S>::Identity(), sum = term;
  for (int k = 1; k < 40; ++k) {
    term = term * a / S(k + 1);
    sum += term;
  }
  return sum;
}
template <class S> M3<S> Jexp3_(const V3<S>& v) {
  const M3<S> a = -hat(v);
  M3<S> term = M3<S>::Identity(), sum = term;
  for (int k = 1; k < 40; ++k) {
    term = term * a / S(k + 1);
    sum += term;
  }
  return sum;
}
template <class S> SE3Tpl<S> exp6(const V6<S>& v) {
  // p = (left Jacobian of SO3) * linear part
  return SE3Tpl<S>(exp3<S>(v.template tail<3>()), V3<S>(Jexp3_<S>(V3<S>(-v.template tail<3>())) * v.template head<3>()));
}
template <class S> SE3Tpl<S> exp6(const MotionTpl<S>& v) { return exp6<S>(v.m); }
template <class S> MotionTpl<S> log6(const SE3Tpl<S>& M) {
  const V3<S> w = log3(M.R);
  const M3<S> jl = Jexp3_<S>(V3<S>(-w));
  return MotionTpl<S>(V3<S>(jl.inverse() * M.p), w);
}
template <class D, class O> void Jlog3(const Eigen::MatrixBase<D>& R, const Eigen::MatrixBase<O>& J) {
  typedef typename D::Scalar S;
  const_cast<Eigen::MatrixBase<O>&>(J).derived() = Jexp3_<S>(log3(R)).inverse();
}
template <class S, class O> void Jlog6(const SE3Tpl<S>& M, const Eigen::MatrixBase<O>& J) {
  const_cast<Eigen::MatrixBase<O>&>(J).derived() = Jexp6_<S>(log6(M).m).inverse();
}
template <class S> M6<S> Jlog6(const SE3Tpl<S>& M) { return Jexp6_<S>(log6(M).m).inverse(); }
namespace quaternion {
template <class S, class D> void assignQuaternion(Eigen::Quaternion<S>& q, const Eigen::MatrixBase<D>& R) { q = Eigen::Quaternion<S>(M3<S>(R)); }
}

template <class S> class InertiaTpl {
 public:
  S mass;
  V3<S> lever;
  M3<S> inertia;  // about the centre of mass
  template <class T> M6<T> matrix() const {
    const M3<T> c = hat(lever.template cast<T>().eval());
    M6<T> x;
    x << T(mass) * M3<T>::Identity(), -T(mass) * c, T(mass) * c, inertia.template cast<T>() - T(mass) * c * c;
    return x;
  }
  template <class T> InertiaTpl<T> cast() const { return InertiaTpl<T>{T(mass), lever.template cast<T>(), inertia.template cast<T>()}; }
};

enum JointKind { UNIVERSE, FREE_FLYER, REVOLUTE, PRISMATIC };
struct JointModel {
  JointKind kind = UNIVERSE;
  int axis = 0, iq = 0, iv = 0;
  int nq() const { return kind == UNIVERSE ? 0 : kind == FREE_FLYER ? 7 : 1; }
  int nv() const { return kind == UNIVERSE ? 0 : kind == FREE_FLYER ? 6 : 1; }
  int idx_q() const { return iq; }
  int idx_v() const { return iv; }
};
enum FrameType { OP_FRAME = 1, JOINT = 2, FIXED_JOINT = 4, BODY = 8, SENSOR = 16 };
template <class S> struct FrameTpl {
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  std::string name;
  JointIndex parentJoint, parent;
  SE3Tpl<S> placement;
  FrameType type;
};

template <class S, int O = 0> class ModelTpl {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  typedef S Scalar;
  typedef VX<S> ConfigVectorType, TangentVectorType, VectorXs;
  int nq = 0, nv = 0, njoints = 1, nbodies = 1, nframes = 1;
  std::string name;
  std::vector<std::string> names{"universe"};
  container::aligned_vector<InertiaTpl<S>> inertias;
  container::aligned_vector<SE3Tpl<S>> jointPlacements;
  std::vector<JointModel> joints;
  std::vector<int> idx_qs, nqs, idx_vs, nvs;
  std::vector<JointIndex> parents;
  container::aligned_vector<FrameTpl<S>> frames;
  std::map<std::string, VX<S>> referenceConfigurations;
  VX<S> lowerPositionLimit, upperPositionLimit, velocityLimit, effortLimit;
  MotionTpl<S> gravity;
  ModelTpl() : inertias(1, InertiaTpl<S>{S(0), V3<S>::Zero(), M3<S>::Zero()}), jointPlacements(1), joints(1), idx_qs(1, 0), nqs(1, 0), idx_vs(1, 0), nvs(1, 0), parents(1, 0), frames(1, FrameTpl<S>{"universe", 0, 0, SE3Tpl<S>(), FIXED_JOINT}) {
    gravity = MotionTpl<S>(V3<S>(0, 0, S(-9.81)), V3<S>(V3<S>::Zero()));
  }
  JointIndex addJoint(JointIndex parent, JointKind k, int axis, const SE3Tpl<S>& placement, const std::string& n, const InertiaTpl<S>& inertia) {
    JointModel j;
    j.kind = k;
    j.axis = axis;
    j.iq = nq;
    j.iv = nv;
    joints.push_back(j);
    idx_qs.push_back(nq);
    nqs.push_back(j.nq());
    idx_vs.push_back(nv);
    nvs.push_back(j.nv());
    parents.push_back(parent);
    jointPlacements.push_back(placement);
    names.push_back(n);
    inertias.push_back(inertia);
    frames.push_back(FrameTpl<S>{n, joints.size() - 1, joints.size() - 1, SE3Tpl<S>(), JOINT});
    ++njoints, ++nbodies, ++nframes;
    nq += j.nq();
    nv += j.nv();
    return njoints - 1;
  }
  FrameIndex addFrame(const std::string& n, JointIndex j, const SE3Tpl<S>& placement) {
    frames.push_back(FrameTpl<S>{n, j, j, placement, OP_FRAME});
    return nframes++;
  }
  bool existJointName(const std::string& n) const { return getJointId(n) < (JointIndex)njoints; }
  JointIndex getJointId(const std::string& n) const {
    for (int i = 0; i < njoints; ++i)
      if (names[i] == n) return i;
    return njoints;
  }
  bool existFrame(const std::string& n) const { return getFrameId(n) < (FrameIndex)nframes; }
  FrameIndex getFrameId(const std::string& n, int = 0) const {
    for (int i = 0; i < nframes; ++i)
      if (frames[i].name == n) return i;
    return nframes;
  }
  template <class T> ModelTpl<T, O> cast() const {
    ModelTpl<T, O> r;
    r.nq = nq, r.nv = nv, r.njoints = njoints, r.nbodies = nbodies, r.nframes = nframes, r.name = name, r.names = names;
    r.joints = joints, r.idx_qs = idx_qs, r.nqs = nqs, r.idx_vs = idx_vs, r.nvs = nvs, r.parents = parents;
    r.inertias.clear(), r.jointPlacements.clear(), r.frames.clear();
    for (auto& i : inertias) r.inertias.push_back(i.template cast<T>());
    for (auto& i : jointPlacements) r.jointPlacements.push_back(i.template cast<T>());
    for (auto& f : frames) r.frames.push_back(FrameTpl<T>{f.name, f.parentJoint, f.parent, f.placement.template cast<T>(), f.type});
    r.lowerPositionLimit = lowerPositionLimit.template cast<T>(), r.upperPositionLimit = upperPositionLimit.template cast<T>();
    r.velocityLimit = velocityLimit.template cast<T>(), r.effortLimit = effortLimit.template cast<T>();
    r.gravity = gravity.template cast<T>();
    return r;
  }
};
template <class S> std::ostream& operator<<(std::ostream& os, const ModelTpl<S>& m) { return os << "nq=" << m.nq << " nv=" << m.nv; }
typedef ModelTpl<double> Model;

// ---------------------------------------------------------------------------------------------------------------
// one recursion for motion, forces and momentum, for any scalar; dq displaces the configuration (to first order)
template <class S, class T> struct Kin {
  container::aligned_vector<SE3Tpl<T>> oMi, liMi;
  std::vector<V6<T>, Eigen::aligned_allocator<V6<T>>> v, a, ag;
  VX<T> tau;
};
template <class S, class T> Eigen::Matrix<T, 6, Eigen::Dynamic> subspace(const JointModel& j) {
  M6X<T> s = M6X<T>::Zero(6, j.nv());
  if (j.kind == FREE_FLYER) s.setIdentity();
  if (j.kind == REVOLUTE) s(3 + j.axis, 0) = T(1);
  if (j.kind == PRISMATIC) s(j.axis, 0) = T(1);
  return s;
}
template <class S, class T> SE3Tpl<T> joint_pose(const JointModel& j, const VX<S>& q, const VX<T>& dq) {
  using std::cos;
  using std::sin;
  if (j.kind == FREE_FLYER) {
    const Eigen::Quaternion<S> qu(q[j.iq + 6], q[j.iq + 3], q[j.iq + 4], q[j.iq + 5]);
    const M3<T> R = qu.toRotationMatrix().template cast<T>();
    const V3<T> dv = dq.template segment<3>(j.iv), dw = dq.template segment<3>(j.iv + 3);
    return SE3Tpl<T>(M3<T>(R + R * hat(dw)), V3<T>(q.template segment<3>(j.iq).template cast<T>() + R * dv));
  }
  SE3Tpl<T> M;
  if (j.kind == UNIVERSE) return M;
  const T x = T(q[j.iq]) + dq[j.iv];
  if (j.kind == PRISMATIC) {
    M.p[j.axis] = x;
  } else {
    const int b = (j.axis + 1) % 3, c = (j.axis + 2) % 3;
    M.R(b, b) = M.R(c, c) = cos(x);
    M.R(c, b) = sin(x);
    M.R(b, c) = -sin(x);
  }
  return M;
}
template <class S, class T>
Kin<S, T> kin(const ModelTpl<S>& m, const VX<S>& q, const VX<T>& dq, const VX<T>& v, const VX<T>& a, const container::aligned_vector<ForceTpl<S>>* fext = nullptr) {
  Kin<S, T> k;
  const int n = m.njoints;
  k.oMi.resize(n), k.liMi.resize(n);
  k.v.assign(n, V6<T>::Zero()), k.a = k.v, k.ag = k.v;
  k.ag[0] = -m.gravity.m.template cast<T>();
  k.tau = VX<T>::Zero(m.nv);
  std::vector<V6<T>, Eigen::aligned_allocator<V6<T>>> f(n, V6<T>::Zero());
  for (int i = 1; i < n; ++i) {
    const JointModel& j = m.joints[i];
    const int p = (int)m.parents[i];
    k.liMi[i] = m.jointPlacements[i].template cast<T>() * joint_pose<S, T>(j, q, dq);
    k.oMi[i] = k.oMi[p] * k.liMi[i];
    const M6<T> X = k.liMi[i].toActionMatrixInverse();
    const M6X<T> s = subspace<S, T>(j);
    const V6<T> sv = s * v.segment(j.iv, j.nv()), sa = s * a.segment(j.iv, j.nv());
    k.v[i] = X * k.v[p] + sv;
    const V6<T> c = ad<T>(k.v[i]) * sv;
    k.a[i] = X * k.a[p] + sa + c;
    k.ag[i] = X * k.ag[p] + sa + c;
    const M6<T> I = m.inertias[i].template matrix<T>();
    f[i] = I * k.ag[i] - ad<T>(k.v[i]).transpose() * (I * k.v[i]);
    if (fext) f[i] -= (*fext)[i].m.template cast<T>();
  }
  for (int i = n - 1; i > 0; --i) {
    const JointModel& j = m.joints[i];
    k.tau.segment(j.iv, j.nv()) = subspace<S, T>(j).transpose() * f[i];
    f[m.parents[i]] += k.liMi[i].toActionMatrixInverse().transpose() * f[i];
  }
  return k;
}

template <class S, int O = 0> struct DataTpl {
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  typedef S Scalar;
  MX<S> M, Minv, dtau_dq, dtau_dv, ddq_dq, ddq_dv, ddq_dtau, dg_;
  VX<S> nle, ddq, tau, g, lambda_c, impulse_c, dq_after, torque_residual;
  container::aligned_vector<SE3Tpl<S>> oMi, liMi, oMf;
  container::aligned_vector<MotionTpl<S>> v, a;
  std::vector<V3<S>> com, vcom, acom;
  M3X<S> Jcom;
  M6X<S> J;
  ForceTpl<S> hg, dhg;
  M6X<S> Ag;
  // what later queries refer to
  VX<S> q_kin, v_kin, a_kin;      // last forward pass
  VX<S> q_J;                      // configuration of J
  VX<S> q_d, v_d, a_d;            // point of the kinematic derivatives
  VX<S> q_com, v_com;             // point of the centre of mass
  MX<S> Mdec;                     // decomposed mass matrix
  MX<S> Jdec;
  S damping = S(0);
  DataTpl() {}
  explicit DataTpl(const ModelTpl<S>& m) {
    const int n = m.nv;
    M = Minv = dtau_dq = dtau_dv = ddq_dq = ddq_dv = ddq_dtau = MX<S>::Zero(n, n);
    nle = ddq = tau = g = dq_after = torque_residual = VX<S>::Zero(n);
    oMi.resize(m.njoints), liMi.resize(m.njoints), oMf.resize(m.nframes);
    v.assign(m.njoints, MotionTpl<S>::Zero()), a = v;
    com.assign(m.njoints, V3<S>::Zero()), vcom = com, acom = com;
    Jcom = M3X<S>::Zero(3, n);
    J = Ag = M6X<S>::Zero(6, n);
    hg = dhg = ForceTpl<S>::Zero();
  }
};
typedef DataTpl<double> Data;

namespace mini {
template <class S> VX<S> none(const ModelTpl<S>& m) { return VX<S>::Zero(m.nv); }
template <class S> Kin<S, S> real(const ModelTpl<S>& m, const VX<S>& q, const VX<S>& v, const VX<S>& a, const container::aligned_vector<ForceTpl<S>>* f = nullptr) {
  return kin<S, S>(m, q, none(m), v, a, f);
}
// derivative of fn(Kin) with respect to one of (configuration, velocity, acceleration)
template <class S, class F> MX<S> diff(const ModelTpl<S>& m, const VX<S>& q, const VX<S>& v, const VX<S>& a, int which, F fn, const container::aligned_vector<ForceTpl<S>>* f = nullptr) {
  typedef std::complex<S> T;
  const S h = S(1e-30);
  MX<S> J;
  for (int c = 0; c < m.nv; ++c) {
    VX<T> dq = VX<T>::Zero(m.nv), vv = v.template cast<T>(), aa = a.template cast<T>();
    (which == 0 ? dq : which == 1 ? vv : aa)[c] += T(0, h);
    const VX<T> o = fn(kin<S, T>(m, q, dq, vv, aa, f));
    if (!c) J.resize(o.size(), m.nv);
    J.col(c) = o.imag() / h;
  }
  return J;
}
template <class S> void set_kin(const ModelTpl<S>& m, DataTpl<S>& d, const VX<S>& q, const VX<S>& v, const VX<S>& a) {
  const Kin<S, S> k = real(m, q, v, a);
  d.q_kin = q, d.v_kin = v, d.a_kin = a;
  for (int i = 0; i < m.njoints; ++i) {
    d.oMi[i] = k.oMi[i], d.liMi[i] = k.liMi[i];
    d.v[i] = MotionTpl<S>(k.v[i]), d.a[i] = MotionTpl<S>(k.a[i]);
  }
}
template <class S> void set_J(const ModelTpl<S>& m, DataTpl<S>& d, const VX<S>& q) {
  d.q_J = q;
  const Kin<S, S> k = real(m, q, none(m), none(m));
  for (int i = 1; i < m.njoints; ++i) d.J.middleCols(m.joints[i].iv, m.joints[i].nv()) = k.oMi[i].toActionMatrix() * subspace<S, S>(m.joints[i]);
}
template <class S> MX<S> mass(const ModelTpl<S>& m, const VX<S>& q) {
  MX<S> M(m.nv, m.nv);
  const VX<S> z = none(m), t0 = real(m, q, z, z).tau;
  for (int c = 0; c < m.nv; ++c) M.col(c) = real(m, q, z, VX<S>(VX<S>::Unit(m.nv, c))).tau - t0;
  return (M + M.transpose()) / S(2);
}
template <class S> M6X<S> joint_jac(const ModelTpl<S>& m, const VX<S>& q, JointIndex j) {  // local
  M6X<S> J = M6X<S>::Zero(6, m.nv);
  const Kin<S, S> k = real(m, q, none(m), none(m));
  for (JointIndex i = j; i > 0; i = m.parents[i]) J.middleCols(m.joints[i].iv, m.joints[i].nv()) = (k.oMi[j].inverse() * k.oMi[i]).toActionMatrix() * subspace<S, S>(m.joints[i]);
  return J;
}
// express a spatial vector given in a frame at `M` in one of the three reference frames
template <class T> V6<T> express(const SE3Tpl<T>& M, ReferenceFrame rf, const V6<T>& v) {
  if (rf == LOCAL) return v;
  if (rf == WORLD) return M.toActionMatrix() * v;
  return SE3Tpl<T>(M.R, V3<T>(V3<T>::Zero())).toActionMatrix() * v;
}
template <class S, class T> V3<T> com(const ModelTpl<S>& m, const Kin<S, T>& k) {
  V3<T> c = V3<T>::Zero();
  T mass(0);
  for (int i = 1; i < m.njoints; ++i) c += T(m.inertias[i].mass) * (k.oMi[i].R * m.inertias[i].lever.template cast<T>() + k.oMi[i].p), mass += T(m.inertias[i].mass);
  return c / mass;
}
template <class S, class T> V3<T> vcom(const ModelTpl<S>& m, const Kin<S, T>& k) {
  V3<T> c = V3<T>::Zero();
  T mass(0);
  for (int i = 1; i < m.njoints; ++i) {
    const V3<T> l = m.inertias[i].lever.template cast<T>();
    c += T(m.inertias[i].mass) * (k.oMi[i].R * (k.v[i].template head<3>() + hat(k.v[i].template tail<3>().eval()) * l)), mass += T(m.inertias[i].mass);
  }
  return c / mass;
}
// momentum (rate of change of it, if rate) about the centre of mass, in world axes
template <class S, class T> V6<T> momentum(const ModelTpl<S>& m, const Kin<S, T>& k, bool rate) {
  V6<T> h = V6<T>::Zero();
  for (int i = 1; i < m.njoints; ++i) {
    const M6<T> I = m.inertias[i].template matrix<T>();
    const V6<T> f = rate ? V6<T>(I * k.a[i] - ad<T>(k.v[i]).transpose() * (I * k.v[i])) : V6<T>(I * k.v[i]);
    h += k.oMi[i].toActionMatrixInverse().transpose() * f;
  }
  const V3<T> c = com(m, k);
  h.template tail<3>() -= hat(c) * h.template head<3>();
  return h;
}
template <class M, class X> void put(const Eigen::MatrixBase<M>& out, const X& x) { const_cast<Eigen::MatrixBase<M>&>(out).derived() = x; }
template <class S> void set_derivs(DataTpl<S>& d, const VX<S>& q, const VX<S>& v, const VX<S>& a) { d.q_d = q, d.v_d = v, d.a_d = a; }
}  // namespace mini

// ---------------------------------------------------------------------------------------------------------------
// kinematics
template <class S, class Q> void forwardKinematics(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<Q>& q) { mini::set_kin<S>(m, d, q, mini::none(m), mini::none(m)); }
template <class S, class Q, class V> void forwardKinematics(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<Q>& q, const Eigen::MatrixBase<V>& v) { mini::set_kin<S>(m, d, q, v, mini::none(m)); }
template <class S, class Q, class V, class A>
void forwardKinematics(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<Q>& q, const Eigen::MatrixBase<V>& v, const Eigen::MatrixBase<A>& a) { mini::set_kin<S>(m, d, q, v, a); }
template <class S> void updateGlobalPlacements(const ModelTpl<S>& m, DataTpl<S>& d) {
  for (int i = 1; i < m.njoints; ++i) d.oMi[i] = d.oMi[m.parents[i]] * d.liMi[i];
}
template <class S> const SE3Tpl<S>& updateFramePlacement(const ModelTpl<S>& m, DataTpl<S>& d, FrameIndex f) { return d.oMf[f] = d.oMi[m.frames[f].parentJoint] * m.frames[f].placement; }
template <class S> void updateFramePlacements(const ModelTpl<S>& m, DataTpl<S>& d) {
  for (int i = 0; i < m.nframes; ++i) updateFramePlacement(m, d, i);
}
template <class S, class Q> const M6X<S>& computeJointJacobians(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<Q>& q) {
  // computes the placements, too
  const Kin<S, S> k = mini::real<S>(m, q, mini::none(m), mini::none(m));
  for (int i = 0; i < m.njoints; ++i) d.oMi[i] = k.oMi[i], d.liMi[i] = k.liMi[i];
  mini::set_J<S>(m, d, q);
  return d.J;
}
template <class S> const M6X<S>& computeJointJacobians(const ModelTpl<S>& m, DataTpl<S>& d) {
  mini::set_J<S>(m, d, d.q_kin);
  return d.J;
}
template <class S, class J> void getJointJacobian(const ModelTpl<S>& m, const DataTpl<S>& d, JointIndex j, ReferenceFrame rf, const Eigen::MatrixBase<J>& out) {
  M6X<S> l = mini::joint_jac<S>(m, d.q_J, j);
  for (int c = 0; c < m.nv; ++c) l.col(c) = mini::express<S>(d.oMi[j], rf, l.col(c));
  mini::put(out, l);
}
template <class S, class J> void getFrameJacobian(const ModelTpl<S>& m, DataTpl<S>& d, FrameIndex f, ReferenceFrame rf, const Eigen::MatrixBase<J>& out) {
  const JointIndex j = m.frames[f].parentJoint;
  M6X<S> l = m.frames[f].placement.toActionMatrixInverse() * mini::joint_jac<S>(m, d.q_J, j);
  d.oMf[f] = d.oMi[j] * m.frames[f].placement;
  for (int c = 0; c < m.nv; ++c) l.col(c) = mini::express<S>(d.oMf[f], rf, l.col(c));
  mini::put(out, l);
}
template <class S> MotionTpl<S> getFrameVelocity(const ModelTpl<S>& m, const DataTpl<S>& d, FrameIndex f, ReferenceFrame rf = LOCAL) {
  const JointIndex j = m.frames[f].parentJoint;
  return MotionTpl<S>(mini::express<S>(d.oMi[j] * m.frames[f].placement, rf, m.frames[f].placement.actInv(d.v[j]).m));
}
template <class S> MotionTpl<S> getFrameAcceleration(const ModelTpl<S>& m, const DataTpl<S>& d, FrameIndex f, ReferenceFrame rf = LOCAL) {
  const JointIndex j = m.frames[f].parentJoint;
  return MotionTpl<S>(mini::express<S>(d.oMi[j] * m.frames[f].placement, rf, m.frames[f].placement.actInv(d.a[j]).m));
}
template <class S> MotionTpl<S> getFrameClassicalAcceleration(const ModelTpl<S>& m, const DataTpl<S>& d, FrameIndex f, ReferenceFrame rf = LOCAL) {
  MotionTpl<S> a = getFrameAcceleration(m, d, f, rf);
  const MotionTpl<S> v = getFrameVelocity(m, d, f, rf);
  a.linear() += hat(v.angular()) * v.linear();
  return a;
}
// kinematic derivatives
template <class S, class Q, class V, class A>
void computeForwardKinematicsDerivatives(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<Q>& q, const Eigen::MatrixBase<V>& v, const Eigen::MatrixBase<A>& a) {
  mini::set_kin<S>(m, d, q, v, a);
  mini::set_J<S>(m, d, q);
  mini::set_derivs<S>(d, q, v, a);
}
template <class S, class A, class B>
void getJointVelocityDerivatives(const ModelTpl<S>& m, const DataTpl<S>& d, JointIndex j, ReferenceFrame rf, const Eigen::MatrixBase<A>& dq, const Eigen::MatrixBase<B>& dv) {
  typedef std::complex<S> T;
  auto f = [&](const Kin<S, T>& k) -> VX<T> { return mini::express<T>(k.oMi[j], rf, k.v[j]); };
  mini::put(dq, mini::diff<S>(m, d.q_d, d.v_d, d.a_d, 0, f));
  mini::put(dv, mini::diff<S>(m, d.q_d, d.v_d, d.a_d, 1, f));
}
template <class S, class A, class B, class C, class D>
void getJointAccelerationDerivatives(const ModelTpl<S>& m, const DataTpl<S>& d, JointIndex j, ReferenceFrame rf, const Eigen::MatrixBase<A>& v_dq, const Eigen::MatrixBase<B>& a_dq, const Eigen::MatrixBase<C>& a_dv, const Eigen::MatrixBase<D>& a_da) {
  typedef std::complex<S> T;
  auto fv = [&](const Kin<S, T>& k) -> VX<T> { return mini::express<T>(k.oMi[j], rf, k.v[j]); };
  auto fa = [&](const Kin<S, T>& k) -> VX<T> { return mini::express<T>(k.oMi[j], rf, k.a[j]); };
  mini::put(v_dq, mini::diff<S>(m, d.q_d, d.v_d, d.a_d, 0, fv));
  mini::put(a_dq, mini::diff<S>(m, d.q_d, d.v_d, d.a_d, 0, fa));
  mini::put(a_dv, mini::diff<S>(m, d.q_d, d.v_d, d.a_d, 1, fa));
  mini::put(a_da, mini::diff<S>(m, d.q_d, d.v_d, d.a_d, 2, fa));
}
template <class S, class A, class B>
void getFrameVelocityDerivatives(const ModelTpl<S>& m, const DataTpl<S>& d, FrameIndex id, ReferenceFrame rf, const Eigen::MatrixBase<A>& dq, const Eigen::MatrixBase<B>& dv) {
  typedef std::complex<S> T;
  const JointIndex j = m.frames[id].parentJoint;
  auto f = [&](const Kin<S, T>& k) -> VX<T> {
    const SE3Tpl<T> P = m.frames[id].placement.template cast<T>();
    return mini::express<T>(k.oMi[j] * P, rf, V6<T>(P.toActionMatrixInverse() * k.v[j]));
  };
  mini::put(dq, mini::diff<S>(m, d.q_d, d.v_d, d.a_d, 0, f));
  mini::put(dv, mini::diff<S>(m, d.q_d, d.v_d, d.a_d, 1, f));
}
// centre of mass and momentum
template <class S, class Q, class V> const V3<S>& centerOfMass(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<Q>& q, const Eigen::MatrixBase<V>& v) {
  mini::set_kin<S>(m, d, q, v, mini::none(m));
  const Kin<S, S> k = mini::real<S>(m, q, v, mini::none(m));
  d.q_com = q, d.v_com = v;
  d.vcom[0] = mini::vcom(m, k);
  return d.com[0] = mini::com(m, k);
}
template <class S, class Q> const V3<S>& centerOfMass(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<Q>& q) {
  mini::set_kin<S>(m, d, q, mini::none(m), mini::none(m));
  return d.com[0] = mini::com(m, mini::real<S>(m, q, mini::none(m), mini::none(m)));
}
template <class S, class Q, class V, class A> const V3<S>& centerOfMass(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<Q>& q, const Eigen::MatrixBase<V>& v, const Eigen::MatrixBase<A>& a) {
  centerOfMass(m, d, q, v);
  mini::set_kin<S>(m, d, q, v, a);
  return d.com[0];
}
template <class S> const M3X<S>& jacobianCenterOfMass(const ModelTpl<S>& m, DataTpl<S>& d, bool = true) {
  typedef std::complex<S> T;
  const VX<S> z = mini::none(m);
  d.com[0] = mini::com(m, mini::real<S>(m, d.q_kin, z, z));
  d.Jcom = mini::diff<S>(m, d.q_kin, z, z, 0, [&](const Kin<S, T>& k) -> VX<T> { return mini::com(m, k); });
  return d.Jcom;
}
template <class S, class A> void getCenterOfMassVelocityDerivatives(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& out) {
  typedef std::complex<S> T;
  mini::put(out, mini::diff<S>(m, d.q_com, d.v_com, mini::none(m), 0, [&](const Kin<S, T>& k) -> VX<T> { return mini::vcom(m, k); }));
}
template <class S> const ForceTpl<S>& computeCentroidalMomentum(const ModelTpl<S>& m, DataTpl<S>& d) {
  const Kin<S, S> k = mini::real<S>(m, d.q_kin, d.v_kin, mini::none(m));
  d.com[0] = mini::com(m, k);
  d.vcom[0] = mini::vcom(m, k);
  d.hg = ForceTpl<S>(mini::momentum(m, k, false));
  return d.hg;
}
template <class S, class Q, class V> const ForceTpl<S>& computeCentroidalMomentum(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<Q>& q, const Eigen::MatrixBase<V>& v) {
  mini::set_kin<S>(m, d, q, v, mini::none(m));
  return computeCentroidalMomentum(m, d);
}
template <class S, class A, class B, class C, class D>
void getCentroidalDynamicsDerivatives(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& dh_dq, const Eigen::MatrixBase<B>& dhd_dq, const Eigen::MatrixBase<C>& dhd_dv, const Eigen::MatrixBase<D>& dhd_da) {
  typedef std::complex<S> T;
  auto h = [&](const Kin<S, T>& k) -> VX<T> { return mini::momentum(m, k, false); };
  auto hd = [&](const Kin<S, T>& k) -> VX<T> { return mini::momentum(m, k, true); };
  mini::put(dh_dq, mini::diff<S>(m, d.q_d, d.v_d, d.a_d, 0, h));
  mini::put(dhd_dq, mini::diff<S>(m, d.q_d, d.v_d, d.a_d, 0, hd));
  mini::put(dhd_dv, mini::diff<S>(m, d.q_d, d.v_d, d.a_d, 1, hd));
  mini::put(dhd_da, mini::diff<S>(m, d.q_d, d.v_d, d.a_d, 2, hd));
}
// dynamics
template <class S, class Q, class V> void computeAllTerms(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<Q>& q, const Eigen::MatrixBase<V>& v) {
  const VX<S> z = mini::none(m);
  mini::set_kin<S>(m, d, q, v, z);
  mini::set_J<S>(m, d, q);
  mini::set_derivs<S>(d, q, v, z);  // (lenient: terminal frame velocities are differentiated after this)
  d.M = mini::mass<S>(m, q);
  d.nle = mini::real<S>(m, q, v, z).tau;
  d.g = mini::real<S>(m, q, z, z).tau;
  computeCentroidalMomentum(m, d);
  jacobianCenterOfMass(m, d);
}
template <class S, class Q, class V, class A> const VX<S>& rnea(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<Q>& q, const Eigen::MatrixBase<V>& v, const Eigen::MatrixBase<A>& a) {
  // (leaves local motion only; the global placements need updateGlobalPlacements)
  const auto keep = d.oMi;
  mini::set_kin<S>(m, d, q, v, a);
  d.oMi = keep;
  return d.tau = mini::real<S>(m, q, v, a).tau;
}
template <class S, class Q, class V, class A> const VX<S>& rnea(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<Q>& q, const Eigen::MatrixBase<V>& v, const Eigen::MatrixBase<A>& a, const container::aligned_vector<ForceTpl<S>>& f) {
  const auto keep = d.oMi;
  mini::set_kin<S>(m, d, q, v, a);
  d.oMi = keep;
  return d.tau = mini::real<S>(m, q, v, a, &f).tau;
}
namespace mini {
template <class S> void rnea_derivs(const ModelTpl<S>& m, DataTpl<S>& d, const VX<S>& q, const VX<S>& v, const VX<S>& a, const container::aligned_vector<ForceTpl<S>>* f) {
  typedef std::complex<S> T;
  auto t = [&](const Kin<S, T>& k) -> VX<T> { return k.tau; };
  set_kin<S>(m, d, q, v, a);
  set_J<S>(m, d, q);
  set_derivs<S>(d, q, v, a);
  d.tau = real<S>(m, q, v, a, f).tau;
  d.dtau_dq = diff<S>(m, q, v, a, 0, t, f);
  d.dtau_dv = diff<S>(m, q, v, a, 1, t, f);
  d.M.template triangularView<Eigen::Upper>() = mass<S>(m, q);  // the upper part only
}
}  // namespace mini
template <class S, class Q, class V, class A> void computeRNEADerivatives(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<Q>& q, const Eigen::MatrixBase<V>& v, const Eigen::MatrixBase<A>& a) { mini::rnea_derivs<S>(m, d, q, v, a, nullptr); }
template <class S, class Q, class V, class A> void computeRNEADerivatives(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<Q>& q, const Eigen::MatrixBase<V>& v, const Eigen::MatrixBase<A>& a, const container::aligned_vector<ForceTpl<S>>& f) { mini::rnea_derivs<S>(m, d, q, v, a, &f); }
template <class S, class Q> const VX<S>& computeGeneralizedGravity(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<Q>& q) { return d.g = mini::real<S>(m, q, mini::none(m), mini::none(m)).tau; }
template <class S, class Q> const VX<S>& computeStaticTorque(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<Q>& q, const container::aligned_vector<ForceTpl<S>>& f) { return d.tau = mini::real<S>(m, q, mini::none(m), mini::none(m), &f).tau; }
template <class S, class Q, class G> void computeGeneralizedGravityDerivatives(const ModelTpl<S>& m, DataTpl<S>&, const Eigen::MatrixBase<Q>& q, const Eigen::MatrixBase<G>& out) {
  typedef std::complex<S> T;
  mini::put(out, mini::diff<S>(m, q, mini::none(m), mini::none(m), 0, [&](const Kin<S, T>& k) -> VX<T> { return k.tau; }));
}
template <class S, class Q, class G> void computeStaticTorqueDerivatives(const ModelTpl<S>& m, DataTpl<S>&, const Eigen::MatrixBase<Q>& q, const container::aligned_vector<ForceTpl<S>>& f, const Eigen::MatrixBase<G>& out) {
  typedef std::complex<S> T;
  mini::put(out, mini::diff<S>(m, q, mini::none(m), mini::none(m), 0, [&](const Kin<S, T>& k) -> VX<T> { return k.tau; }, &f));
}
template <class S, class Q, class V, class U> const VX<S>& aba(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<Q>& q, const Eigen::MatrixBase<V>& v, const Eigen::MatrixBase<U>& tau) {
  const VX<S> z = mini::none(m);
  const VX<S> ddq = mini::mass<S>(m, q).ldlt().solve(VX<S>(tau) - mini::real<S>(m, q, v, z).tau);
  const auto keep = d.oMi;
  mini::set_kin<S>(m, d, q, v, ddq);
  d.oMi = keep;
  return d.ddq = ddq;
}
template <class S, class Q, class V, class U, class A, class B, class C>
void computeABADerivatives(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<Q>& q, const Eigen::MatrixBase<V>& v, const Eigen::MatrixBase<U>& tau, const Eigen::MatrixBase<A>& dq, const Eigen::MatrixBase<B>& dv, const Eigen::MatrixBase<C>& dtau) {
  typedef std::complex<S> T;
  aba(m, d, q, v, tau);
  const VX<S> a = d.ddq;
  auto t = [&](const Kin<S, T>& k) -> VX<T> { return k.tau; };
  mini::set_kin<S>(m, d, q, v, a);
  mini::set_J<S>(m, d, q);
  mini::set_derivs<S>(d, q, v, a);
  d.dtau_dq = mini::diff<S>(m, q, v, a, 0, t);
  d.dtau_dv = mini::diff<S>(m, q, v, a, 1, t);
  const MX<S> Mi = mini::mass<S>(m, q).inverse();
  mini::put(dq, -Mi * d.dtau_dq);
  mini::put(dv, -Mi * d.dtau_dv);
  mini::put(dtau, Mi);
}
namespace cholesky {
template <class S> void decompose(const ModelTpl<S>&, DataTpl<S>& d) { d.Mdec = d.M.template selfadjointView<Eigen::Upper>(); }
template <class S, class A> void computeMinv(const ModelTpl<S>&, DataTpl<S>& d, const Eigen::MatrixBase<A>& out) { mini::put(out, d.Mdec.inverse()); }
}  // namespace cholesky
template <class S, class U, class A, class B>
const VX<S>& forwardDynamics(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<U>& tau, const Eigen::MatrixBase<A>& J, const Eigen::MatrixBase<B>& gamma, const S damping = S(0)) {
  cholesky::decompose(m, d);
  d.Jdec = J;
  d.damping = damping;
  const int n = m.nv, c = (int)J.rows();
  MX<S> K = MX<S>::Zero(n + c, n + c);
  K.topLeftCorner(n, n) = d.Mdec;
  K.topRightCorner(n, c) = J.transpose();
  K.bottomLeftCorner(c, n) = J;
  K.bottomRightCorner(c, c).diagonal().setConstant(-damping);
  VX<S> r(n + c);
  r << tau - d.nle, -gamma;
  const VX<S> s = K.fullPivLu().solve(r);
  d.lambda_c = -s.tail(c);
  return d.ddq = s.head(n);
}
template <class S, class V, class A>
const VX<S>& impulseDynamics(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<V>& v, const Eigen::MatrixBase<A>& J, const S e = S(0), const S damping = S(0)) {
  cholesky::decompose(m, d);
  d.Jdec = J;
  d.damping = damping;
  const int n = m.nv, c = (int)J.rows();
  MX<S> K = MX<S>::Zero(n + c, n + c);
  K.topLeftCorner(n, n) = d.Mdec;
  K.topRightCorner(n, c) = J.transpose();
  K.bottomLeftCorner(c, n) = J;
  K.bottomRightCorner(c, c).diagonal().setConstant(-damping);
  VX<S> r(n + c);
  r << d.Mdec * v, -e * (J * v);
  const VX<S> s = K.fullPivLu().solve(r);
  d.impulse_c = -s.tail(c);
  return d.dq_after = s.head(n);
}
template <class S, class A, class B> void getKKTContactDynamicMatrixInverse(const ModelTpl<S>& m, const DataTpl<S>& d, const Eigen::MatrixBase<A>& J, const Eigen::MatrixBase<B>& out) {
  // of the decomposition made by forwardDynamics or impulseDynamics
  const int n = m.nv, c = (int)J.rows();
  MX<S> K = MX<S>::Zero(n + c, n + c);
  K.topLeftCorner(n, n) = d.Mdec;
  K.topRightCorner(n, c) = J.transpose();
  K.bottomLeftCorner(c, n) = J;
  K.bottomRightCorner(c, c).diagonal().setConstant(-d.damping);
  mini::put(out, K.fullPivLu().inverse());
}
// configuration space
template <class S> VX<S> neutral(const ModelTpl<S>& m) {
  VX<S> q = VX<S>::Zero(m.nq);
  for (auto& j : m.joints)
    if (j.kind == FREE_FLYER) q[j.iq + 6] = S(1);
  return q;
}
namespace mini {
template <class S> SE3Tpl<S> pose(const JointModel& j, const VX<S>& q) { return joint_pose<S, S>(j, q, VX<S>(VX<S>::Zero(j.iv + 6))); }
}
template <class S, class A, class B, class C> void integrate(const ModelTpl<S>& m, const Eigen::MatrixBase<A>& q_, const Eigen::MatrixBase<B>& dq, const Eigen::MatrixBase<C>& out_) {
  const VX<S> q = q_, v = dq;
  VX<S> out(m.nq);
  for (auto& j : m.joints) {
    if (j.kind == FREE_FLYER) {
      const SE3Tpl<S> M = mini::pose<S>(j, q) * exp6<S>(V6<S>(v.template segment<6>(j.iv)));
      Eigen::Quaternion<S> qu(M.R), q0(q[j.iq + 6], q[j.iq + 3], q[j.iq + 4], q[j.iq + 5]);
      qu.normalize();
      if (qu.coeffs().dot(q0.coeffs()) < S(0)) qu.coeffs() *= S(-1);
      out.template segment<3>(j.iq) = M.p;
      out.template segment<4>(j.iq + 3) = qu.coeffs();
    } else if (j.kind != UNIVERSE) {
      out[j.iq] = q[j.iq] + v[j.iv];
    }
  }
  mini::put(out_, out);
}
template <class S, class A, class B, class C> void difference(const ModelTpl<S>& m, const Eigen::MatrixBase<A>& a_, const Eigen::MatrixBase<B>& b_, const Eigen::MatrixBase<C>& out_) {
  const VX<S> a = a_, b = b_;
  VX<S> out(m.nv);
  for (auto& j : m.joints) {
    if (j.kind == FREE_FLYER)
      out.template segment<6>(j.iv) = log6(mini::pose<S>(j, a).inverse() * mini::pose<S>(j, b)).m;
    else if (j.kind != UNIVERSE)
      out[j.iv] = b[j.iq] - a[j.iq];
  }
  mini::put(out_, out);
}
template <class S, class A, class B, class C>
void dIntegrate(const ModelTpl<S>& m, const Eigen::MatrixBase<A>&, const Eigen::MatrixBase<B>& dq, const Eigen::MatrixBase<C>& out_, const ArgumentPosition arg, const AssignmentOperatorType op = SETTO) {
  Eigen::MatrixBase<C>& out = const_cast<Eigen::MatrixBase<C>&>(out_);
  const VX<S> v = dq;
  for (auto& j : m.joints) {  // pinocchio writes the blocks of the joints, nothing else
    if (j.kind == UNIVERSE) continue;
    MX<S> J = MX<S>::Identity(j.nv(), j.nv());
    if (j.kind == FREE_FLYER) {
      const V6<S> w = v.template segment<6>(j.iv);
      J = arg == ARG0 ? M6<S>(exp6<S>(w).toActionMatrixInverse()) : Jexp6_<S>(w);
    }
    auto b = out.block(j.iv, j.iv, j.nv(), j.nv());
    if (op == SETTO) b = J;
    else if (op == ADDTO) b += J;
    else b -= J;
  }
}
template <class S, class A, class B, class C>
void dIntegrateTransport(const ModelTpl<S>& m, const Eigen::MatrixBase<A>& q, const Eigen::MatrixBase<B>& dq, const Eigen::MatrixBase<C>& out_, const ArgumentPosition arg) {
  MX<S> J = MX<S>::Zero(m.nv, m.nv);
  dIntegrate(m, q, dq, J, arg, SETTO);
  const MX<S> r = J * out_.derived();
  mini::put(out_, r);
}
template <class S, class A, class B, class C>
void dDifference(const ModelTpl<S>& m, const Eigen::MatrixBase<A>& a_, const Eigen::MatrixBase<B>& b_, const Eigen::MatrixBase<C>& out_, const ArgumentPosition arg) {
  Eigen::MatrixBase<C>& out = const_cast<Eigen::MatrixBase<C>&>(out_);
  const VX<S> a = a_, b = b_;
  // pinocchio writes the blocks of the joints (for vector spaces, the diagonal)
  for (auto& j : m.joints) {
    if (j.kind == UNIVERSE) continue;
    MX<S> J = MX<S>::Identity(j.nv(), j.nv());
    if (j.kind == FREE_FLYER) {
      const SE3Tpl<S> M = mini::pose<S>(j, a).inverse() * mini::pose<S>(j, b);
      J = Jlog6(M);
      if (arg == ARG0) J = J * M.toActionMatrixInverse();
    }
    if (arg == ARG0) J = -J;
    out.block(j.iv, j.iv, j.nv(), j.nv()) = J;
  }
}
template <class S> VX<S> randomConfiguration(const ModelTpl<S>& m) { return neutral(m); }
}  // namespace pinocchio
#endif
