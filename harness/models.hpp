// Closed-form models used as inputs of the library: states, residuals, costs, constraints, (differential)
// action models.  Every function is given by coefficients, so that a reference can evaluate it directly.
#ifndef MC_MODELS_HPP
#define MC_MODELS_HPP
#include "util.hpp"
#include "crocoddyl/core/action-base.hpp"
#include "crocoddyl/core/activations/quadratic.hpp"
#include "crocoddyl/core/constraint-base.hpp"
#include "crocoddyl/core/cost-base.hpp"
#include "crocoddyl/core/data-collector-base.hpp"
#include "crocoddyl/core/diff-action-base.hpp"
#include "crocoddyl/core/residual-base.hpp"
#include "crocoddyl/core/states/euclidean.hpp"

typedef Eigen::Ref<const Vec> CRef;
namespace cr = crocoddyl;
#define MC_NO_CAST(B)                                                        \
  std::shared_ptr<cr::B> cloneAsDouble() const override { return nullptr; }  \
  std::shared_ptr<cr::B> cloneAsFloat() const override { return nullptr; }

// f(z,u) = c + A z + B u + e sin(P z + Q u), componentwise
struct Fn {
  Vec c;
  Mat A, B, P, Q;
  double e = 0;
  Fn() {}
  Fn(Gen& g, long m, long nz, long nu, double scale, double e) : e(e) {
    c = scale * g.vec(m);
    A = scale * g.mat(m, nz);
    B = scale * g.mat(m, nu);
    P = g.mat(m, nz);
    Q = g.mat(m, nu);
  }
  Vec val(const Vec& z, const Vec& u) const {
    Vec s = P * z + Q * u;
    return Vec(c + A * z + B * u + e * s.array().sin().matrix());
  }
  Mat Jz(const Vec& z, const Vec& u) const {
    Vec s = P * z + Q * u;
    return Mat(A + e * s.array().cos().matrix().asDiagonal() * P);
  }
  Mat Ju(const Vec& z, const Vec& u) const {
    Vec s = P * z + Q * u;
    return Mat(B + e * s.array().cos().matrix().asDiagonal() * Q);
  }
};
// l(z,u) = c + q z + r u + 1/2 z'Qz + z'Su + 1/2 u'Ru + e (1 - cos(p z + w u))
struct Quad {
  double c = 0, e = 0;
  Vec q, r, p, w;
  Mat Q, S, R;
  Quad() {}
  Quad(Gen& g, long nz, long nu, double e, double shift = 0.5) : e(e) {
    c = g.next();
    q = g.vec(nz);
    r = g.vec(nu);
    Mat H = g.spd(nz + nu, shift);
    Q = H.topLeftCorner(nz, nz);
    S = H.topRightCorner(nz, nu);
    R = H.bottomRightCorner(nu, nu);
    p = g.vec(nz);
    w = g.vec(nu);
  }
  double ph(const Vec& z, const Vec& u) const { return p.dot(z) + w.dot(u); }
  double val(const Vec& z, const Vec& u) const {
    return c + q.dot(z) + r.dot(u) + 0.5 * z.dot(Q * z) + z.dot(S * u) + 0.5 * u.dot(R * u) + e * (1 - std::cos(ph(z, u)));
  }
  Vec gz(const Vec& z, const Vec& u) const { return Vec(q + Q * z + S * u + e * std::sin(ph(z, u)) * p); }
  Vec gu(const Vec& z, const Vec& u) const { return Vec(r + S.transpose() * z + R * u + e * std::sin(ph(z, u)) * w); }
  Mat Hzz(const Vec& z, const Vec& u) const { return Mat(Q + e * std::cos(ph(z, u)) * p * p.transpose()); }
  Mat Hzu(const Vec& z, const Vec& u) const { return Mat(S + e * std::cos(ph(z, u)) * p * w.transpose()); }
  Mat Huu(const Vec& z, const Vec& u) const { return Mat(R + e * std::cos(ph(z, u)) * w * w.transpose()); }
};

// A curved state: an angle kept as (cos, sin) and a velocity whose tangent is scaled by exp(0.4 sin(angle)).
// nx = 3, ndx = 2 (nq = 2, nv = 1); no Jacobian is the identity.
class CurvedState : public cr::StateAbstractTpl<double> {
 public:
  CurvedState() : cr::StateAbstractTpl<double>(3, 2) {}
  MC_NO_CAST(StateBase)
  static double ang(const CRef& x) { return std::atan2(x[1], x[0]); }
  static double sig(double t) { return std::exp(0.4 * std::sin(t)); }
  static double dlog(double t) { return 0.4 * std::cos(t); }
  static double wrap(double a) { return std::atan2(std::sin(a), std::cos(a)); }
  Vec zero() const override { return Vec(Eigen::Vector3d(1, 0, 0)); }
  Vec rand() const override { return Vec(Eigen::Vector3d(std::cos(0.7), std::sin(0.7), 0.3)); }
  static Vec point(double angle, double v) { return Vec(Eigen::Vector3d(std::cos(angle), std::sin(angle), v)); }
  void diff(const CRef& x0, const CRef& x1, Eigen::Ref<Vec> d) const override {
    double a0 = ang(x0), a1 = ang(x1), v0 = x0[2], v1 = x1[2];
    d[0] = wrap(a1 - a0);
    d[1] = (v1 - v0) / sig(a0);
  }
  void integrate(const CRef& x, const CRef& dx, Eigen::Ref<Vec> y) const override {
    double a = ang(x), v = x[2], d0 = dx[0], d1 = dx[1];  // x, dx may alias y
    y[0] = std::cos(a + d0);
    y[1] = std::sin(a + d0);
    y[2] = v + sig(a) * d1;
  }
  void Jdiff(const CRef& x0, const CRef& x1, Eigen::Ref<Mat> J1, Eigen::Ref<Mat> J2, const cr::Jcomponent w) const override {
    double a0 = ang(x0), a1 = ang(x1), d1 = (x1[2] - x0[2]) / sig(a0);
    if (w == cr::first || w == cr::both) {
      J1.setZero();
      J1(0, 0) = -1;
      J1(1, 0) = -d1 * dlog(a0);
      J1(1, 1) = -1;
    }
    if (w == cr::second || w == cr::both) {
      J2.setZero();
      J2(0, 0) = 1;
      J2(1, 1) = sig(a1) / sig(a0);
    }
  }
  static Mat Jx(const CRef& x, const CRef& dx) {
    double a = ang(x), s = sig(a) / sig(a + dx[0]);
    Mat J(2, 2);
    J << 1, 0, s * dlog(a) * dx[1], s;
    return J;
  }
  static Mat Jdx(const CRef& x, const CRef& dx) {
    double a = ang(x);
    Mat J(2, 2);
    J << 1, 0, 0, sig(a) / sig(a + dx[0]);
    return J;
  }
  void Jintegrate(const CRef& x, const CRef& dx, Eigen::Ref<Mat> J1, Eigen::Ref<Mat> J2, const cr::Jcomponent w,
                  const cr::AssignmentOp op) const override {
    auto put = [&](Eigen::Ref<Mat>& J, const Mat& v) {
      if (op == cr::setto) J = v;
      if (op == cr::addto) J += v;
      if (op == cr::rmfrom) J -= v;
    };
    const Vec d = dx;
    if (w == cr::first || w == cr::both) put(J1, Jx(x, d));
    if (w == cr::second || w == cr::both) put(J2, Jdx(x, d));
  }
  void JintegrateTransport(const CRef& x, const CRef& dx, Eigen::Ref<Mat> J, const cr::Jcomponent w) const override {
    Mat T = w == cr::first ? Jx(x, dx) : Jdx(x, dx);
    J = Mat(T * J);
  }
};

// z = x (-) zero, and its Jacobian in the tangent space at x
inline Vec zof(const std::shared_ptr<cr::StateAbstractTpl<double>>& s, const CRef& x) {
  Vec z(s->get_ndx());
  s->diff(s->zero(), x, z);
  return z;
}
inline Mat Jof(const std::shared_ptr<cr::StateAbstractTpl<double>>& s, const CRef& x) {
  Mat a(s->get_ndx(), s->get_ndx()), b(s->get_ndx(), s->get_ndx());
  a.setZero();
  b.setZero();
  s->Jdiff(s->zero(), x, a, b, cr::second);
  return b;
}
typedef std::shared_ptr<cr::StateAbstractTpl<double>> StateP;

class TResidual : public cr::ResidualModelAbstractTpl<double> {
 public:
  typedef cr::ResidualModelAbstractTpl<double> Base;
  Fn f;
  TResidual(StateP s, long nr, long nu, uint64_t seed, bool qd = true, bool vd = true, bool ud = true)
      : Base(s, nr, nu, qd, vd, ud) {
    Gen g(seed);
    f = Fn(g, nr, s->get_ndx(), nu, 1., 0.7);
    const long nv = s->get_nv();
    if (!qd) f.A.leftCols(nv).setZero(), f.P.leftCols(nv).setZero();
    if (!vd) f.A.rightCols(nv).setZero(), f.P.rightCols(nv).setZero();
    if (!ud) f.B.setZero(), f.Q.setZero();
  }
  MC_NO_CAST(ResidualModelBase)
  using Base::calc;
  using Base::calcDiff;
  void calc(const std::shared_ptr<ResidualDataAbstract>& d, const CRef& x, const CRef& u) override {
    d->r = f.val(zof(state_, x), u);
  }
  void calcDiff(const std::shared_ptr<ResidualDataAbstract>& d, const CRef& x, const CRef& u) override {
    Vec z = zof(state_, x);
    d->Rx = f.Jz(z, u) * Jof(state_, x);
    if (nu_) d->Ru = f.Ju(z, u);
  }
};

class TCost : public cr::CostModelAbstractTpl<double> {
 public:
  typedef cr::CostModelAbstractTpl<double> Base;
  Quad l;
  TCost(StateP s, long nr, long nu, uint64_t seed) : Base(s, nr, nu) {
    Gen g(seed);
    l = Quad(g, s->get_ndx(), nu, 0.4);
  }
  MC_NO_CAST(CostModelBase)
  using Base::calc;
  using Base::calcDiff;
  void calc(const std::shared_ptr<CostDataAbstract>& d, const CRef& x, const CRef& u) override {
    d->cost = l.val(zof(state_, x), u);
  }
  void calcDiff(const std::shared_ptr<CostDataAbstract>& d, const CRef& x, const CRef& u) override {
    Vec z = zof(state_, x);
    Mat J = Jof(state_, x);
    d->Lx = J.transpose() * l.gz(z, u);
    d->Lu = l.gu(z, u);
    d->Lxx = J.transpose() * l.Hzz(z, u) * J;
    d->Lxu = J.transpose() * l.Hzu(z, u);
    d->Luu = l.Huu(z, u);
  }
};

class TConstraint : public cr::ConstraintModelAbstractTpl<double> {
 public:
  typedef cr::ConstraintModelAbstractTpl<double> Base;
  Fn g, h;
  TConstraint(StateP s, long nu, long ng, long nh, bool T, uint64_t seed) : Base(s, nu, ng, nh, T) {
    Gen gen(seed);
    g = Fn(gen, ng, s->get_ndx(), nu, 1., 0.5);
    h = Fn(gen, nh, s->get_ndx(), nu, 1., 0.5);
  }
  MC_NO_CAST(ConstraintModelBase)
  using Base::calc;
  using Base::calcDiff;
  void calc(const std::shared_ptr<ConstraintDataAbstract>& d, const CRef& x, const CRef& u) override {
    d->g = g.val(zof(state_, x), u);
    d->h = h.val(zof(state_, x), u);
  }
  void calcDiff(const std::shared_ptr<ConstraintDataAbstract>& d, const CRef& x, const CRef& u) override {
    Vec z = zof(state_, x);
    Mat J = Jof(state_, x);
    d->Gx = g.Jz(z, u) * J;
    d->Hx = h.Jz(z, u) * J;
    d->Gu = g.Ju(z, u);
    d->Hu = h.Ju(z, u);
  }
};

enum Call { CALC, CALC_T, DIFF, DIFF_T };
// Called before every evaluation of a test model (identity, which call); may throw.  Also the place where
// harnesses count evaluations.
struct Hook {
  virtual ~Hook() {}
  virtual void before(int id, Call c) = 0;
  virtual void after(int id, Call c, void* data) {}
};

// Discrete action: xnext = x (+) f(z,u), cost l(z,u); constraints g, h; terminal ones use the *_T functions.
class TAct : public cr::ActionModelAbstractTpl<double> {
 public:
  typedef cr::ActionModelAbstractTpl<double> Base;
  typedef cr::ActionDataAbstractTpl<double> D;
  Fn f, g, h, gT, hT;
  Quad l, lT;
  int id = -1;
  Hook* hook = nullptr;
  struct Spec {
    long nu = 1, ng = 0, nh = 0, ng_T = 0, nh_T = 0;
    double e = 0;         // nonlinearity
    double fscale = 0.3;  // size of the dynamics increment
    uint64_t seed = 1;
    double shift = 0.5;       // added to the cost's Hessian
  };
  TAct(StateP s, const Spec& p) : Base(s, p.nu, 1, p.ng, p.nh, p.ng_T, p.nh_T) {
    Gen gen(p.seed);
    const long n = s->get_ndx();
    f = Fn(gen, n, n, p.nu, p.fscale, p.e * 0.3);
    l = Quad(gen, n, p.nu, p.e, p.shift);
    lT = Quad(gen, n, p.nu, p.e, p.shift);
    g = Fn(gen, p.ng, n, p.nu, 1., p.e * 0.3);
    h = Fn(gen, p.nh, n, p.nu, 1., p.e * 0.3);
    gT = Fn(gen, p.ng_T, n, p.nu, 1., p.e * 0.3);
    hT = Fn(gen, p.nh_T, n, p.nu, 1., p.e * 0.3);
  }
  MC_NO_CAST(ActionModelBase)
  bool lax = false;  // checks the type of the data only, as the built-in models do
  bool checkData(const std::shared_ptr<D>& d) override {
    if (lax) return d != nullptr && typeid(*d) == typeid(D);
    return d && d->Fu.cols() == (long)nu_ && d->xnext.size() == (long)state_->get_nx() && d->Gx.rows() == (long)std::max(ng_, ng_T_) &&
           d->Hx.rows() == (long)std::max(nh_, nh_T_) && d->Fx.rows() == (long)state_->get_ndx() && typeid(*d) == typeid(D);
  }
  void calc(const std::shared_ptr<D>& d, const CRef& x, const CRef& u) override {
    if (hook) hook->before(id, CALC);
    Vec z = zof(state_, x);
    state_->integrate(x, f.val(z, u), d->xnext);
    d->cost = l.val(z, u);
    d->r[0] = d->cost;
    put(d->g, g.val(z, u));
    put(d->h, h.val(z, u));
    if (hook) hook->after(id, CALC, d.get());
  }
  void calc(const std::shared_ptr<D>& d, const CRef& x) override {
    if (hook) hook->before(id, CALC_T);
    Vec z = zof(state_, x), u = Vec::Zero(nu_);
    d->xnext = x;
    d->cost = lT.val(z, u);
    d->r[0] = d->cost;
    put(d->g, gT.val(z, u));
    put(d->h, hT.val(z, u));
    if (hook) hook->after(id, CALC_T, d.get());
  }
  void calcDiff(const std::shared_ptr<D>& d, const CRef& x, const CRef& u) override {
    if (hook) hook->before(id, DIFF);
    Vec z = zof(state_, x);
    Mat J = Jof(state_, x);
    const long n = state_->get_ndx();
    Mat J1 = Mat::Zero(n, n), J2 = Mat::Zero(n, n);
    Vec dx = f.val(z, u);
    state_->Jintegrate(x, dx, J1, J2, cr::both, cr::setto);
    d->Fx = J1 + J2 * f.Jz(z, u) * J;
    d->Fu = J2 * f.Ju(z, u);
    d->Lx = J.transpose() * l.gz(z, u);
    d->Lu = l.gu(z, u);
    d->Lxx = J.transpose() * l.Hzz(z, u) * J;
    d->Lxu = J.transpose() * l.Hzu(z, u);
    d->Luu = l.Huu(z, u);
    putm(d->Gx, g.Jz(z, u) * J);
    putm(d->Gu, g.Ju(z, u));
    putm(d->Hx, h.Jz(z, u) * J);
    putm(d->Hu, h.Ju(z, u));
    if (hook) hook->after(id, DIFF, d.get());
  }
  void calcDiff(const std::shared_ptr<D>& d, const CRef& x) override {
    if (hook) hook->before(id, DIFF_T);
    Vec z = zof(state_, x), u = Vec::Zero(nu_);
    Mat J = Jof(state_, x);
    d->Fx.setZero();
    d->Lx = J.transpose() * lT.gz(z, u);
    d->Lxx = J.transpose() * lT.Hzz(z, u) * J;
    putm(d->Gx, gT.Jz(z, u) * J);
    putm(d->Hx, hT.Jz(z, u) * J);
    if (hook) hook->after(id, DIFF_T, d.get());
  }
  static void put(Vec& d, const Vec& v) {
    if (d.size() > v.size()) d.tail(d.size() - v.size()).setZero();
    d.head(v.size()) = v;
  }
  static void putm(Mat& d, const Mat& v) {
    if (d.rows() > v.rows()) d.bottomRows(d.rows() - v.rows()).setZero();
    d.topRows(v.rows()) = v;
  }
};

// Continuous dynamics a = f(z,u) (nv), cost l(z,u), constraints g, h.
class TDAct : public cr::DifferentialActionModelAbstractTpl<double> {
 public:
  typedef cr::DifferentialActionModelAbstractTpl<double> Base;
  typedef cr::DifferentialActionDataAbstractTpl<double> D;
  Fn f, g, h, gT, hT;
  Quad l, lT;
  struct Spec {
    long nu = 1, ng = 0, nh = 0, ng_T = 0, nh_T = 0;
    double e = 0.5;
    uint64_t seed = 1;
  };
  TDAct(StateP s, const Spec& p) : Base(s, p.nu, 1, p.ng, p.nh, p.ng_T, p.nh_T) {
    Gen gen(p.seed);
    const long n = s->get_ndx();
    f = Fn(gen, s->get_nv(), n, p.nu, 1., p.e);
    l = Quad(gen, n, p.nu, p.e);
    lT = Quad(gen, n, p.nu, p.e);
    g = Fn(gen, p.ng, n, p.nu, 1., p.e);
    h = Fn(gen, p.nh, n, p.nu, 1., p.e);
    gT = Fn(gen, p.ng_T, n, p.nu, 1., p.e);
    hT = Fn(gen, p.nh_T, n, p.nu, 1., p.e);
  }
  MC_NO_CAST(DifferentialActionModelBase)
  bool checkData(const std::shared_ptr<D>& d) override {
    return d && d->Fu.cols() == (long)nu_ && d->xout.size() == (long)state_->get_nv() && typeid(*d) == typeid(D);
  }
  void calc(const std::shared_ptr<D>& d, const CRef& x, const CRef& u) override {
    Vec z = zof(state_, x);
    d->xout = f.val(z, u);
    d->cost = l.val(z, u);
    d->r[0] = d->cost;
    TAct::put(d->g, g.val(z, u));
    TAct::put(d->h, h.val(z, u));
  }
  void calc(const std::shared_ptr<D>& d, const CRef& x) override {
    Vec z = zof(state_, x), u = Vec::Zero(nu_);
    d->xout.setZero();
    d->cost = lT.val(z, u);
    d->r[0] = d->cost;
    TAct::put(d->g, gT.val(z, u));
    TAct::put(d->h, hT.val(z, u));
  }
  void calcDiff(const std::shared_ptr<D>& d, const CRef& x, const CRef& u) override {
    Vec z = zof(state_, x);
    Mat J = Jof(state_, x);
    d->Fx = f.Jz(z, u) * J;
    d->Fu = f.Ju(z, u);
    d->Lx = J.transpose() * l.gz(z, u);
    d->Lu = l.gu(z, u);
    d->Lxx = J.transpose() * l.Hzz(z, u) * J;
    d->Lxu = J.transpose() * l.Hzu(z, u);
    d->Luu = l.Huu(z, u);
    TAct::putm(d->Gx, g.Jz(z, u) * J);
    TAct::putm(d->Gu, g.Ju(z, u));
    TAct::putm(d->Hx, h.Jz(z, u) * J);
    TAct::putm(d->Hu, h.Ju(z, u));
  }
  void calcDiff(const std::shared_ptr<D>& d, const CRef& x) override {
    Vec z = zof(state_, x), u = Vec::Zero(nu_);
    Mat J = Jof(state_, x);
    d->Lx = J.transpose() * lT.gz(z, u);
    d->Lxx = J.transpose() * lT.Hzz(z, u) * J;
    TAct::putm(d->Gx, gT.Jz(z, u) * J);
    TAct::putm(d->Hx, hT.Jz(z, u) * J);
  }
};

struct Quiet {  // the library warns on refused edits; keep the explorer's output readable
  struct NullBuf : std::streambuf {
    int overflow(int c) override { return c; }
    std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
  };
  NullBuf nb;
  std::streambuf *o, *e;
  Quiet() : o(std::cout.rdbuf(&nb)), e(std::cerr.rdbuf(&nb)) {}
  ~Quiet() {
    std::cout.rdbuf(o);
    std::cerr.rdbuf(e);
  }
};
#endif
