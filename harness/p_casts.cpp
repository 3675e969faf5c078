// C26: a model cast to another scalar type is the same model: kind, dimensions, limits, parameters, composition and,
// up to the precision of the narrower type, every evaluation.
#include "managed.hpp"
#include "args.hpp"
#include "crocoddyl/core/actions/diff-lqr.hpp"
#include "crocoddyl/core/actions/lqr.hpp"
#include "crocoddyl/core/actions/unicycle.hpp"
#include "crocoddyl/core/controls/poly-one.hpp"
#include "crocoddyl/core/controls/poly-two-rk.hpp"
#include "crocoddyl/core/controls/poly-zero.hpp"
#include "crocoddyl/core/integrator/euler.hpp"
#include "crocoddyl/core/integrator/rk.hpp"
#include "crocoddyl/core/numdiff/action.hpp"
#include "crocoddyl/core/numdiff/activation.hpp"
#include "crocoddyl/core/numdiff/actuation.hpp"
#include "crocoddyl/core/numdiff/constraint.hpp"
#include "crocoddyl/core/numdiff/control.hpp"
#include "crocoddyl/core/numdiff/cost.hpp"
#include "crocoddyl/core/numdiff/diff-action.hpp"
#include "crocoddyl/core/numdiff/residual.hpp"
#include "crocoddyl/core/numdiff/state.hpp"
#include "crocoddyl/core/optctrl/shooting.hpp"
using namespace crocoddyl;

template <class S>
using VecS = Eigen::Matrix<S, -1, 1>;
template <class S>
using MatS = Eigen::Matrix<S, -1, -1>;

// ---- castable user models (the leaves) -----------------------------------------------------------------------------
// f(x,u) = c + A x + B u + 1/2 sin(A x + B u)
template <class S>
struct CFn {
  VecS<S> c;
  MatS<S> A, B;
  CFn() {}
  CFn(Gen& g, long m, long nx, long nu, double scale = 1) {
    c = (scale * g.vec(m)).template cast<S>(), A = (scale * g.mat(m, nx)).template cast<S>(), B = (scale * g.mat(m, nu)).template cast<S>();
  }
  template <class N>
  CFn<N> cast() const {
    CFn<N> r;
    r.c = c.template cast<N>(), r.A = A.template cast<N>(), r.B = B.template cast<N>();
    return r;
  }
  VecS<S> s(const VecS<S>& x, const VecS<S>& u) const { return A * x + B * u; }
  VecS<S> val(const VecS<S>& x, const VecS<S>& u) const { return c + s(x, u) + S(0.5) * s(x, u).array().sin().matrix(); }
  VecS<S> k(const VecS<S>& x, const VecS<S>& u) const { return (S(1) + S(0.5) * s(x, u).array().cos()).matrix(); }
  MatS<S> Jx(const VecS<S>& x, const VecS<S>& u) const { return k(x, u).asDiagonal() * A; }
  MatS<S> Ju(const VecS<S>& x, const VecS<S>& u) const { return k(x, u).asDiagonal() * B; }
};
#define C_TYPES(BASE, DATA)                          \
  typedef BASE<S> Base;                              \
  typedef S Scalar;                                  \
  typedef std::shared_ptr<DATA<S>> D;                \
  typedef Eigen::Ref<const VecS<S>> R;               \
  typedef std::shared_ptr<StateAbstractTpl<S>> State; \
  CFn<S> f;

template <class S>
class CResidualTpl : public ResidualModelAbstractTpl<S> {
 public:
  C_TYPES(ResidualModelAbstractTpl, ResidualDataAbstractTpl)
  CROCODDYL_DERIVED_CAST(ResidualModelBase, CResidualTpl)
  CResidualTpl(State s, std::size_t nu, const CFn<S>& f) : Base(s, f.c.size(), nu, true, true, true), f(f) {}
  template <class N>
  CResidualTpl<N> cast() const {
    return CResidualTpl<N>(this->state_->template cast<N>(), this->nu_, f.template cast<N>());
  }
  void calc(const D& d, const R& x, const R& u) override { d->r = f.val(x, u); }
  void calc(const D& d, const R& x) override { d->r = f.val(x, VecS<S>::Zero(this->nu_)); }
  void calcDiff(const D& d, const R& x, const R& u) override { d->Rx = f.Jx(x, u), d->Ru = f.Ju(x, u); }
  void calcDiff(const D& d, const R& x) override { d->Rx = f.Jx(x, VecS<S>::Zero(this->nu_)); }
};
template <class S>
class CActuationTpl : public ActuationModelAbstractTpl<S> {
 public:
  C_TYPES(ActuationModelAbstractTpl, ActuationDataAbstractTpl)
  CROCODDYL_DERIVED_CAST(ActuationModelBase, CActuationTpl)
  CActuationTpl(State s, std::size_t nu, const CFn<S>& f) : Base(s, nu), f(f) {}
  template <class N>
  CActuationTpl<N> cast() const {
    return CActuationTpl<N>(this->state_->template cast<N>(), this->nu_, f.template cast<N>());
  }
  void calc(const D& d, const R& x, const R& u) override { d->tau = f.val(x, u); }
  void calcDiff(const D& d, const R& x, const R& u) override { d->dtau_dx = f.Jx(x, u), d->dtau_du = f.Ju(x, u); }
  void commands(const D& d, const R& x, const R& tau) override {
    d->u = f.B.colPivHouseholderQr().solve(VecS<S>(tau - f.c - f.A * x));
  }
};
// continuous action assembled from the library's parts
template <class S>
class CFreeTpl : public DifferentialActionModelAbstractTpl<S> {
 public:
  C_TYPES(DifferentialActionModelAbstractTpl, DifferentialActionDataAbstractTpl)
  CROCODDYL_DERIVED_CAST(DifferentialActionModelBase, CFreeTpl)
  std::shared_ptr<ActuationModelAbstractTpl<S>> actuation;
  std::shared_ptr<CostModelSumTpl<S>> costs;
  std::shared_ptr<ConstraintModelManagerTpl<S>> cons;
  struct Data : DifferentialActionDataAbstractTpl<S> {
    DataCollectorJointTpl<S> col;
    std::shared_ptr<ActuationDataAbstractTpl<S>> act;
    std::shared_ptr<CostDataSumTpl<S>> costs;
    std::shared_ptr<ConstraintDataManagerTpl<S>> cons;
    Data(CFreeTpl* m)
        : DifferentialActionDataAbstractTpl<S>(m), col(std::make_shared<JointDataAbstractTpl<S>>(m->get_state(), m->actuation, m->get_nu())), act(m->actuation->createData()), costs(m->costs->createData(&col)), cons(m->cons->createData(&col)) {
      costs->shareMemory(this), cons->shareMemory(this);
      col.joint->dtau_du.setIdentity();
    }
  };
  CFreeTpl(State s, std::shared_ptr<ActuationModelAbstractTpl<S>> a, std::shared_ptr<CostModelSumTpl<S>> c, std::shared_ptr<ConstraintModelManagerTpl<S>> k, const CFn<S>& f)
      : Base(s, a->get_nu(), c->get_nr(), k->get_ng(), k->get_nh(), k->get_ng_T(), k->get_nh_T()), f(f), actuation(a), costs(c), cons(k) {}
  template <class N>
  CFreeTpl<N> cast() const {
    CFreeTpl<N> r(this->state_->template cast<N>(), actuation->template cast<N>(), std::make_shared<CostModelSumTpl<N>>(costs->template cast<N>()), std::make_shared<ConstraintModelManagerTpl<N>>(cons->template cast<N>()),
                  f.template cast<N>());
    r.set_u_lb(this->u_lb_.template cast<N>()), r.set_u_ub(this->u_ub_.template cast<N>());
    return r;
  }
  D createData() override { return std::make_shared<Data>(this); }
  bool checkData(const D& d) override { return std::dynamic_pointer_cast<Data>(d) != nullptr; }
  static void residual(Data& d, const R& x) {
    for (long i = 0; i < d.r.size(); ++i) d.r[i] = x[i % x.size()];
  }
  void calc(const D& data, const R& x, const R& u) override {
    Data* d = static_cast<Data*>(data.get());
    actuation->calc(d->act, x, u);
    d->xout = f.val(x, d->act->tau);
    d->col.joint->a = d->xout, d->col.joint->tau = u;
    costs->calc(d->costs, x, u), d->cost = d->costs->cost, residual(*d, x);
    d->cons->resize(this, d), cons->calc(d->cons, x, u);
  }
  void calc(const D& data, const R& x) override {
    Data* d = static_cast<Data*>(data.get());
    d->xout.setZero(), d->col.joint->tau.setZero();
    costs->calc(d->costs, x), d->cost = d->costs->cost, residual(*d, x);
    d->cons->resize(this, d, false), cons->calc(d->cons, x);
  }
  void calcDiff(const D& data, const R& x, const R& u) override {
    Data* d = static_cast<Data*>(data.get());
    actuation->calcDiff(d->act, x, u);
    const VecS<S> t = d->act->tau;
    d->Fx = f.Jx(x, t) + f.Ju(x, t) * d->act->dtau_dx, d->Fu = f.Ju(x, t) * d->act->dtau_du;
    d->col.joint->da_dx = d->Fx, d->col.joint->da_du = d->Fu;
    costs->calcDiff(d->costs, x, u), cons->calcDiff(d->cons, x, u);
  }
  void calcDiff(const D& data, const R& x) override {
    Data* d = static_cast<Data*>(data.get());
    costs->calcDiff(d->costs, x), cons->calcDiff(d->cons, x);
  }
  std::size_t get_ng() const override { return cons->get_ng(); }
  std::size_t get_nh() const override { return cons->get_nh(); }
  std::size_t get_ng_T() const override { return cons->get_ng_T(); }
  std::size_t get_nh_T() const override { return cons->get_nh_T(); }
  const VecS<S>& get_g_lb() const override { return cons->get_lb(); }
  const VecS<S>& get_g_ub() const override { return cons->get_ub(); }
};
// discrete action that leaves the terminal evaluation to its base
template <class S>
class CActTpl : public ActionModelAbstractTpl<S> {
 public:
  C_TYPES(ActionModelAbstractTpl, ActionDataAbstractTpl)
  CROCODDYL_DERIVED_CAST(ActionModelBase, CActTpl)
  CActTpl(State s, std::size_t nu, const CFn<S>& f) : Base(s, nu, f.c.size()), f(f) {}
  template <class N>
  CActTpl<N> cast() const {
    CActTpl<N> r(this->state_->template cast<N>(), this->nu_, f.template cast<N>());
    r.set_u_lb(this->u_lb_.template cast<N>()), r.set_u_ub(this->u_ub_.template cast<N>());
    return r;
  }
  bool checkData(const D& d) override { return d && d->Fu.cols() == (long)this->nu_; }
  using Base::calc;
  using Base::calcDiff;
  void calc(const D& d, const R& x, const R& u) override {
    if (u.size() != (long)this->nu_) throw std::runtime_error("u has wrong dimension");
    d->xnext = f.val(x, u), d->r = d->xnext, d->cost = S(0.5) * d->r.squaredNorm();
  }
  void calcDiff(const D& d, const R& x, const R& u) override {
    d->Fx = f.Jx(x, u), d->Fu = f.Ju(x, u), d->Lx = d->Fx.transpose() * d->r, d->Lu = d->Fu.transpose() * d->r;
    d->Lxx = d->Fx.transpose() * d->Fx, d->Lxu = d->Fx.transpose() * d->Fu, d->Luu = d->Fu.transpose() * d->Fu;
  }
};

// ---- looking at a model of any scalar type ---------------------------------------------------------------------------
static std::string kind_of(const char* n) {
  std::string s(n);
  for (size_t i; (i = s.find("IfE")) != std::string::npos;) s[i + 1] = 'd';
  return s;
}
// what an observation may be off by in single precision; names that begin with '~' come from finite differences
struct Look : Snap {
  long salt = 0;
  template <class M>
  void limits(const std::string& n, const Eigen::MatrixBase<M>& m) {
    Mat v = m.template cast<double>();
    for (long i = 0; i < v.size(); ++i)
      if (std::fabs(v.data()[i]) > 1e38) v.data()[i] = v.data()[i] > 0 ? INF : -INF;  // the largest value stands for none
    (*this)(n, v);
  }
  template <class S>
  VecS<S> in(long n, int i) const { return Gen(1 + 10 * salt + i).vec(n).template cast<S>(); }
};
static std::string differs(const Look& a, const Look& b, double tol, double loose) {
  if (a.v.size() != b.v.size()) return mc::strf("%zu observations instead of %zu", a.v.size(), b.v.size());
  // with numerical differentiation anywhere in a model, whatever derives from it is looser
  bool nd = false;
  for (auto& i : a.v) nd = nd || i.first[0] == '~';
  const double t = nd ? loose : tol;
  for (size_t i = 0; i < a.v.size(); ++i) {
    if (a.v[i].first != b.v[i].first || !(t ? close(a.v[i].second, b.v[i].second, t) : same(a.v[i].second, b.v[i].second)))
      return a.v[i].first + " is " + show(a.v[i].second) + " instead of " + show(b.v[i].second);
  }
  return "";
}
template <template <class> class T, class S, class B>
const T<S>* as(const B& b) { return dynamic_cast<const T<S>*>(&b); }

template <class S>
void look(StateAbstractTpl<S>& m, Look& o) {
  const bool nd = as<StateNumDiffTpl, S>(m);
  const std::string e = nd ? "~" : "";
  const long nx = m.get_nx(), n = m.get_ndx();
  o("kind", kind_of(typeid(m).name())), o("dimensions", Eigen::Vector4d(nx, n, m.get_nq(), m.get_nv())), o.limits("lb", m.get_lb()), o.limits("ub", m.get_ub()), o("has_limits", m.get_has_limits()), o("zero", m.zero());
  const VecS<S> a = o.in<S>(nx, 1), b = o.in<S>(nx, 2), d = o.in<S>(n, 3);
  VecS<S> y = VecS<S>::Zero(n), z = VecS<S>::Zero(nx);
  MatS<S> A = MatS<S>::Zero(n, n), C = A;
  m.diff(a, b, y), m.integrate(a, d, z), o("diff", y), o("integrate", z);
  m.Jdiff(a, b, A, C, crocoddyl::both), o(e + "J1", A), o(e + "J2", C);
  m.Jintegrate(a, d, A, C, crocoddyl::both, setto), o(e + "J1", A), o(e + "J2", C);
}
template <class S>
void look(ActivationModelAbstractTpl<S>& m, Look& o) {
  const std::string e = as<ActivationModelNumDiffTpl, S>(m) ? "~" : "";
  o("kind", kind_of(typeid(m).name())), o("nr", (double)m.get_nr());
  auto bounds = [&](const ActivationBoundsTpl<S>& b) { o.limits("lb", b.lb), o.limits("ub", b.ub), o("beta", b.beta); };
  if (auto p = as<ActivationModelWeightedQuadTpl, S>(m)) o("weights", p->get_weights());
  if (auto p = as<ActivationModelQuadraticBarrierTpl, S>(m)) bounds(p->get_bounds());
  if (auto p = as<ActivationModelWeightedQuadraticBarrierTpl, S>(m)) bounds(p->get_bounds()), o("weights", p->get_weights());
  if (auto p = as<ActivationModelQuadFlatExpTpl, S>(m)) o("alpha", p->get_alpha());
  if (auto p = as<ActivationModelQuadFlatLogTpl, S>(m)) o("alpha", p->get_alpha());
  if (auto p = as<ActivationModel2NormBarrierTpl, S>(m)) o("alpha", p->get_alpha());
  auto d = m.createData();
  const VecS<S> r = o.in<S>(m.get_nr(), 1);
  m.calc(d, r), m.calcDiff(d, r);
  o("a", d->a_value), o(e + "Ar", d->Ar);
  // second differences across a kink depend on the disturbance, which follows the precision
  bool kinked = false;
  if (auto p = as<ActivationModelNumDiffTpl, S>(m)) {
    const auto& i = *p->get_model();
    kinked = as<ActivationModelQuadraticBarrierTpl, S>(i) || as<ActivationModelWeightedQuadraticBarrierTpl, S>(i) || as<ActivationModel2NormBarrierTpl, S>(i);
  }
  if (!kinked) o(e + "Arr", VecS<S>(MatS<S>(d->Arr).diagonal()));
  if (auto p = as<ActivationModelNumDiffTpl, S>(m)) look<S>(*p->get_model(), o);
}
template <class S>
void look(SquashingModelAbstractTpl<S>& m, Look& o) {
  o("kind", kind_of(typeid(m).name())), o("ns", (double)m.get_ns()), o("s_lb", m.get_s_lb()), o("s_ub", m.get_s_ub());
  if (auto p = as<SquashingModelSmoothSatTpl, S>(m)) o("smooth", p->get_smooth()), o("d", p->get_d());
  auto d = m.createData();
  const VecS<S> s = VecS<S>(S(3) * o.in<S>(m.get_ns(), 1));
  m.calc(d, s), m.calcDiff(d, s), o("u", d->u), o("du_ds", d->du_ds);
}
template <class S>
void look(ActuationModelAbstractTpl<S>& m, Look& o) {
  const std::string e = as<ActuationModelNumDiffTpl, S>(m) ? "~" : "";
  o("kind", kind_of(typeid(m).name())), o("nu", (double)m.get_nu());
  if (auto p = as<ActuationSquashingModelTpl, S>(m)) look<S>(*p->get_squashing(), o), look<S>(*p->get_actuation(), o);
  if (auto p = as<ActuationModelNumDiffTpl, S>(m)) look<S>(*p->get_model(), o);
  auto d = m.createData();
  const VecS<S> x = o.in<S>(m.get_state()->get_nx(), 1), u = o.in<S>(m.get_nu(), 2);
  m.calc(d, x, u), m.calcDiff(d, x, u);
  o("tau", d->tau), o(e + "dtau_dx", d->dtau_dx), o(e + "dtau_du", d->dtau_du);
  look<S>(*m.get_state(), o);
}
template <class S>
void look(ControlParametrizationModelAbstractTpl<S>& m, Look& o) {
  const std::string e = as<ControlParametrizationModelNumDiffTpl, S>(m) ? "~" : "";
  o("kind", kind_of(typeid(m).name())), o("n", Eigen::Vector2d(m.get_nw(), m.get_nu()));
  auto d = m.createData();
  const VecS<S> u = o.in<S>(m.get_nu(), 1);
  for (double t : {0., 0.3, 0.75}) {
    m.calc(d, S(t), u), m.calcDiff(d, S(t), u), o("w", d->w), o(e + "dw_du", d->dw_du);
    m.params(d, S(t), o.in<S>(m.get_nw(), 2)), o("u", d->u);
  }
  VecS<S> lb(m.get_nu()), ub(m.get_nu());
  m.convertBounds(VecS<S>::Constant(m.get_nw(), -1), VecS<S>::Constant(m.get_nw(), S(0.5)), lb, ub), o("u_lb", lb), o("u_ub", ub);
  if (auto p = as<ControlParametrizationModelNumDiffTpl, S>(m)) look<S>(*p->get_model(), o);
}
template <class S>
struct Shared {  // what residuals read besides the state and the control
  std::shared_ptr<JointDataAbstractTpl<S>> joint;
  DataCollectorJointTpl<S> col;
  Shared(const std::shared_ptr<StateAbstractTpl<S>>& s, std::size_t nu, Look& o)
      : joint(std::make_shared<JointDataAbstractTpl<S>>(s, std::make_shared<CActuationTpl<S>>(s, nu, CFn<S>()), nu)), col(joint) {
    joint->tau = o.in<S>(joint->tau.size(), 5), joint->a = o.in<S>(joint->a.size(), 6);
    joint->da_dx.setConstant(S(0.3)), joint->da_du.setConstant(S(-0.2)), joint->dtau_dx.setConstant(S(0.7)), joint->dtau_du.setConstant(S(0.4));
  }
};
template <class S>
void look(ResidualModelAbstractTpl<S>& m, Look& o) {
  const std::string e = as<ResidualModelNumDiffTpl, S>(m) ? "~" : "";
  o("kind", kind_of(typeid(m).name())), o("n", (Vec(5) << (double)m.get_nr(), (double)m.get_nu(), m.get_q_dependent(), m.get_v_dependent(), m.get_u_dependent()).finished());
  if (auto p = as<ResidualModelControlTpl, S>(m)) o("reference", p->get_reference());
  if (auto p = as<ResidualModelJointAccelerationTpl, S>(m)) o("reference", p->get_reference());
  if (auto p = as<ResidualModelJointEffortTpl, S>(m)) o("reference", p->get_reference());
  if (auto p = as<ResidualModelNumDiffTpl, S>(m)) look<S>(*p->get_model(), o);
  Shared<S> sh(m.get_state(), m.get_nu(), o);
  const VecS<S> x = o.in<S>(m.get_state()->get_nx(), 1), u = o.in<S>(m.get_nu(), 2);
  for (int T = 0; T < 2; ++T) {
    auto d = m.createData(&sh.col);
    T ? m.calc(d, x) : m.calc(d, x, u);
    T ? m.calcDiff(d, x) : m.calcDiff(d, x, u);
    o("r", d->r), o(e + "Rx", d->Rx), o(e + "Ru", d->Ru);
  }
  look<S>(*m.get_state(), o);
}
template <class S>
void look(CostModelAbstractTpl<S>& m, Look& o) {
  const std::string e = as<CostModelNumDiffTpl, S>(m) ? "~" : "";
  o("kind", kind_of(typeid(m).name())), o("nu", (double)m.get_nu());
  if (auto p = as<CostModelNumDiffTpl, S>(m)) look<S>(*p->get_model(), o);
  else look<S>(*m.get_activation(), o), look<S>(*m.get_residual(), o);
  Shared<S> sh(m.get_state(), m.get_nu(), o);
  const VecS<S> x = o.in<S>(m.get_state()->get_nx(), 1), u = o.in<S>(m.get_nu(), 2);
  for (int T = 0; T < 2; ++T) {
    auto d = m.createData(&sh.col);
    T ? m.calc(d, x) : m.calc(d, x, u);
    T ? m.calcDiff(d, x) : m.calcDiff(d, x, u);
    o("cost", d->cost), o(e + "Lx", d->Lx), o(e + "Lu", d->Lu), o(e + "Lxx", d->Lxx), o(e + "Lxu", d->Lxu), o(e + "Luu", d->Luu);
  }
}
template <class S>
void look(ConstraintModelAbstractTpl<S>& m, Look& o) {
  const std::string e = as<ConstraintModelNumDiffTpl, S>(m) ? "~" : "";
  o("kind", kind_of(typeid(m).name())), o("n", (Vec(5) << (double)m.get_nu(), (double)m.get_ng(), (double)m.get_nh(), (double)m.get_type(), m.get_T_constraint()).finished());
  o("lb", m.get_lb()), o("ub", m.get_ub());
  if (auto p = as<ConstraintModelNumDiffTpl, S>(m)) look<S>(*p->get_model(), o);
  else look<S>(*m.get_residual(), o);
  Shared<S> sh(m.get_state(), m.get_nu(), o);
  const VecS<S> x = o.in<S>(m.get_state()->get_nx(), 1), u = o.in<S>(m.get_nu(), 2);
  for (int T = 0; T < 2; ++T) {
    auto d = m.createData(&sh.col);
    T ? m.calc(d, x) : m.calc(d, x, u);
    T ? m.calcDiff(d, x) : m.calcDiff(d, x, u);
    o("g", d->g), o("h", d->h), o(e + "Gx", d->Gx), o(e + "Gu", d->Gu), o(e + "Hx", d->Hx), o(e + "Hu", d->Hu);
  }
}
template <class S>
void look(CostModelSumTpl<S>& m, Look& o) {
  o("n", Eigen::Vector4d(m.get_nu(), m.get_nr(), m.get_nr_total(), m.get_costs().size()));
  for (auto& i : m.get_costs()) o("item " + i.first, Eigen::Vector2d(i.second->weight, i.second->active)), look<S>(*i.second->cost, o);
  for (auto& n : m.get_active_set()) o("active " + n, 1);
  for (auto& n : m.get_inactive_set()) o("inactive " + n, 1);
  Shared<S> sh(m.get_state(), m.get_nu(), o);
  auto d = m.createData(&sh.col);
  const VecS<S> x = o.in<S>(m.get_state()->get_nx(), 1), u = o.in<S>(m.get_nu(), 2);
  for (int T = 0; T < 2; ++T) {
    T ? m.calc(d, x) : m.calc(d, x, u);
    T ? m.calcDiff(d, x) : m.calcDiff(d, x, u);
    o("cost", d->cost), o("Lx", d->Lx), o("Lu", d->Lu), o("Lxx", d->Lxx), o("Lxu", d->Lxu), o("Luu", d->Luu);
  }
}
template <class S>
void look(ConstraintModelManagerTpl<S>& m, Look& o) {
  o("n", (Vec(6) << (double)m.get_nu(), (double)m.get_ng(), (double)m.get_nh(), (double)m.get_ng_T(), (double)m.get_nh_T(), (double)m.get_constraints().size()).finished());
  for (auto& i : m.get_constraints()) o("item " + i.first, i.second->active), look<S>(*i.second->constraint, o);
  for (auto& n : m.get_active_set()) o("active " + n, 1);
  for (auto& n : m.get_inactive_set()) o("inactive " + n, 1);
  Shared<S> sh(m.get_state(), m.get_nu(), o);
  auto d = m.createData(&sh.col);
  const VecS<S> x = o.in<S>(m.get_state()->get_nx(), 1), u = o.in<S>(m.get_nu(), 2);
  for (int T = 0; T < 2; ++T) {
    d->resize(&m, T == 0);
    T ? m.calc(d, x) : m.calc(d, x, u);
    T ? m.calcDiff(d, x) : m.calcDiff(d, x, u);
    // the bounds are laid out as the evaluated constraints
    o("lb", m.get_lb().head(d->g.size())), o("ub", m.get_ub().head(d->g.size()));
    o("g", d->g), o("h", d->h), o("Gx", d->Gx), o("Hx", d->Hx);
    if (!T) o("Gu", d->Gu), o("Hu", d->Hu);
  }
}
static const VecS<double>& next_of(const ActionDataAbstractTpl<double>& d) { return d.xnext; }
static const VecS<float>& next_of(const ActionDataAbstractTpl<float>& d) { return d.xnext; }
static const VecS<double>& next_of(const DifferentialActionDataAbstractTpl<double>& d) { return d.xout; }
static const VecS<float>& next_of(const DifferentialActionDataAbstractTpl<float>& d) { return d.xout; }
template <class D>
void results(const D& d, Look& o, const std::string& e, bool running) {
  o("next", next_of(d)), o("cost", d.cost), o("r", d.r), o("g", d.g), o("h", d.h), o(e + "Lx", d.Lx), o(e + "Lxx", d.Lxx), o(e + "Gx", d.Gx), o(e + "Hx", d.Hx);
  if (running) o(e + "Fx", d.Fx), o(e + "Fu", d.Fu), o(e + "Lu", d.Lu), o(e + "Lxu", d.Lxu), o(e + "Luu", d.Luu), o(e + "Gu", d.Gu), o(e + "Hu", d.Hu);
}
template <class S, class M>
void look_action(M& m, Look& o, const std::string& e) {
  o("kind", kind_of(typeid(m).name())), o("n", (Vec(6) << (double)m.get_nu(), (double)m.get_nr(), (double)m.get_ng(), (double)m.get_nh(), (double)m.get_ng_T(), (double)m.get_nh_T()).finished());
  o.limits("u_lb", m.get_u_lb()), o.limits("u_ub", m.get_u_ub()), o("limited", m.get_has_control_limits());
  const VecS<S> x = o.in<S>(m.get_state()->get_nx(), 1), u = o.in<S>(m.get_nu(), 2);
  for (int T = 0; T < 2; ++T) {
    auto d = m.createData();
    T ? m.calc(d, x) : m.calc(d, x, u);
    T ? m.calcDiff(d, x) : m.calcDiff(d, x, u);
    results(*d, o, e, !T);
    o.limits("g_lb", m.get_g_lb().head(T ? m.get_ng_T() : m.get_ng())), o.limits("g_ub", m.get_g_ub().head(T ? m.get_ng_T() : m.get_ng()));
  }
  look<S>(*m.get_state(), o);
}
template <class S>
void look(DifferentialActionModelAbstractTpl<S>& m, Look& o) {
  const bool nd = as<DifferentialActionModelNumDiffTpl, S>(m);
  look_action<S>(m, o, nd ? "~" : "");
  if (auto p = as<DifferentialActionModelNumDiffTpl, S>(m)) o("gauss", const_cast<DifferentialActionModelNumDiffTpl<S>*>(p)->get_with_gauss_approx()), look<S>(*p->get_model(), o);
  if (auto p = as<DifferentialActionModelLQRTpl, S>(m)) o("Aq", p->get_Aq()), o("Av", p->get_Av()), o("B", p->get_B()), o("f", p->get_f()), o("Q", p->get_Q()), o("R", p->get_R()), o("N", p->get_N()), o("G", p->get_G()), o("H", p->get_H()), o("q", p->get_q()), o("r", p->get_r()), o("g", p->get_g()), o("h", p->get_h());
  if (auto p = as<CFreeTpl, S>(m)) look<S>(*p->actuation, o), look<S>(*p->costs, o), look<S>(*p->cons, o);
}
template <class S>
void look(ActionModelAbstractTpl<S>& m, Look& o) {
  const bool nd = as<ActionModelNumDiffTpl, S>(m);
  bool inner = false;
  if (auto p = as<IntegratedActionModelAbstractTpl, S>(m)) inner = as<DifferentialActionModelNumDiffTpl, S>(*p->get_differential());
  look_action<S>(m, o, nd || inner ? "~" : "");
  if (auto p = as<ActionModelNumDiffTpl, S>(m)) o("gauss", const_cast<ActionModelNumDiffTpl<S>*>(p)->get_with_gauss_approx()), look<S>(*p->get_model(), o);
  if (auto p = as<ActionModelLQRTpl, S>(m)) o("A", p->get_A()), o("B", p->get_B()), o("f", p->get_f()), o("Q", p->get_Q()), o("R", p->get_R()), o("N", p->get_N()), o("G", p->get_G()), o("H", p->get_H()), o("q", p->get_q()), o("r", p->get_r()), o("g", p->get_g()), o("h", p->get_h());
  if (auto p = as<ActionModelUnicycleTpl, S>(m)) o("dt", p->get_dt()), o("cost weights", p->get_cost_weights());
  if (auto p = as<IntegratedActionModelAbstractTpl, S>(m)) o("dt", p->get_dt()), look<S>(*p->get_differential(), o), look<S>(*p->get_control(), o);
  if (auto p = as<IntegratedActionModelRKTpl, S>(m)) o("ni", (double)p->get_ni());
}
template <class S>
void look(ShootingProblemTpl<S>& p, Look& o) {
  o("x0", p.get_x0()), o("n", (Vec(4) << (double)p.get_T(), (double)p.get_nx(), (double)p.get_ndx(), (double)p.get_nthreads()).finished());
  for (auto& m : p.get_runningModels()) look<S>(*m, o);
  look<S>(*p.get_terminalModel(), o);
  std::vector<VecS<S>> xs, us;
  for (size_t t = 0; t <= p.get_T(); ++t) xs.push_back(o.in<S>(p.get_nx(), (int)t));
  for (size_t t = 0; t < p.get_T(); ++t) us.push_back(o.in<S>(p.get_runningModels()[t]->get_nu(), 5 + (int)t));
  o("cost", p.calc(xs, us)), o("cost", p.calcDiff(xs, us));
  for (auto& x : p.rollout_us(us)) o("rollout", x);
}

// ---- chains of casts -------------------------------------------------------------------------------------------------
// models held by base pointers and models cast by value
template <class N, template <class> class B, class S>
std::shared_ptr<B<N>> to(const std::shared_ptr<B<S>>& m, std::true_type) { return m->template cast<N>(); }
template <class N, template <class> class B, class S>
std::shared_ptr<B<N>> to(const std::shared_ptr<B<S>>& m, std::false_type) { return std::make_shared<B<N>>(m->template cast<N>()); }

template <template <class> class B>
struct Edit {
  std::string name;
  std::function<void(B<double>&)> d;
  std::function<void(B<float>&)> f;
  bool after;
};
template <template <class> class B>
struct Edits : std::vector<Edit<B>> {
  // an edit of the double model and, through a generic functor, of the float one
  template <class F>
  void add(const std::string& n, F f, bool after = true) { this->push_back({n, [f](B<double>& m) { f(m); }, [f](B<float>& m) { f(m); }, after}); }
};
template <template <class> class B, bool pointer>
void chain(mc::Ctx& c, const std::string& subject, const std::function<std::shared_ptr<B<double>>()>& make, const Edits<B>& edits) {
  typedef std::integral_constant<bool, pointer> P;
  auto m = make();
  const int depth = c.thorough ? 3 : 2;
  for (int i = 0; i < depth && edits.size(); ++i) {
    const int e = c.choose((int)edits.size() + 1, "edit before");
    if (!e) break;
    c.op("%s", edits[e - 1].name.c_str());
    edits[e - 1].d(*m);
  }
  const long salt = c.choose(c.thorough ? 4 : 2, "inputs");
  auto see = [&](auto& x) {
    Look o;
    o.salt = salt;
    look(x, o);
    return o;
  };
  const double TOL = 2e-4, LOOSE = 0.05;
  const Look a = see(*m);
  // to the same type
  {
    c.op("to double");
    auto w = to<double, B>(m, P());
    CHECK(c, w && (void*)w.get() != (void*)m.get(), subject + ":copy", "%s: no new object", subject.c_str());
    const std::string d = differs(see(*w), a, 0, 0);
    CHECK(c, d.empty(), subject + ":copy", "%s cast to double: %s", subject.c_str(), d.c_str());
  }
  c.op("to float");
  auto f = to<float, B>(m, P());
  CHECK(c, f, subject + ":float", "%s: no new object", subject.c_str());
  const Look b = see(*f);
  std::string d = differs(b, a, TOL, LOOSE);
  CHECK(c, d.empty(), subject + ":float", "%s cast to float: %s", subject.c_str(), d.c_str());
  {
    c.op("float to float");
    auto g = to<float, B>(f, P());
    const std::string d = differs(see(*g), b, 0, 0);
    CHECK(c, d.empty(), subject + ":copy", "%s cast to float twice: %s", subject.c_str(), d.c_str());
  }
  c.op("back to double");
  auto back = to<double, B>(f, P());
  const Look e = see(*back);
  d = differs(e, b, TOL, LOOSE);
  CHECK(c, d.empty(), subject + ":back", "%s cast to float and back: %s", subject.c_str(), d.c_str());
  // the float values are doubles: from there on nothing is lost
  {
    auto again = to<float, B>(back, P());
    const std::string d = differs(see(*again), b, 0, 0);
    CHECK(c, d.empty(), subject + ":again", "%s cast to float, back and to float: %s", subject.c_str(), d.c_str());
  }
  // models of different types are independent, and answer the same edits alike
  if (edits.size()) {
    const int i = c.choose((int)edits.size() + 1, "edit after");
    if (i && edits[i - 1].after) {
      c.op("%s of the original", edits[i - 1].name.c_str());
      const std::string x = thrown([&] { edits[i - 1].d(*m); });
      d = differs(see(*f), b, 0, 0);
      CHECK(c, d.empty(), subject + ":independent", "%s: %s of the original changes its float version: %s", subject.c_str(), edits[i - 1].name.c_str(), d.c_str());
      c.op("%s of the float version", edits[i - 1].name.c_str());
      const std::string y = thrown([&] { edits[i - 1].f(*f); });
      CHECK(c, x.empty() == y.empty(), subject + ":edit", "%s: %s of the original: %s; of the float version: %s", subject.c_str(), edits[i - 1].name.c_str(), x.c_str(), y.c_str());
      const Look a2 = see(*m), b2 = see(*f);
      d = differs(b2, a2, TOL, LOOSE);
      CHECK(c, d.empty(), subject + ":edit", "%s after %s: %s", subject.c_str(), edits[i - 1].name.c_str(), d.c_str());
      d = differs(see(*back), e, 0, 0);
      CHECK(c, d.empty(), subject + ":independent", "%s: edits of the float version change the one cast from it: %s", subject.c_str(), d.c_str());
    }
  }
  c.state(mc::hash_bytes(a.hash(), &salt, sizeof salt));
}

template <class M>
using ScalarOf = typename M::Scalar;
template <class M>
VecS<ScalarOf<M>> value(const M&, const Vec& v) { return v.template cast<ScalarOf<M>>(); }
static Vec rv(long n, int i) { return Gen(60 + i).vec(n); }
static Vec pos(long n, int i) { return Vec(rv(n, i).array().abs() + 0.2); }
static Vec some(Vec v, long i, double x) {
  if (v.size() > i) v[i] = x;
  return v;
}
template <class S>
std::shared_ptr<StateAbstractTpl<S>> vec_state(long n) { return std::make_shared<StateVectorTpl<S>>(n); }

template <class E, class F>
void limit_edits(E& e, long n, F dim_of) {
  for (int k = 0; k < 3; ++k) {
    const Vec lo = k == 0 ? Vec(-pos(n, 1)) : k == 1 ? some(Vec(-pos(n, 2)), 0, -INF) : Vec(Vec::Constant(n, -INF));
    const Vec up = k == 0 ? Vec(pos(n, 3)) : k == 1 ? some(pos(n, 4), n - 1, INF) : Vec(Vec::Constant(n, INF));
    (void)dim_of;
    e.add(mc::strf("set_lb %d", k), [lo](auto& m) { m.set_lb(value(m, lo)); });
    e.add(mc::strf("set_ub %d", k), [up](auto& m) { m.set_ub(value(m, up)); });
  }
}
static void states(mc::Ctx& c) {
  const int kind = c.choose(2, "state");
  const long n = 1 + c.choose(4, "nx");
  Edits<StateAbstractTpl> e;
  limit_edits(e, n, 0);
  chain<StateAbstractTpl, true>(c, kind ? "StateNumDiff" : "StateVector", [&]() -> std::shared_ptr<StateAbstract> {
    auto s = std::make_shared<StateVector>(n);
    if (!kind) return s;
    s->set_lb(some(Vec(-pos(n, 7)), 0, -INF));
    return std::make_shared<StateNumDiff>(s);
  }, e);
}
static void activations(mc::Ctx& c) {
  const int kind = c.choose(2 * ACTIVATIONS + 1, "activation");
  const long n = 1 + c.choose(3, "nr");
  Edits<ActivationModelAbstractTpl> e;
  const int k = kind % ACTIVATIONS;
  const bool nd = kind >= ACTIVATIONS;
  if (!nd) {
    if (k == 1) e.add("set_weights", [n](auto& m) { dynamic_cast<ActivationModelWeightedQuadTpl<ScalarOf<std::decay_t<decltype(m)>>>&>(m).set_weights(value(m, pos(n, 1))); });
    if (k == 8) e.add("set_weights", [n](auto& m) { dynamic_cast<ActivationModelWeightedQuadraticBarrierTpl<ScalarOf<std::decay_t<decltype(m)>>>&>(m).set_weights(value(m, pos(n, 1))); });
    if (k == 4) e.add("set_alpha", [](auto& m) { dynamic_cast<ActivationModelQuadFlatLogTpl<ScalarOf<std::decay_t<decltype(m)>>>&>(m).set_alpha(0.37); });
    if (k == 5) e.add("set_alpha", [](auto& m) { dynamic_cast<ActivationModelQuadFlatExpTpl<ScalarOf<std::decay_t<decltype(m)>>>&>(m).set_alpha(0.37); });
    if (k == 7) e.add("set_alpha", [](auto& m) { dynamic_cast<ActivationModel2NormBarrierTpl<ScalarOf<std::decay_t<decltype(m)>>>&>(m).set_alpha(1.6); });
    if (k == 3 || k == 8)
      for (double beta : {1., 0.5, 0.})
        for (int w = 0; w < 3; ++w)
          e.add(mc::strf("set_bounds %d, beta %g", w, beta), [=](auto& m) {
            typedef ScalarOf<std::decay_t<decltype(m)>> S;
            const Vec lo = w == 2 ? Vec(Vec::Constant(n, -INF)) : w ? some(Vec(-0.3 * pos(n, 2)), 0, -INF) : Vec(-0.3 * pos(n, 2)), up = w ? some(Vec(0.2 * pos(n, 3)), n - 1, INF) : Vec(0.2 * pos(n, 3));
            const ActivationBoundsTpl<S> b(lo.template cast<S>(), up.template cast<S>(), S(beta));
            if (k == 3) dynamic_cast<ActivationModelQuadraticBarrierTpl<S>&>(m).set_bounds(b);
            else dynamic_cast<ActivationModelWeightedQuadraticBarrierTpl<S>&>(m).set_bounds(b);
          });
  }
  chain<ActivationModelAbstractTpl, true>(c, mc::strf("activation %d", kind), [&]() -> std::shared_ptr<ActivationModelAbstract> {
    if (kind == 2 * ACTIVATIONS) return std::make_shared<ActivationModel2NormBarrier>(n, 0.9, false);
    auto a = every_activation(k, n);
    if (!nd) return a;
    return std::make_shared<ActivationModelNumDiff>(a);
  }, e);
}
static void actuations(mc::Ctx& c) {
  const int kind = c.choose(4, "actuation");  // squashing alone is looked at through the squashed actuation
  Edits<ActuationModelAbstractTpl> e;
  auto squash = [](auto& m) -> auto& {
    typedef ScalarOf<std::decay_t<decltype(m)>> S;
    return dynamic_cast<SquashingModelSmoothSatTpl<S>&>(*dynamic_cast<ActuationSquashingModelTpl<S>&>(m).get_squashing());
  };
  if (kind == 1) {
    for (double s : {0.01, 0.7}) e.add(mc::strf("set_smooth(%g)", s), [=](auto& m) { squash(m).set_smooth(s); });
    e.add("set_s_lb", [=](auto& m) { squash(m).set_s_lb(value(m, Vec(-pos(2, 4)))); });
    e.add("set_s_ub", [=](auto& m) { squash(m).set_s_ub(value(m, pos(2, 5))); });
  }
  if (kind != 1 && c.choose(2, "limits")) {
    e.add("limits of the state", [](auto& m) { m.get_state()->set_lb(value(m, Vec(-pos(m.get_state()->get_nx(), 1)))); });
  }
  chain<ActuationModelAbstractTpl, true>(c, mc::strf("actuation %d", kind), [&]() -> std::shared_ptr<ActuationModelAbstract> {
    Gen g(4);
    auto s = vec_state<double>(4);
    std::shared_ptr<ActuationModelAbstract> a = std::make_shared<CActuationTpl<double>>(s, 2, CFn<double>(g, 2, 4, 2));
    if (kind == 1 || kind == 3) a = std::make_shared<ActuationSquashingModel>(a, std::make_shared<SquashingModelSmoothSat>(Vec(-pos(2, 1)), pos(2, 2), 2), 2);
    if (kind >= 2) a = std::make_shared<ActuationModelNumDiff>(a);
    return a;
  }, e);
}
typedef std::shared_ptr<ControlParametrizationModelAbstract> CP;
static CP control(int kind, long nw) {
  switch (kind) {
    case 0: return std::make_shared<ControlParametrizationModelPolyZero>(nw);
    case 1: return std::make_shared<ControlParametrizationModelPolyOne>(nw);
    case 2: return std::make_shared<ControlParametrizationModelPolyTwoRK>(nw, RKType::three);
    case 3: return std::make_shared<ControlParametrizationModelPolyTwoRK>(nw, RKType::four);
  }
  return std::make_shared<ControlParametrizationModelNumDiff>(control(kind - 4, nw));
}
static void controls(mc::Ctx& c) {
  const int kind = c.choose(8, "parametrisation");
  const long nw = 1 + c.choose(3, "nw");
  chain<ControlParametrizationModelAbstractTpl, true>(c, mc::strf("control %d", kind), [&] { return control(kind, nw); }, {});
}
// ---- residuals, costs, constraints ---------------------------------------------------------------------------------
enum { RESIDUALS = 7 };
static std::shared_ptr<ResidualModelAbstract> residual(int kind, const std::shared_ptr<StateAbstract>& s) {
  Gen g(kind + 3);
  auto a = std::make_shared<CActuationTpl<double>>(s, 2, CFn<double>(g, 2, 4, 2));
  switch (kind) {
    case 0: return std::make_shared<ResidualModelControl>(s, rv(2, 1));
    case 1: return std::make_shared<ResidualModelJointAcceleration>(s, rv(2, 2), 2);
    case 2: return std::make_shared<ResidualModelJointEffort>(s, a, rv(2, 3), 2, true);
    case 3: return std::make_shared<ResidualModelJointEffort>(s, a, rv(2, 3), 2, false);
    case 4: return std::make_shared<ResidualModelNumDiff>(residual(6, s));
    case 5: return std::make_shared<ResidualModelNumDiff>(residual(0, s));
    case -1: return std::make_shared<CResidualTpl<double>>(s, 0, CFn<double>(g, 2, 4, 0));  // of the state only
  }
  return std::make_shared<CResidualTpl<double>>(s, 2, CFn<double>(g, 2, 4, 2));
}
template <class M>
void set_reference(M& r, const Vec& v) {
  typedef ScalarOf<M> S;
  if (auto p = dynamic_cast<ResidualModelControlTpl<S>*>(&r)) p->set_reference(value(r, v));
  if (auto p = dynamic_cast<ResidualModelJointAccelerationTpl<S>*>(&r)) p->set_reference(value(r, v));
  if (auto p = dynamic_cast<ResidualModelJointEffortTpl<S>*>(&r)) p->set_reference(value(r, v));
}
static void residuals(mc::Ctx& c) {
  const int kind = c.choose(RESIDUALS, "residual");
  Edits<ResidualModelAbstractTpl> e;
  if (kind < 4) e.add("set_reference", [](auto& m) { set_reference(m, rv(2, 8)); });
  e.add("limits of the state", [](auto& m) { m.get_state()->set_ub(value(m, pos(4, 1))); });
  chain<ResidualModelAbstractTpl, true>(c, mc::strf("residual %d", kind), [&] { return residual(kind, vec_state<double>(4)); }, e);
}
static std::shared_ptr<CostModelAbstract> cost(int res, int act, const std::shared_ptr<StateAbstract>& s) { return std::make_shared<CostModelResidual>(s, every_activation(act, 2), residual(res, s)); }
static void costs(mc::Ctx& c) {
  const bool nd = c.flip("numdiff");
  const int res = nd ? 6 : c.choose(RESIDUALS, "residual"), act = nd ? 0 : c.choose(ACTIVATIONS, "activation");
  if (act == 7 && res != 4 && res != 6) return;  // the 2-norm barrier has no derivative at 0
  Edits<CostModelAbstractTpl> e;
  if (!nd) e.add("set_reference", [](auto& m) { set_reference(*m.get_residual(), rv(2, 8)); });
  chain<CostModelAbstractTpl, true>(c, mc::strf("cost %d/%d", res, act), [&]() -> std::shared_ptr<CostModelAbstract> {
    auto k = cost(res, act, vec_state<double>(4));
    if (nd) return std::make_shared<CostModelNumDiff>(k);
    return k;
  }, e);
}
static std::shared_ptr<ConstraintModelAbstract> constraint(int kind, int res, const std::shared_ptr<StateAbstract>& s, bool T = true) {
  auto r = residual(res, s);
  if (kind == 0) return std::make_shared<ConstraintModelResidual>(s, r, T);
  return std::make_shared<ConstraintModelResidual>(s, r, kind == 1 ? Vec(-pos(2, 1)) : some(Vec(-pos(2, 1)), 0, -INF), kind == 1 ? pos(2, 2) : some(pos(2, 2), 1, INF), T);
}
static void constraints(mc::Ctx& c) {
  const int kind = c.choose(3, "bounds"), res = c.choose(RESIDUALS, "residual");
  const bool T = c.flip("terminal"), nd = res == 6 && c.flip("numdiff");
  Edits<ConstraintModelAbstractTpl> e;
  if (!nd) {
    if (kind) {
      e.add("update_bounds", [](auto& m) { m.update_bounds(value(m, Vec(-pos(2, 3))), value(m, pos(2, 4))); });
      e.add("update_bounds with infinities", [](auto& m) { m.update_bounds(value(m, Vec::Constant(2, -INF)), value(m, some(pos(2, 4), 0, INF))); });
    }
    e.add("remove_bounds", [](auto& m) { m.remove_bounds(); });
  }
  chain<ConstraintModelAbstractTpl, true>(c, mc::strf("constraint %d/%d", kind, res), [&]() -> std::shared_ptr<ConstraintModelAbstract> {
    auto k = constraint(kind, res, vec_state<double>(4), T);
    if (nd) return std::make_shared<ConstraintModelNumDiff>(k);
    return k;
  }, e);
}
static std::shared_ptr<CostModelSum> cost_sum(int shape, const std::shared_ptr<StateAbstract>& s, bool controls = true) {
  if (!controls) {
    auto m = std::make_shared<CostModelSum>(s, 0);
    for (int i = 0; i < shape; ++i) m->addCost(std::string(1, 'c' - i), cost(-1, (2 * i + shape) % ACTIVATIONS == 7 ? 6 : (2 * i + shape) % ACTIVATIONS, s), 0.3 + 0.4 * i, i != 1);
    return m;
  }
  auto m = std::make_shared<CostModelSum>(s, 2);
  for (int i = 0; i < shape; ++i) m->addCost(std::string(1, 'c' - i), cost((2 * i + shape) % ACTIVATIONS == 7 ? 6 : (i + shape) % RESIDUALS, (2 * i + shape) % ACTIVATIONS, s), 0.3 + 0.4 * i, i != 1);
  return m;
}
static void sums(mc::Ctx& c) {
  Quiet quiet;
  const int shape = c.choose(4, "items");
  const bool controls = !shape || c.choose(2, "without controls") == 0;
  Edits<CostModelSumTpl> e;
  for (int i = 0; i < shape; ++i)
    for (bool on : {true, false}) e.add(mc::strf("%c %s", 'c' - i, on ? "on" : "off"), [=](auto& m) { m.changeCostStatus(std::string(1, 'c' - i), on); });
  if (shape) {
    e.add("weight", [](auto& m) { if (m.get_costs().size()) m.get_costs().begin()->second->weight = 0.7; });
    e.add("remove", [](auto& m) { m.removeCost("c"); });
    if (controls) e.add("reference", [](auto& m) { if (m.get_costs().size()) set_reference(*m.get_costs().begin()->second->cost->get_residual(), rv(2, 9)); });
  }
  chain<CostModelSumTpl, false>(c, mc::strf("sum of %d", shape), [&] { return cost_sum(shape, vec_state<double>(4), controls); }, e);
}
static std::shared_ptr<ConstraintModelManager> manager(int shape, const std::shared_ptr<StateAbstract>& s, bool controls = true) {
  auto m = std::make_shared<ConstraintModelManager>(s, controls ? 2 : 0);
  for (int i = 0; i < shape; ++i) m->addConstraint(std::string(1, 'c' - i), constraint((i + shape) % 3, controls ? (2 * i + shape) % 4 : -1, s, i != 2), i != 1);
  return m;
}
static void managers(mc::Ctx& c) {
  Quiet quiet;
  const int shape = c.choose(4, "items");
  const bool controls = !shape || c.choose(2, "without controls") == 0;
  Edits<ConstraintModelManagerTpl> e;
  for (int i = 0; i < shape; ++i)
    for (bool on : {true, false}) e.add(mc::strf("%c %s", 'c' - i, on ? "on" : "off"), [=](auto& m) { m.changeConstraintStatus(std::string(1, 'c' - i), on); });
  if (shape) e.add("remove", [](auto& m) { m.removeConstraint("c"); });
  chain<ConstraintModelManagerTpl, false>(c, mc::strf("manager of %d", shape), [&] { return manager(shape, vec_state<double>(4), controls); }, e);
}
// ---- actions -------------------------------------------------------------------------------------------------------
static std::shared_ptr<DifferentialActionModelAbstract> differential(int kind) {
  Gen g(5);
  const long ng = kind == 1 ? 2 : 0, nh = kind == 1 ? 1 : 0;
  if (kind < 2) {
    const Mat L = g.spd(6, 0.3);
    const Mat Aq = g.mat(2, 2), Av = g.mat(2, 2), B = g.mat(2, 2), Q = L.topLeftCorner(4, 4), R = L.bottomRightCorner(2, 2), N = L.topRightCorner(4, 2), G = g.mat(ng, 6), H = g.mat(nh, 6);
    const Vec f = g.vec(2), q = g.vec(4), r = g.vec(2), gg = g.vec(ng), hh = g.vec(nh);
    return std::make_shared<DifferentialActionModelLQR>(Aq, Av, B, Q, R, N, G, H, f, q, r, gg, hh);
  }
  if (kind == 2) {
    auto s = vec_state<double>(4);
    return std::make_shared<CFreeTpl<double>>(s, std::make_shared<CActuationTpl<double>>(s, 2, CFn<double>(g, 2, 4, 2)), cost_sum(3, s), manager(2, s), CFn<double>(g, 2, 4, 2));
  }
  return std::make_shared<DifferentialActionModelNumDiff>(differential(kind == 5 ? 1 : 0), kind == 4);
}
enum { DIFFERENTIALS = 6 };
template <class E>
void u_edits(E& e, long nu) {
  for (int k = 0; k < 3; ++k) {
    const Vec lo = k == 0 ? Vec(-pos(nu, 1)) : k == 1 ? some(Vec(-pos(nu, 2)), 0, -INF) : Vec(Vec::Constant(nu, -INF));
    const Vec up = k == 0 ? pos(nu, 3) : k == 1 ? some(pos(nu, 4), nu - 1, INF) : Vec(Vec::Constant(nu, INF));
    e.add(mc::strf("set_u_lb %d", k), [lo](auto& m) { m.set_u_lb(value(m, lo)); });
    e.add(mc::strf("set_u_ub %d", k), [up](auto& m) { m.set_u_ub(value(m, up)); });
  }
}
template <class E>
void g_edits(E& e, long ng) {
  e.add("set_g_lb", [ng](auto& m) { m.set_g_lb(value(m, some(Vec(-pos(ng, 5)), 0, -INF))); });
  e.add("set_g_ub", [ng](auto& m) { m.set_g_ub(value(m, pos(ng, 6))); });
}
static void differentials(mc::Ctx& c) {
  Quiet quiet;
  const int kind = c.choose(DIFFERENTIALS, "differential action");
  Edits<DifferentialActionModelAbstractTpl> e;
  u_edits(e, 2);
  if (kind == 1 || kind == 5) g_edits(e, 2);
  e.add("limits of the state", [](auto& m) { m.get_state()->set_lb(value(m, Vec(-pos(m.get_state()->get_nx(), 1)))); }, kind != 2);  // (its parts have a state each once cast)
  chain<DifferentialActionModelAbstractTpl, true>(c, mc::strf("differential action %d", kind), [&] { return differential(kind); }, e);
}
enum { ACTIONS = 6 };
static std::shared_ptr<ActionModelAbstract> action(int kind, int sub = 0) {
  Gen g(5);
  const long ng = kind == 1 ? 2 : 0, nh = kind == 1 ? 1 : 0;
  switch (kind) {
    case 2: return std::make_shared<ActionModelUnicycle>();
    case 3: return std::make_shared<CActTpl<double>>(vec_state<double>(4), 2, CFn<double>(g, 4, 4, 2));
    case 4: return std::make_shared<ActionModelNumDiff>(action(sub == 3 ? 3 : sub), sub == 3);
  }
  const Mat L = g.spd(6, 0.3);
  const Mat A = g.mat(4, 4), B = g.mat(4, 2), Q = L.topLeftCorner(4, 4), R = L.bottomRightCorner(2, 2), N = L.topRightCorner(4, 2), G = g.mat(ng, 6), H = g.mat(nh, 6);
  const Vec f = g.vec(4), q = g.vec(4), r = g.vec(2), gg = g.vec(ng), hh = g.vec(nh);
  return std::make_shared<ActionModelLQR>(A, B, Q, R, N, G, H, f, q, r, gg, hh);
}
static void actions(mc::Ctx& c) {
  Quiet quiet;
  const int kind = c.choose(5, "action"), sub = kind == 4 ? c.choose(4, "wrapped") : 0;
  Edits<ActionModelAbstractTpl> e;
  u_edits(e, 2);
  if (kind == 1 || (kind == 4 && sub == 1)) g_edits(e, 2);
  if (kind == 2) {
    e.add("set_dt", [](auto& m) { dynamic_cast<ActionModelUnicycleTpl<ScalarOf<std::decay_t<decltype(m)>>>&>(m).set_dt(0.37); });
    e.add("set_cost_weights", [](auto& m) {
      typedef ScalarOf<std::decay_t<decltype(m)>> S;
      dynamic_cast<ActionModelUnicycleTpl<S>&>(m).set_cost_weights(Eigen::Matrix<S, 2, 1>(S(0.3), S(2)));
    });
  } else
    e.add("limits of the state", [](auto& m) { m.get_state()->set_lb(value(m, Vec(-pos(m.get_state()->get_nx(), 1)))); });
  chain<ActionModelAbstractTpl, true>(c, mc::strf("action %d/%d", kind, sub), [&] { return action(kind, sub); }, e);
}
static std::shared_ptr<ActionModelAbstract> integrated(int scheme, int diff, int ctl, bool residual) {
  auto d = differential(diff);
  auto k = control(ctl, 2);
  if (scheme == 0) return std::make_shared<IntegratedActionModelEuler>(d, k, 0.13, residual);
  return std::make_shared<IntegratedActionModelRK>(d, k, scheme == 1 ? RKType::two : scheme == 2 ? RKType::three : RKType::four, 0.13, residual);
}
static void integrations(mc::Ctx& c) {
  Quiet quiet;
  const int scheme = c.choose(4, "scheme"), diff = c.choose(c.thorough ? 5 : 3, "differential"), ctl = c.choose(4, "control");
  const bool residual = c.flip("residual");
  Edits<ActionModelAbstractTpl> e;
  const long nu = control(ctl, 2)->get_nu();
  u_edits(e, nu);
  e.add("set_dt", [](auto& m) { dynamic_cast<IntegratedActionModelAbstractTpl<ScalarOf<std::decay_t<decltype(m)>>>&>(m).set_dt(0.02); });
  e.add("limits of the differential", [](auto& m) { dynamic_cast<IntegratedActionModelAbstractTpl<ScalarOf<std::decay_t<decltype(m)>>>&>(m).get_differential()->set_u_lb(value(m, Vec(-pos(2, 1)))); });
  chain<ActionModelAbstractTpl, true>(c, mc::strf("integrated %d/%d/%d", scheme, diff, ctl), [&] { return integrated(scheme, diff, ctl, residual); }, e);
}
static void problems(mc::Ctx& c) {
  Quiet quiet;
  const int T = 1 + c.choose(3, "horizon");
  int ks[4];
  for (int t = 0; t <= T; ++t) ks[t] = c.choose(t == 0 || c.thorough ? 5 : 2, "node");
  Edits<ShootingProblemTpl> e;
  e.add("set_x0", [](auto& p) { p.set_x0(value(p, rv(4, 3))); });
  if (T) {
    e.add("circularAppend", [](auto& p) { p.circularAppend(p.get_runningModels()[0]); });
    e.add("limits of a node", [](auto& p) {
      auto& m = *p.get_runningModels()[0];
      m.set_u_lb(value(m, Vec(-pos(m.get_nu(), 1))));
    });
  }
  auto node = [](int k) { return k == 0 ? action(0) : k == 1 ? integrated(0, 2, 0, true) : k == 2 ? action(3) : k == 3 ? integrated(3, 0, 1, false) : action(1); };
  chain<ShootingProblemTpl, false>(c, "problem", [&] {
    std::vector<std::shared_ptr<ActionModelAbstract>> ms;
    for (int t = 0; t < T; ++t) ms.push_back(node(ks[t]));
    return std::make_shared<ShootingProblem>(rv(4, 1), ms, node(ks[T]));
  }, e);
}

int main(int argc, char** argv) {
  mc::Explorer e;
  e.add("states", states);
  e.add("activations", activations);
  e.add("actuations", actuations);
  e.add("controls", controls);
  e.add("residuals", residuals);
  e.add("costs", costs);
  e.add("constraints", constraints);
  e.add("sums", sums);
  e.add("managers", managers);
  e.add("differentials", differentials);
  e.add("actions", actions);
  e.add("integrations", integrations);
  e.add("problems", problems);
  return e.main(argc, argv);
}
