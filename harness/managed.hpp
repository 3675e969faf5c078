// A differential action assembled from the library's own parts, the way the library's forward-dynamics actions are:
// squashed actuation, a sum of residual costs with every activation, and (optionally) a constraint manager.
#ifndef MANAGED_HPP
#define MANAGED_HPP
#include "models.hpp"
#include "crocoddyl/core/activations/2norm-barrier.hpp"
#include "crocoddyl/core/activations/quadratic-barrier.hpp"
#include "crocoddyl/core/activations/quadratic-flat-exp.hpp"
#include "crocoddyl/core/activations/quadratic-flat-log.hpp"
#include "crocoddyl/core/activations/quadratic.hpp"
#include "crocoddyl/core/activations/smooth-1norm.hpp"
#include "crocoddyl/core/activations/smooth-2norm.hpp"
#include "crocoddyl/core/activations/weighted-quadratic-barrier.hpp"
#include "crocoddyl/core/activations/weighted-quadratic.hpp"
#include "crocoddyl/core/actuation-base.hpp"
#include "crocoddyl/core/actuation/actuation-squashing.hpp"
#include "crocoddyl/core/actuation/squashing/smooth-sat.hpp"
#include "crocoddyl/core/constraints/constraint-manager.hpp"
#include "crocoddyl/core/constraints/residual.hpp"
#include "crocoddyl/core/costs/cost-sum.hpp"
#include "crocoddyl/core/costs/residual.hpp"
#include "crocoddyl/core/data/joint.hpp"
#include "crocoddyl/core/residuals/control.hpp"
#include "crocoddyl/core/residuals/joint-acceleration.hpp"
#include "crocoddyl/core/residuals/joint-effort.hpp"

class TInner : public cr::ActuationModelAbstractTpl<double> {
 public:
  Fn f;
  TInner(StateP s, long nu, uint64_t seed) : cr::ActuationModelAbstractTpl<double>(s, nu) {
    Gen g(seed);
    f = Fn(g, s->get_nv(), s->get_ndx(), nu, 1., 0.5);
  }
  typedef std::shared_ptr<cr::ActuationDataAbstractTpl<double>> D;
  MC_NO_CAST(ActuationModelBase)
  void calc(const D& d, const CRef& x, const CRef& u) override { d->tau = f.val(zof(state_, x), u); }
  void calcDiff(const D& d, const CRef& x, const CRef& u) override {
    d->dtau_dx = f.Jz(zof(state_, x), u) * Jof(state_, x);
    d->dtau_du = f.Ju(zof(state_, x), u);
  }
  void commands(const D&, const CRef&, const CRef&) override {}
};

inline std::shared_ptr<cr::ActivationModelAbstractTpl<double>> every_activation(int i, long nr) {
  const cr::ActivationBounds b(Vec::Constant(nr, -0.2), Vec::Constant(nr, 0.3));
  const Vec w = Gen(5).vec(nr).array().abs() + 0.3;
  switch (i) {
    case 1: return std::make_shared<cr::ActivationModelWeightedQuad>(w);
    case 2: return std::make_shared<cr::ActivationModelSmooth1Norm>(nr, 0.4);
    case 3: return std::make_shared<cr::ActivationModelQuadraticBarrier>(b);
    case 4: return std::make_shared<cr::ActivationModelQuadFlatLog>(nr, 0.8);
    case 5: return std::make_shared<cr::ActivationModelQuadFlatExp>(nr, 0.8);
    case 6: return std::make_shared<cr::ActivationModelSmooth2Norm>(nr, 0.3);
    case 7: return std::make_shared<cr::ActivationModel2NormBarrier>(nr, 0.9, true);
    case 8: return std::make_shared<cr::ActivationModelWeightedQuadraticBarrier>(b, w);
    default: return std::make_shared<cr::ActivationModelQuad>(nr);
  }
}
enum { ACTIVATIONS = 9 };

class Managed : public cr::DifferentialActionModelAbstractTpl<double> {
 public:
  typedef cr::DifferentialActionModelAbstractTpl<double> Base;
  typedef cr::DifferentialActionDataAbstractTpl<double> DA;
  struct D : DA {
    cr::DataCollectorJoint col;
    std::shared_ptr<cr::ActuationDataAbstractTpl<double>> act;
    std::shared_ptr<cr::CostDataSum> costs;
    std::shared_ptr<cr::ConstraintDataManager> cons;
    D(Managed* m) : DA(m), col(std::make_shared<cr::JointDataAbstract>(m->get_state(), m->actuation, m->get_nu())), act(m->actuation->createData()), costs(m->costs->createData(&col)) {
      costs->shareMemory(this);
      if (m->cons) cons = m->cons->createData(&col), cons->shareMemory(this);
    }
  };
  std::shared_ptr<cr::ActuationModelAbstractTpl<double>> actuation;
  std::shared_ptr<cr::CostModelSum> costs;
  std::shared_ptr<cr::ConstraintModelManager> cons;
  Fn f;
  Managed(StateP s, long nu, uint64_t seed, bool constraints, bool terminal = true) : Base(s, nu, 0, 0, 0, 0, 0) {
    using namespace crocoddyl;
    Gen g(seed);
    f = Fn(g, s->get_nv(), s->get_ndx(), nu, 1., 0.4);
    auto sq = std::make_shared<SquashingModelSmoothSat>(Vec::Constant(nu, -1.5), Vec::Constant(nu, 1.2), nu);
    auto inner = std::make_shared<TInner>(s, nu, seed + 1);
    actuation = std::make_shared<ActuationSquashingModel>(inner, sq, nu);
    // tau has the dimension of the actuation's nu in the joint data, hence nv = nu here
    costs = std::make_shared<CostModelSum>(s, nu);
    for (int i = 0; i < ACTIVATIONS; ++i) {
      std::shared_ptr<ResidualModelAbstract> r = std::make_shared<TResidual>(s, 2, nu, seed + 10 + i);
      if (i % 5 == 1) r = std::make_shared<ResidualModelControl>(s, nu);
      if (i == 2) r = std::make_shared<ResidualModelJointAcceleration>(s, Vec(Gen(seed + 3).vec(s->get_nv())), nu);
      if (i % 5 == 3) r = std::make_shared<ResidualModelJointEffort>(s, actuation, Vec(Gen(seed + 4).vec(nu)), nu);
      costs->addCost("cost" + std::to_string(i), std::make_shared<CostModelResidual>(s, every_activation(i, r->get_nr()), r), 0.3 + 0.2 * i, i != 4);
    }
    if (!constraints) return;
    cons = std::make_shared<ConstraintModelManager>(s, nu);
    cons->addConstraint("equality", std::make_shared<ConstraintModelResidual>(s, std::make_shared<TResidual>(s, 1, nu, seed + 30)));
    cons->addConstraint("control", std::make_shared<ConstraintModelResidual>(s, std::make_shared<ResidualModelControl>(s, nu), Vec::Constant(nu, -0.4), Vec::Constant(nu, 0.5)));
    cons->addConstraint("limits", std::make_shared<ConstraintModelResidual>(s, std::make_shared<TResidual>(s, 2, nu, seed + 31, true, true, false), Vec::Constant(2, -0.1), Vec::Constant(2, 0.2), terminal));
  }
  MC_NO_CAST(DifferentialActionModelBase)
  std::shared_ptr<DA> createData() override { return std::make_shared<D>(this); }
  bool checkData(const std::shared_ptr<DA>& d) override { return std::dynamic_pointer_cast<D>(d) != nullptr; }
  void calc(const std::shared_ptr<DA>& data, const CRef& x, const CRef& u) override {
    D* d = static_cast<D*>(data.get());
    actuation->calc(d->act, x, u);
    d->xout = f.val(zof(state_, x), d->act->tau);
    d->col.joint->a = d->xout;
    d->col.joint->tau = u;
    costs->calc(d->costs, x, u);
    d->cost = d->costs->cost;
    if (cons) d->cons->resize(this, d), cons->calc(d->cons, x, u);
  }
  void calc(const std::shared_ptr<DA>& data, const CRef& x) override {
    D* d = static_cast<D*>(data.get());
    d->xout.setZero();
    d->col.joint->tau.setZero();
    costs->calc(d->costs, x);
    d->cost = d->costs->cost;
    if (cons) d->cons->resize(this, d, false), cons->calc(d->cons, x);
  }
  void calcDiff(const std::shared_ptr<DA>& data, const CRef& x, const CRef& u) override {
    D* d = static_cast<D*>(data.get());
    actuation->calcDiff(d->act, x, u);
    const Vec z = zof(state_, x), t = d->act->tau;
    d->Fx = f.Jz(z, t) * Jof(state_, x) + f.Ju(z, t) * d->act->dtau_dx;
    d->Fu = f.Ju(z, t) * d->act->dtau_du;
    d->col.joint->da_dx = d->Fx;
    d->col.joint->da_du = d->Fu;
    d->col.joint->dtau_du.setIdentity();
    costs->calcDiff(d->costs, x, u);
    if (cons) cons->calcDiff(d->cons, x, u);
  }
  void calcDiff(const std::shared_ptr<DA>& data, const CRef& x) override {
    D* d = static_cast<D*>(data.get());
    costs->calcDiff(d->costs, x);
    if (cons) cons->calcDiff(d->cons, x);
  }
  std::size_t get_ng() const override { return cons ? cons->get_ng() : 0; }
  std::size_t get_nh() const override { return cons ? cons->get_nh() : 0; }
  std::size_t get_ng_T() const override { return cons ? cons->get_ng_T() : 0; }
  std::size_t get_nh_T() const override { return cons ? cons->get_nh_T() : 0; }
  const Vec& get_g_lb() const override { return cons ? cons->get_lb() : g_lb_; }
  const Vec& get_g_ub() const override { return cons ? cons->get_ub() : g_ub_; }
};
#endif
