// Impulse models over the robots of mb.hpp, and an independent solution of the impact.
#ifndef IMPACT_HPP
#define IMPACT_HPP
#include "dyn.hpp"
using namespace crocoddyl;
inline Vec one(double v) { return Vec::Constant(1, v); }
struct Hit {
  Robot r;
  std::vector<Stack> stack;
  std::shared_ptr<ImpulseModelMultiple> imp;
  std::shared_ptr<CostModelSum> costs;
  std::shared_ptr<ConstraintModelManager> cons;
  std::shared_ptr<ActionModelImpulseFwdDynamics> m;
  double e, damping;
  Vec armature;
  bool force;
};
static const std::vector<std::vector<Stack>> HITS[3] = {
    {{{"tool", 3, 1, 0, true, 0, 0}}, {{"a", 3, 1, 1, true, 0, 0}, {"b", 3, 0, 0, false, 0, 0}}},
    {{{"left", 3, 0, 2, true, 0, 0}}, {{"right", 6, 1, 0, true, 0, 0}}, {{"left", 3, 0, 1, true, 0, 0}, {"right", 6, 1, 2, false, 0, 0}}, {{"left", 3, 0, 0, true, 0, 0}, {"right", 3, 1, 2, true, 0, 0}}},
    {{{"toe", 3, 1, 0, true, 0, 0}}}};
static Hit hit(mc::Ctx& c, bool small = false) {
  Hit d;
  const int ir = c.choose(2, "robot"), is = c.choose(HITS[ir].size(), "stack");
  d.r = robot(ir);
  Robot& r = d.r;
  d.stack = HITS[ir][is];
  d.imp = std::make_shared<ImpulseModelMultiple>(r.state);
  for (auto& s : d.stack) {
    std::shared_ptr<ImpulseModelAbstract> i;
    if (s.nc == 3) i = std::make_shared<ImpulseModel3D>(r.state, r.frames[s.frame], RF[s.rf]);
    else i = std::make_shared<ImpulseModel6D>(r.state, r.frames[s.frame], RF[s.rf]);
    d.imp->addImpulse(s.name, i, s.active);
  }
  d.force = c.flip("forces");
  d.e = c.pick({0., 0.6}, "restitution");
  d.damping = (small ? is % 2 : c.flip("damping")) ? 1e-2 : 0.;
  const bool arm = small ? !(is % 2) : c.flip("armature"), cons = c.flip("constraints");
  d.costs = std::make_shared<CostModelSum>(r.state, 0);
  d.costs->addCost("x", costof(r, std::make_shared<ResidualModelState>(r.state, Vec(mbpoint(r, 1)), 0)), 0.7);
  d.costs->addCost("frame", costof(r, std::make_shared<ResidualModelFrameTranslation>(r.state, r.frames[0], V3(0.1, 0.3, -0.2), 0)), 1.9);
  d.costs->addCost("motion", costof(r, std::make_shared<ResidualModelFrameVelocity>(r.state, r.frames[1], pin::Motion(pin::V6<double>(Gen(8).vec(6))), pin::LOCAL_WORLD_ALIGNED, 0)), 0.4);
  if (d.force)
    for (auto& s : d.stack) d.costs->addCost(std::string("force_") + s.name, costof(r, std::make_shared<ResidualModelContactForce>(r.state, r.frames[s.frame], pin::Force(pin::V6<double>(Gen(9).vec(6))), s.nc, 0)), 0.05);
  if (cons) {
    d.cons = std::make_shared<ConstraintModelManager>(r.state, 0);
    d.cons->addConstraint("place", std::make_shared<ConstraintModelResidual>(r.state, std::make_shared<ResidualModelFrameTranslation>(r.state, r.frames[1], V3(0.3, 0.1, 0.2), 0), true));
    d.cons->addConstraint("box", std::make_shared<ConstraintModelResidual>(r.state, std::make_shared<ResidualModelFrameTranslation>(r.state, r.frames[0], V3(0.3, 0.1, 0.2), 0), Vec(Vec::Constant(3, -1.)), Vec(Vec::Constant(3, 2.)), false));
    d.m = std::make_shared<ActionModelImpulseFwdDynamics>(r.state, d.imp, d.costs, d.cons, d.e, d.damping, d.force);
  } else {
    d.m = std::make_shared<ActionModelImpulseFwdDynamics>(r.state, d.imp, d.costs, d.e, d.damping, d.force);
  }
  d.armature = Vec::Zero(r.model->nv);
  if (arm) d.m->set_armature(d.armature = Vec::LinSpaced(r.model->nv, 0.1, 0.6));
  c.op("%s stack %d forces %d restitution %g damping %g armature %d", r.name, is, (int)d.force, d.e, d.damping, (int)arm);
  return d;
}
struct Jump {
  Vec v;
  std::map<std::string, Vec> force;
};
static Jump jump(const Hit& d, const Vec& x) {
  const long nv = d.r.model->nv;
  std::vector<std::string> active;
  Mat J(0, nv);
  for (auto& it : d.imp->get_impulses())
    if (it.second->active) {
      pin::Data pd(*d.r.model);
      pin::computeForwardKinematicsDerivatives(*d.r.model, pd, x.head(d.r.model->nq), x.tail(nv), Vec(Vec::Zero(nv)));
      auto id = it.second->impulse->createData(&pd);
      it.second->impulse->calc(id, x);
      J.conservativeResize(J.rows() + id->Jc.rows(), Eigen::NoChange);
      J.bottomRows(id->Jc.rows()) = id->Jc;
      active.push_back(it.first);
    }
  const long nc = J.rows();
  Mat K = Mat::Zero(nv + nc, nv + nc), M = massOf(d.r, x);
  M.diagonal() += d.armature;
  K.topLeftCorner(nv, nv) = M;
  K.topRightCorner(nv, nc) = -J.transpose();
  K.bottomLeftCorner(nc, nv) = J;
  K.bottomRightCorner(nc, nc).diagonal().setConstant(d.damping);
  const Vec v = x.tail(nv), y = K.fullPivLu().solve(cat(Vec(M * v), Vec(-d.e * (J * v))));
  Jump j;
  j.v = y.head(nv);
  long k = nv;
  for (auto& n : active) {
    const long ni = d.imp->get_impulses().at(n)->impulse->get_nc();
    j.force[n] = y.segment(k, ni);
    k += ni;
  }
  return j;
}
typedef std::shared_ptr<ActionDataImpulseFwdDynamics> HitD;
static HitD hitData(const Hit& d) { return std::static_pointer_cast<ActionDataImpulseFwdDynamics>(d.m->createData()); }
#endif
