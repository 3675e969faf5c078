// Rigid-body action models over the robots of mb.hpp, and an independent solution of their equations.
#ifndef DYN_HPP
#define DYN_HPP
#include "mb.hpp"
#include "crocoddyl/core/constraints/constraint-manager.hpp"
#include "crocoddyl/core/constraints/residual.hpp"
#include "crocoddyl/core/costs/cost-sum.hpp"
#include "crocoddyl/core/costs/residual.hpp"
#include "crocoddyl/core/residuals/control.hpp"
#include "crocoddyl/core/residuals/joint-acceleration.hpp"
#include "crocoddyl/core/residuals/joint-effort.hpp"
#include "crocoddyl/multibody/actions/contact-fwddyn.hpp"
#include "crocoddyl/multibody/actions/contact-invdyn.hpp"
#include "crocoddyl/multibody/actions/free-fwddyn.hpp"
#include "crocoddyl/multibody/actions/free-invdyn.hpp"
#include "crocoddyl/multibody/actions/impulse-fwddyn.hpp"
#include "crocoddyl/multibody/actuations/floating-base.hpp"
#include "crocoddyl/multibody/actuations/full.hpp"
#include "crocoddyl/multibody/contacts/contact-1d.hpp"
#include "crocoddyl/multibody/contacts/contact-2d.hpp"
#include "crocoddyl/multibody/contacts/contact-3d.hpp"
#include "crocoddyl/multibody/contacts/contact-6d.hpp"
#include "crocoddyl/multibody/contacts/multiple-contacts.hpp"
#include "crocoddyl/multibody/impulses/impulse-3d.hpp"
#include "crocoddyl/multibody/impulses/impulse-6d.hpp"
#include "crocoddyl/multibody/impulses/multiple-impulses.hpp"
#include "crocoddyl/multibody/residuals/contact-force.hpp"
#include "crocoddyl/multibody/residuals/frame-translation.hpp"
#include "crocoddyl/multibody/residuals/frame-velocity.hpp"
#include "crocoddyl/multibody/residuals/state.hpp"
namespace cr = crocoddyl;
typedef cr::DifferentialActionModelAbstract DAM;
typedef std::shared_ptr<DAM> DamP;
typedef std::shared_ptr<cr::DifferentialActionDataAbstract> DadP;
enum Kind { FREE_FWD, CONTACT_FWD, FREE_INV, CONTACT_INV };
static const char* KIND[] = {"free-fwd", "contact-fwd", "free-inv", "contact-inv"};

struct Stack {  // of contacts: name, dimension, frame index, axes, active, gains
  const char* name;
  int nc, frame, rf;
  bool active;
  double kp, kd;
};
// per robot: arm (nv 4), floater (nv 9), planar (nv 4)
static const std::vector<std::vector<Stack>> STACKS[3] = {
    {{{"tool", 3, 1, 0, true, 0, 0}}, {{"edge", 1, 0, 2, true, 2, 1}, {"tool", 1, 2, 1, true, 0, 0}}, {{"a", 3, 1, 1, true, 3, 2}, {"b", 1, 0, 0, false, 0, 0}}},
    {{{"left", 3, 0, 0, true, 0, 0}}, {{"right", 6, 1, 2, true, 0, 0}}, {{"left", 3, 0, 1, true, 3, 2}, {"right", 3, 1, 2, true, 0, 1}}, {{"left", 3, 0, 0, false, 0, 0}, {"right", 6, 1, 1, true, 2, 1}},
     {{"a", 6, 1, 0, false, 1, 1}, {"b", 3, 0, 2, true, 0, 0}, {"c", 1, 2, 1, true, 0, 0}}},
    {{{"toe", 2, 1, 0, true, 0, 0}}, {{"heel", 2, 2, 0, false, 1, 1}, {"toe", 2, 1, 0, true, 2, 3}}}};

inline std::shared_ptr<cr::ContactModelAbstract> contact(const Robot& r, const Stack& s, long nu) {
  const Eigen::Vector2d g(s.kp, s.kd);
  const pin::FrameIndex f = r.frames[s.frame];
  const pin::SE3 ref = at(0.1, -0.1, -0.3, 0.2, 0.1, -0.3);
  switch (s.nc) {
    case 1: return std::make_shared<cr::ContactModel1D>(r.state, f, 0., RF[s.rf], M3::Identity(), nu, g);
    case 2: return std::make_shared<cr::ContactModel2D>(r.state, f, Eigen::Vector2d(0.1, -0.3), nu, g);
    case 3: return std::make_shared<cr::ContactModel3D>(r.state, f, ref.p, RF[s.rf], nu, g);
    default: return std::make_shared<cr::ContactModel6D>(r.state, f, ref, RF[s.rf], nu, g);
  }
}
struct Dyn {
  Robot r;
  Kind kind;
  std::vector<Stack> stack;
  std::shared_ptr<cr::ActuationModelAbstract> act;
  std::shared_ptr<cr::ContactModelMultiple> contacts;
  std::shared_ptr<cr::CostModelSum> costs;
  std::shared_ptr<cr::ConstraintModelManager> cons;
  DamP m;
  long nv, nu, na, nct;
  double damping;
  Vec armature;
  bool force;
  bool fwd() const { return kind == FREE_FWD || kind == CONTACT_FWD; }
  bool touching() const { return kind == CONTACT_FWD || kind == CONTACT_INV; }
};
inline std::shared_ptr<cr::CostModelResidual> costof(const Robot& r, std::shared_ptr<cr::ResidualModelAbstract> f) { return std::make_shared<cr::CostModelResidual>(r.state, f); }
inline Dyn dyn(Kind kind, int ir, int is, bool with_cons, bool force, double damping, bool armature) {
  Dyn d;
  d.r = robot(ir);
  d.kind = kind;
  Robot& r = d.r;
  d.nv = r.model->nv;
  if (ir == 1) d.act = std::make_shared<cr::ActuationModelFloatingBase>(r.state);
  else d.act = std::make_shared<cr::ActuationModelFull>(r.state);
  d.na = d.act->get_nu();
  d.nct = 0;
  if (d.touching()) {
    d.stack = STACKS[ir][is];
    for (auto& s : d.stack) d.nct += s.nc;
  }
  d.nu = d.fwd() ? d.na : d.nv + d.nct;
  d.force = force;
  d.damping = kind == CONTACT_FWD ? damping : 0.;
  d.armature = Vec::Zero(d.nv);
  if (d.touching()) {
    d.contacts = std::make_shared<cr::ContactModelMultiple>(r.state, d.nu);
    for (auto& s : d.stack) d.contacts->addContact(s.name, contact(r, s, d.nu), s.active);
  }
  d.costs = std::make_shared<cr::CostModelSum>(r.state, d.nu);
  const Vec xr = mbpoint(r, 1);
  d.costs->addCost("x", costof(r, std::make_shared<cr::ResidualModelState>(r.state, xr, d.nu)), 0.7);
  d.costs->addCost("u", costof(r, std::make_shared<cr::ResidualModelControl>(r.state, Vec(Gen(5).vec(d.nu)))), 0.3);
  d.costs->addCost("acc", costof(r, std::make_shared<cr::ResidualModelJointAcceleration>(r.state, Vec(Gen(6).vec(d.nv)), d.nu)), 0.11);
  auto effort = [&](int k) { return std::make_shared<cr::ResidualModelJointEffort>(r.state, d.act, Vec(Gen(k).vec(d.na)), d.nu, d.fwd()); };
  d.costs->addCost("tau", costof(r, effort(7)), 0.13);
  d.costs->addCost("frame", costof(r, std::make_shared<cr::ResidualModelFrameTranslation>(r.state, r.frames[0], V3(0.1, 0.3, -0.2), d.nu)), 1.9);
  d.costs->addCost("motion", costof(r, std::make_shared<cr::ResidualModelFrameVelocity>(r.state, r.frames[1], pin::Motion(pin::V6<double>(Gen(8).vec(6))), pin::LOCAL_WORLD_ALIGNED, d.nu)), 0.4);
  if (force)
    for (auto& s : d.stack)
      if (s.nc != 2) d.costs->addCost(std::string("force_") + s.name, costof(r, std::make_shared<cr::ResidualModelContactForce>(r.state, r.frames[s.frame], pin::Force(pin::V6<double>(Gen(9).vec(6))), s.nc, d.nu, d.fwd())), 0.05);
  if (with_cons) {
    d.cons = std::make_shared<cr::ConstraintModelManager>(r.state, d.nu);
    const Vec lb = Vec::Constant(d.na, -2.), ub = Vec::Constant(d.na, 3.);
    d.cons->addConstraint("effort", std::make_shared<cr::ConstraintModelResidual>(r.state, effort(10), lb, ub, false));
    d.cons->addConstraint("place", std::make_shared<cr::ConstraintModelResidual>(r.state, std::make_shared<cr::ResidualModelFrameTranslation>(r.state, r.frames[1], V3(0.3, 0.1, 0.2), d.nu), true));
    d.cons->addConstraint("zacc", std::make_shared<cr::ConstraintModelResidual>(r.state, std::make_shared<cr::ResidualModelJointAcceleration>(r.state, Vec(Gen(11).vec(d.nv)), d.nu), false));
  }
  switch (kind) {
    case FREE_FWD: d.m = std::make_shared<cr::DifferentialActionModelFreeFwdDynamics>(r.state, d.act, d.costs, d.cons); break;
    case CONTACT_FWD:
      if (d.cons) d.m = std::make_shared<cr::DifferentialActionModelContactFwdDynamics>(r.state, d.act, d.contacts, d.costs, d.cons, damping, force);
      else d.m = std::make_shared<cr::DifferentialActionModelContactFwdDynamics>(r.state, d.act, d.contacts, d.costs, damping, force);
      break;
    case FREE_INV:
      if (d.cons) d.m = std::make_shared<cr::DifferentialActionModelFreeInvDynamics>(r.state, d.act, d.costs, d.cons);
      else d.m = std::make_shared<cr::DifferentialActionModelFreeInvDynamics>(r.state, d.act, d.costs);
      break;
    default:
      if (d.cons) d.m = std::make_shared<cr::DifferentialActionModelContactInvDynamics>(r.state, d.act, d.contacts, d.costs, d.cons);
      else d.m = std::make_shared<cr::DifferentialActionModelContactInvDynamics>(r.state, d.act, d.contacts, d.costs);
  }
  if (armature && d.fwd()) {
    d.armature = Vec::LinSpaced(d.nv, 0.1, 0.6);
    if (kind == FREE_FWD) std::static_pointer_cast<cr::DifferentialActionModelFreeFwdDynamics>(d.m)->set_armature(d.armature);
    else std::static_pointer_cast<cr::DifferentialActionModelContactFwdDynamics>(d.m)->set_armature(d.armature);
  }
  return d;
}
inline cr::ContactDataMultiple* contactsOf(const Dyn& d, const DadP& data) {
  if (d.kind == CONTACT_FWD) return static_cast<cr::DifferentialActionDataContactFwdDynamics*>(data.get())->multibody.contacts.get();
  return static_cast<cr::DifferentialActionDataContactInvDynamics*>(data.get())->multibody.contacts.get();
}
inline cr::JointDataAbstract* jointOf(const Dyn& d, const DadP& data) {
  switch (d.kind) {
    case FREE_FWD: return static_cast<cr::DifferentialActionDataFreeFwdDynamics*>(data.get())->multibody.joint.get();
    case CONTACT_FWD: return static_cast<cr::DifferentialActionDataContactFwdDynamics*>(data.get())->multibody.joint.get();
    case FREE_INV: return static_cast<cr::DifferentialActionDataFreeInvDynamics*>(data.get())->multibody.joint.get();
    default: return static_cast<cr::DifferentialActionDataContactInvDynamics*>(data.get())->multibody.joint.get();
  }
}
// mass matrix from the inverse dynamics
inline Mat massOf(const Robot& r, const Vec& x) {
  const long nv = r.model->nv;
  Mat M(nv, nv);
  const Vec b = invdyn(r, x, Vec::Zero(nv));
  for (long i = 0; i < nv; ++i) M.col(i) = invdyn(r, x, Vec::Unit(nv, i)) - b;
  return M;
}
inline Vec torque(const Dyn& d, const Vec& x, const Vec& u) {
  auto a = d.act->createData();
  d.act->calc(a, x, u);
  return a->tau;
}
// Jacobian and bias of one contact, on data of its own, for a given acceleration; and its forces on the joint
struct One {
  std::shared_ptr<pin::Data> pd;
  std::shared_ptr<cr::ContactDataAbstract> cd;
};
inline One single(const Dyn& d, const std::string& name, const Vec& x, const Vec& a) {
  One o;
  const auto& c = d.contacts->get_contacts().at(name)->contact;
  o.pd = std::make_shared<pin::Data>(*d.r.model);
  pin::computeForwardKinematicsDerivatives(*d.r.model, *o.pd, x.head(d.r.model->nq), x.tail(d.nv), a);
  o.cd = c->createData(o.pd.get());
  c->calc(o.cd, x);
  return o;
}
struct Solution {
  Vec a, lam;                        // acceleration and the stacked forces of the active contacts
  std::map<std::string, Vec> force;  // by contact
  pin::container::aligned_vector<pin::Force> fext;
};
// by_name: forces of the contacts (inverse dynamics), or solve for them
inline Solution solution(const Dyn& d, const Vec& x, const Vec& u) {
  Solution s;
  s.fext.assign(d.r.model->njoints, pin::Force::Zero());
  const long nv = d.nv;
  const Vec z = Vec::Zero(nv);
  std::vector<std::string> active;
  long nc = 0;
  if (d.touching())
    for (auto& it : d.contacts->get_contacts())
      if (it.second->active) active.push_back(it.first), nc += it.second->contact->get_nc();
  Mat J(nc, nv);
  Vec a0(nc);
  long k = 0;
  for (auto& n : active) {
    const One o = single(d, n, x, z);
    const long ni = o.cd->Jc.rows();
    J.middleRows(k, ni) = o.cd->Jc, a0.segment(k, ni) = o.cd->a0;
    k += ni;
  }
  if (d.fwd()) {
    Mat K = Mat::Zero(nv + nc, nv + nc);
    K.topLeftCorner(nv, nv) = massOf(d.r, x);
    K.topLeftCorner(nv, nv).diagonal() += d.armature;
    K.topRightCorner(nv, nc) = -J.transpose();
    K.bottomLeftCorner(nc, nv) = J;
    K.bottomRightCorner(nc, nc).diagonal().setConstant(d.damping);
    const Vec y = K.fullPivLu().solve(cat(Vec(torque(d, x, u) - invdyn(d.r, x, z)), Vec(-a0)));
    s.a = y.head(nv), s.lam = y.tail(nc);
  } else {
    s.a = u.head(nv);
    s.lam.resize(nc);
    long all = nv;
    k = 0;
    if (d.touching())
      for (auto& it : d.contacts->get_contacts()) {
        const long ni = it.second->contact->get_nc();
        if (it.second->active) s.lam.segment(k, ni) = u.segment(all, ni), k += ni;
        all += ni;
      }
  }
  k = 0;
  for (auto& n : active) {
    const One o = single(d, n, x, z);
    const auto& c = d.contacts->get_contacts().at(n)->contact;
    const long ni = c->get_nc();
    s.force[n] = s.lam.segment(k, ni);
    c->updateForce(o.cd, s.force[n]);
    s.fext[d.r.model->frames[c->get_id()].parentJoint] += o.cd->fext;
    k += ni;
  }
  return s;
}
#endif
