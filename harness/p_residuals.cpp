// C17: residual-based costs and constraints are exact compositions; built-in residuals evaluate to their
// definition at running and terminal nodes.  Histories of evaluations on one data object.
#include "models.hpp"
#include "crocoddyl/core/activations/quadratic-barrier.hpp"
#include "crocoddyl/core/activations/quadratic-flat-log.hpp"
#include "crocoddyl/core/activations/smooth-1norm.hpp"
#include "crocoddyl/core/activations/weighted-quadratic.hpp"
#include "crocoddyl/core/actuation-base.hpp"
#include "crocoddyl/core/constraints/residual.hpp"
#include "crocoddyl/core/costs/residual.hpp"
#include "crocoddyl/core/data/joint.hpp"
#include "crocoddyl/core/residuals/control.hpp"
#include "crocoddyl/core/residuals/joint-acceleration.hpp"
#include "crocoddyl/core/residuals/joint-effort.hpp"
using namespace crocoddyl;

static StateP mkstate(int i) { return i ? StateP(std::make_shared<CurvedState>()) : StateP(std::make_shared<StateVector>(4)); }
static Vec xof(const StateP& s, int i) { return s->get_ndx() == 2 ? CurvedState::point(0.9 * i - 0.5, 1.3 * i - 0.7) : Vec((1 + i) * Gen(30 + i).vec(4)); }
static Vec uof(long nu, int i) { return Vec((1 + i) * Gen(60 + i).vec(nu)); }
static std::shared_ptr<ActivationModelAbstract> mkact(int i, long nr) {
  switch (i) {
    case 1: return std::make_shared<ActivationModelWeightedQuad>(Vec(Gen(5).vec(nr).array().abs() + 0.3));
    case 2: return std::make_shared<ActivationModelSmooth1Norm>(nr, 0.4);
    case 3: return std::make_shared<ActivationModelQuadraticBarrier>(ActivationBounds(Vec::Constant(nr, -0.2), Vec::Constant(nr, 0.3)));
    case 4: return std::make_shared<ActivationModelQuadFlatLog>(nr, 0.8);
    default: return std::make_shared<ActivationModelQuad>(nr);
  }
}
struct Dims {
  StateP s;
  long nr, nu;
  bool q, v, u;
};
static Dims dims(mc::Ctx& c) {
  Dims d;
  d.s = mkstate(c.choose(2, "state"));
  d.nr = 1 + c.choose(c.thorough ? 3 : 2, "nr");
  d.nu = c.choose(3, "nu");
  const int f = c.choose(8, "dependencies");
  d.q = f & 1, d.v = f & 2, d.u = f & 4;
  return d;
}

static void costs(mc::Ctx& c) {
  Dims D = dims(c);
  const int ai = c.choose(5, "activation");
  auto res = std::make_shared<TResidual>(D.s, D.nr, D.nu, 7, D.q, D.v, D.u);
  auto act = mkact(ai, D.nr);
  std::shared_ptr<CostModelResidual> m = ai ? std::make_shared<CostModelResidual>(D.s, act, res) : std::make_shared<CostModelResidual>(D.s, res);
  DataCollectorAbstract col;
  auto d = m->createData(&col);
  c.check((long)m->get_nu() == D.nu && m->get_state() == D.s && m->get_residual() == res && (long)m->get_activation()->get_nr() == D.nr, "dimensions", "wrong dimensions");
  auto ad = act->createData();
  const long n = D.s->get_ndx();
  Vec Lu = Vec::Zero(D.nu);
  Mat Luu = Mat::Zero(D.nu, D.nu), Lxu = Mat::Zero(n, D.nu);
  const size_t depth = c.thorough ? 4 : 3;
  for (size_t k = 0; k < depth; ++k) {
    const bool T = c.flip("terminal"), diff = c.flip("derivatives");
    const int i = c.choose(2, "point");
    const Vec x = xof(D.s, i), u = uof(D.nu, i), uu = T ? Vec(Vec::Zero(D.nu)) : u, z = zof(D.s, x);
    c.op("%s %s at point %d (q%d v%d u%d)", T ? "terminal" : "running", diff ? "calc+calcDiff" : "calc", i, D.q, D.v, D.u);
    T ? m->calc(d, x) : m->calc(d, x, u);
    const bool none = T && !D.q && !D.v;  // nothing to evaluate at a terminal node
    const Vec r = res->f.val(z, uu);
    act->calc(ad, r);
    const double v = none ? 0. : ad->a_value;
    c.check(closes(d->cost, v), "cost", mc::strf("cost %.12g, expected %.12g", d->cost, v));
    if (diff) {
      T ? m->calcDiff(d, x) : m->calcDiff(d, x, u);
      act->calcDiff(ad, r);
      const Mat J = res->f.Jz(z, uu) * Jof(D.s, x), Ju = res->f.Ju(z, uu), A = Vec(ad->Arr.diagonal()).asDiagonal();
      Vec Lx = J.transpose() * ad->Ar;
      Mat Lxx = J.transpose() * A * J;
      if (none) Lx.setZero(), Lxx.setZero();
      if (!T) Lu = Ju.transpose() * ad->Ar, Luu = Ju.transpose() * A * Ju, Lxu = J.transpose() * A * Ju;
      c.check(closes(d->cost, v), "cost-kept", "calcDiff changed the cost");
      c.check(close(d->Lx, Lx), "Lx", show(d->Lx) + ", expected " + show(Lx));
      c.check(close(d->Lxx, Lxx), "Lxx", show(d->Lxx) + ", expected " + show(Lxx));
      if (!T) {
        c.check(close(d->Lu, Lu), "Lu", show(d->Lu) + ", expected " + show(Lu));
        c.check(close(d->Luu, Luu), "Luu", show(d->Luu) + ", expected " + show(Luu));
        c.check(close(d->Lxu, Lxu), "Lxu", show(d->Lxu) + ", expected " + show(Lxu));
      }
    }
    c.state(mc::hash_mat(mc::hash_mat(mc::hash_bytes(ai, &d->cost, 8), d->Lxx), d->Lu));
  }
  c.outcome(mc::strf("activation %d q%d v%d u%d", ai, D.q, D.v, D.u));
}

static void constraints(mc::Ctx& c) {
  Dims D = dims(c);
  bool ineq = c.flip("inequality");
  const bool T_act = c.flip("terminal constraint");
  auto res = std::make_shared<TResidual>(D.s, D.nr, D.nu, 9, D.q, D.v, D.u);
  const int b = ineq ? c.choose(3, "bounds") : 0;
  Vec lb = Vec::Constant(D.nr, b == 0 ? -1. : b == 1 ? -INF : 0.5), ub = Vec::Constant(D.nr, b == 0 ? INF : b == 1 ? 2. : 0.5);
  std::shared_ptr<ConstraintModelResidual> m = ineq ? std::make_shared<ConstraintModelResidual>(D.s, res, lb, ub, T_act) : std::make_shared<ConstraintModelResidual>(D.s, res, T_act);
  DataCollectorAbstract col;
  const int re = ineq ? c.choose(3, "bounds edits") : 0;  // 1: bounds removed, 2: removed and set again
  if (re) m->remove_bounds();
  if (re == 2) m->update_bounds(lb = Vec::Constant(D.nr, -3), ub = Vec::Constant(D.nr, 4));
  ineq = ineq && re != 1;
  auto d = m->createData(&col);
  const long ng = ineq ? D.nr : 0, nh = ineq ? 0 : D.nr;
  c.check(m->get_type() == (ineq ? ConstraintType::Inequality : ConstraintType::Equality), "type", "wrong type of constraint");
  c.check((long)m->get_ng() == ng && (long)m->get_nh() == nh && (long)m->get_nu() == D.nu && m->get_T_constraint() == (T_act && (D.q || D.v)) && m->get_state() == D.s && m->get_residual() == res, "dimensions",
          "wrong dimensions or flags");
  c.check(d->g.size() == ng && d->h.size() == nh, "data-dimensions", "wrong data dimensions");
  if (ineq) c.check(same(m->get_lb(), lb) && same(m->get_ub(), ub), "bounds", "wrong bounds");
  const size_t depth = c.thorough ? 4 : 3;
  for (size_t k = 0; k < depth; ++k) {
    const bool T = c.flip("terminal"), diff = c.flip("derivatives");
    const int i = c.choose(2, "point");
    const Vec x = xof(D.s, i), u = uof(D.nu, i), uu = T ? Vec(Vec::Zero(D.nu)) : u, z = zof(D.s, x);
    c.op("%s %s at point %d (q%d v%d u%d)", T ? "terminal" : "running", diff ? "calc+calcDiff" : "calc", i, D.q, D.v, D.u);
    T ? m->calc(d, x) : m->calc(d, x, u);
    const Vec r = res->f.val(z, uu);
    c.check(close(ineq ? d->g : d->h, r), "value", "value " + show(ineq ? d->g : d->h) + ", expected " + show(r));
    if (diff) {
      T ? m->calcDiff(d, x) : m->calcDiff(d, x, u);
      const Mat J = res->f.Jz(z, uu) * Jof(D.s, x), Ju = res->f.Ju(z, uu);
      c.check(close(ineq ? d->g : d->h, r), "value-kept", "calcDiff changed the value");
      c.check(close(ineq ? d->Gx : d->Hx, J), "Jx", "state Jacobian " + show(ineq ? d->Gx : d->Hx) + ", expected " + show(J));
      if (!T) c.check(close(ineq ? d->Gu : d->Hu, Ju), "Ju", "control Jacobian " + show(ineq ? d->Gu : d->Hu) + ", expected " + show(Ju));
    }
    c.state(mc::hash_mat(mc::hash_mat(ineq, d->residual->r), d->residual->Rx));
  }
  c.outcome(mc::strf("%s q%d v%d u%d", ineq ? "inequality" : "equality", D.q, D.v, D.u));
}

class NoActuation : public ActuationModelAbstract {
 public:
  NoActuation(StateP s, long nu) : ActuationModelAbstract(s, nu) {}
  MC_NO_CAST(ActuationModelBase)
  void calc(const std::shared_ptr<ActuationDataAbstract>&, const CRef&, const CRef&) override {}
  void calcDiff(const std::shared_ptr<ActuationDataAbstract>&, const CRef&, const CRef&) override {}
  void commands(const std::shared_ptr<ActuationDataAbstract>&, const CRef&, const CRef&) override {}
};

// built-in residuals on their own and inside a cost and a constraint
enum { CTRL_REF, CTRL_NU, CTRL_DEF, EFF_FULL, EFF_FWD, EFF_REF, EFF_NU, EFF_DEF, ACC_FULL, ACC_REF, ACC_NU, ACC_DEF, NB };
static const char* BN[] = {"control(ref)", "control(nu)", "control()", "effort(ref,nu)", "effort(ref,nu,fwddyn)", "effort(ref)", "effort(nu)", "effort()",
                           "acceleration(ref,nu)", "acceleration(ref)", "acceleration(nu)", "acceleration()"};

static void builtin(mc::Ctx& c) {
  const int kind = c.choose(NB, "residual");
  StateP s = mkstate(c.choose(2, "state"));
  const long nv = s->get_nv(), n = s->get_ndx();
  const bool fixed = kind == CTRL_DEF || kind == EFF_REF || kind == EFF_DEF || kind == ACC_REF || kind == ACC_DEF;
  const long nu = fixed ? nv : 1 + c.choose(3, "nu");
  const bool eff = kind >= EFF_FULL && kind <= EFF_DEF, acc = kind >= ACC_FULL;
  const long na = eff ? (kind == EFF_FWD ? nu : 1 + c.choose(2, "actuated")) : 1;
  auto am = std::make_shared<NoActuation>(s, na);
  const long nr = eff ? na : acc ? nv : nu;
  Vec ref = Vec::Zero(nr);
  const bool given = kind == CTRL_REF || kind == EFF_FULL || kind == EFF_FWD || kind == EFF_REF || kind == ACC_FULL || kind == ACC_REF;
  if (given) ref = Gen(3).vec(nr);
  std::shared_ptr<ResidualModelAbstract> m;
  switch (kind) {
    case CTRL_REF: m = std::make_shared<ResidualModelControl>(s, ref); break;
    case CTRL_NU: m = std::make_shared<ResidualModelControl>(s, (size_t)nu); break;
    case CTRL_DEF: m = std::make_shared<ResidualModelControl>(s); break;
    case EFF_FULL: m = std::make_shared<ResidualModelJointEffort>(s, am, ref, (size_t)nu, false); break;
    case EFF_FWD: m = std::make_shared<ResidualModelJointEffort>(s, am, ref, (size_t)nu, true); break;
    case EFF_REF: m = std::make_shared<ResidualModelJointEffort>(s, am, ref); break;
    case EFF_NU: m = std::make_shared<ResidualModelJointEffort>(s, am, (size_t)nu); break;
    case EFF_DEF: m = std::make_shared<ResidualModelJointEffort>(s, am); break;
    case ACC_FULL: m = std::make_shared<ResidualModelJointAcceleration>(s, ref, (size_t)nu); break;
    case ACC_REF: m = std::make_shared<ResidualModelJointAcceleration>(s, ref); break;
    case ACC_NU: m = std::make_shared<ResidualModelJointAcceleration>(s, (size_t)nu); break;
    default: m = std::make_shared<ResidualModelJointAcceleration>(s);
  }
  c.check((long)m->get_nr() == nr && (long)m->get_nu() == nu, "dimensions", std::string(BN[kind]) + ": wrong dimensions");
  const bool fwd = kind == EFF_FWD;
  auto joint = std::make_shared<JointDataAbstract>(s, am, (size_t)nu);
  DataCollectorJointTpl<double> col(joint);
  DataCollectorAbstract plain;
  DataCollectorAbstract* pc = eff || acc ? static_cast<DataCollectorAbstract*>(&col) : &plain;
  CostModelResidual cost(s, m);
  ConstraintModelResidual con(s, m);
  auto d = m->createData(pc);
  auto cd = cost.createData(pc);
  auto kd = con.createData(pc);
  const size_t depth = c.thorough ? 5 : 4;
  for (size_t k = 0; k < depth; ++k) {
    const int o = c.choose(6, "operation");
    if (o == 4) {
      ref = Gen(40 + k).vec(nr);
      c.op("%s: new reference", BN[kind]);
      if (eff) static_cast<ResidualModelJointEffort*>(m.get())->set_reference(ref);
      else if (acc) static_cast<ResidualModelJointAcceleration*>(m.get())->set_reference(ref);
      else static_cast<ResidualModelControl*>(m.get())->set_reference(ref);
    } else if (o == 5) {
      c.op("%s: reference of wrong size", BN[kind]);
      const Vec w = Vec::Zero(nr + 1);
      c.check(throws([&] {
        if (eff) static_cast<ResidualModelJointEffort*>(m.get())->set_reference(w);
        else if (acc) static_cast<ResidualModelJointAcceleration*>(m.get())->set_reference(w);
        else static_cast<ResidualModelControl*>(m.get())->set_reference(w);
      }), "reference-size", "a reference of wrong size was accepted");
    } else {
      const bool T = o & 1;
      const int i = o >> 1;
      c.op("%s: %s at point %d", BN[kind], T ? "terminal" : "running", i);
      const Vec x = xof(s, i), u = uof(nu, i);
      // what the dynamics left in the shared data
      Gen g(80 + i);
      joint->tau = g.vec(na), joint->a = g.vec(nv);
      joint->dtau_dx = fwd ? Mat(Mat::Zero(na, n)) : g.mat(na, n), joint->dtau_du = fwd ? Mat(Mat::Identity(na, nu)) : g.mat(na, nu);
      joint->da_dx = g.mat(nv, n), joint->da_du = g.mat(nv, nu);
      Vec r = Vec::Zero(nr);
      Mat Rx = Mat::Zero(nr, n), Ru = Mat::Zero(nr, nu);
      bool ruset = !T;
      if (!eff && !acc) {
        Ru.setIdentity();
        if (!T) r = u - ref;
      } else if (eff) {
        if (!T || !fwd) r = joint->tau - ref, Rx = joint->dtau_dx, Ru = joint->dtau_du;
      } else if (!T) {
        r = joint->a - ref, Rx = joint->da_dx, Ru = joint->da_du;
      }
      T ? m->calc(d, x) : m->calc(d, x, u);
      T ? m->calcDiff(d, x) : m->calcDiff(d, x, u);
      c.check(close(d->r, r), "residual", std::string(BN[kind]) + ": residual " + show(d->r) + ", expected " + show(r));
      c.check(close(d->Rx, Rx), "Rx", std::string(BN[kind]) + (T ? " (terminal)" : "") + ": Rx " + show(d->Rx) + ", expected " + show(Rx));
      if (ruset) c.check(close(d->Ru, Ru), "Ru", std::string(BN[kind]) + ": Ru " + show(d->Ru) + ", expected " + show(Ru));
      T ? cost.calc(cd, x) : cost.calc(cd, x, u);
      T ? cost.calcDiff(cd, x) : cost.calcDiff(cd, x, u);
      const bool none = T && !m->get_q_dependent() && !m->get_v_dependent();
      c.check(closes(cd->cost, none ? 0 : 0.5 * r.squaredNorm()), "built-in-cost", std::string(BN[kind]) + mc::strf(": cost %g", cd->cost));
      c.check(close(cd->Lx, Vec(Rx.transpose() * r)) && close(cd->Lxx, Mat(Rx.transpose() * Rx)), "built-in-cost-x", std::string(BN[kind]) + ": wrong cost derivatives");
      if (!T)
        c.check(close(cd->Lu, Vec(Ru.transpose() * r)) && close(cd->Luu, Mat(Ru.transpose() * Ru)) && close(cd->Lxu, Mat(Rx.transpose() * Ru)), "built-in-cost-u",
                std::string(BN[kind]) + ": wrong cost control derivatives");
      T ? con.calc(kd, x) : con.calc(kd, x, u);
      T ? con.calcDiff(kd, x) : con.calcDiff(kd, x, u);
      c.check(close(kd->h, r) && close(kd->Hx, Rx) && (T || close(kd->Hu, Ru)), "built-in-constraint", std::string(BN[kind]) + ": wrong constraint value or Jacobian");
    }
    c.state(mc::hash_mat(mc::hash_mat(kind, d->r), d->Rx));
  }
  c.outcome(BN[kind]);
}

int main(int argc, char** argv) {
  mc::Explorer e;
  e.add("costs", costs);
  e.add("constraints", constraints);
  e.add("builtin", builtin);
  return e.main(argc, argv);
}
