// C35: residuals of rigid-body models.  Every residual x dynamics (or impacts) x robot x stack of contacts x frame x
// way of setting its reference x history of the data, against values and derivatives that rest on the robot's motion
// and the solution of the equations of motion alone.
#include "impact.hpp"
#include "crocoddyl/core/activations/weighted-quadratic.hpp"
#include "crocoddyl/multibody/residuals/centroidal-momentum.hpp"
#include "crocoddyl/multibody/residuals/com-position.hpp"
#include "crocoddyl/multibody/residuals/contact-control-gravity.hpp"
#include "crocoddyl/multibody/residuals/contact-cop-position.hpp"
#include "crocoddyl/multibody/residuals/contact-friction-cone.hpp"
#include "crocoddyl/multibody/residuals/contact-wrench-cone.hpp"
#include "crocoddyl/multibody/residuals/control-gravity.hpp"
#include "crocoddyl/multibody/residuals/frame-placement.hpp"
#include "crocoddyl/multibody/residuals/frame-rotation.hpp"
#include "crocoddyl/multibody/residuals/impulse-com.hpp"
typedef std::shared_ptr<ResidualModelAbstract> ResP;
typedef std::function<Vec(const Vec&, const Vec&)> Fn;
enum Res { PLACEMENT, ROTATION, TRANSLATION, VELOCITY, COM, MOMENTUM, STATE, GRAVITY, CONTACT_GRAVITY, FORCE, COP, CONE, WRENCH, IMPULSE_COM };
static const char* RES[] = {"frame-placement", "frame-rotation", "frame-translation", "frame-velocity", "com-position", "centroidal-momentum", "state", "control-gravity", "contact-control-gravity", "contact-force", "cop-position", "friction-cone", "wrench-cone", "impulse-com"};
// what a residual is about
struct Spec {
  Res res;
  Robot r;
  long nu;
  bool fwd;
  pin::FrameIndex id, other;  // its frame, and one it was moved from
  int rf, other_rf;
  int nc;             // dimension of its contact
  std::string touch;  // name of its contact
  bool forces;        // contact-control-gravity: with the contact forces
};
static pin::SE3 refM(int i) { return i ? at(0.1, 0.2, -0.3, 0.4, -0.2, 0.7) : at(-0.2, 0.4, 0.1, -0.5, 0.3, 0.1); }
static pin::V6<double> ref6(int i) { return pin::V6<double>(Gen(60 + i).vec(6)); }
static FrictionCone cone(int i) { return i ? FrictionCone(turn(0.2, -0.1, 0.4), 0.6, 4, true, 0.1, 50.) : FrictionCone(turn(-0.3, 0.2, 0.1), 0.8, 4, false, 0., 100.); }
static WrenchCone wrench(int i) { return i ? WrenchCone(turn(0.2, -0.1, 0.4), 0.6, Eigen::Vector2d(0.1, 0.05), 4, true, 0.1, 50.) : WrenchCone(turn(-0.3, 0.2, 0.1), 0.8, Eigen::Vector2d(0.15, 0.07), 4, false, 0., 100.); }
static CoPSupport support(int i) { return i ? CoPSupport(turn(0.2, -0.1, 0.4), Eigen::Vector2d(0.1, 0.05)) : CoPSupport(turn(-0.3, 0.2, 0.1), Eigen::Vector2d(0.15, 0.07)); }
static Vec refX(const Spec& s, int i) { return mbpoint(s.r, 1 + i); }

static ResP make(const Spec& s, int ref, bool other = false) {
  const auto& st = s.r.state;
  const pin::FrameIndex id = other ? s.other : s.id;
  switch (s.res) {
    case PLACEMENT: return std::make_shared<ResidualModelFramePlacement>(st, id, refM(ref), s.nu);
    case ROTATION: return std::make_shared<ResidualModelFrameRotation>(st, id, refM(ref).R, s.nu);
    case TRANSLATION: return std::make_shared<ResidualModelFrameTranslation>(st, id, refM(ref).p, s.nu);
    case VELOCITY: return std::make_shared<ResidualModelFrameVelocity>(st, id, pin::Motion(ref6(ref)), RF[other ? s.other_rf : s.rf], s.nu);
    case COM: return std::make_shared<ResidualModelCoMPosition>(st, refM(ref).p, s.nu);
    case MOMENTUM: return std::make_shared<ResidualModelCentroidalMomentum>(st, ref6(ref), s.nu);
    case STATE: return std::make_shared<ResidualModelState>(st, refX(s, ref), s.nu);
    case GRAVITY: return std::make_shared<ResidualModelControlGrav>(st, s.nu);
    case CONTACT_GRAVITY: return std::make_shared<ResidualModelContactControlGrav>(st, s.nu);
    case FORCE: return std::make_shared<ResidualModelContactForce>(st, id, pin::Force(ref6(ref)), s.nc, s.nu, s.fwd);
    case COP: return std::make_shared<ResidualModelContactCoPPosition>(st, id, support(ref), s.nu, s.fwd);
    case CONE: return std::make_shared<ResidualModelContactFrictionCone>(st, id, cone(ref), s.nu, s.fwd);
    case WRENCH: return std::make_shared<ResidualModelContactWrenchCone>(st, id, wrench(ref), s.nu, s.fwd);
    default: return std::make_shared<ResidualModelImpulseCoM>(st);
  }
}
template <class M> static M& as(const ResP& p) { return *std::static_pointer_cast<M>(p); }
static bool refer(const Spec& s, const ResP& p, int ref) {  // false: it has no reference
  switch (s.res) {
    case PLACEMENT: as<ResidualModelFramePlacement>(p).set_reference(refM(ref)); return true;
    case ROTATION: as<ResidualModelFrameRotation>(p).set_reference(refM(ref).R); return true;
    case TRANSLATION: as<ResidualModelFrameTranslation>(p).set_reference(refM(ref).p); return true;
    case VELOCITY: as<ResidualModelFrameVelocity>(p).set_reference(pin::Motion(ref6(ref))); return true;
    case COM: as<ResidualModelCoMPosition>(p).set_reference(refM(ref).p); return true;
    case MOMENTUM: as<ResidualModelCentroidalMomentum>(p).set_reference(ref6(ref)); return true;
    case STATE: as<ResidualModelState>(p).set_reference(refX(s, ref)); return true;
    case FORCE: as<ResidualModelContactForce>(p).set_reference(pin::Force(ref6(ref))); return true;
    case COP: as<ResidualModelContactCoPPosition>(p).set_reference(support(ref)); return true;
    case CONE: as<ResidualModelContactFrictionCone>(p).set_reference(cone(ref)); return true;
    case WRENCH: as<ResidualModelContactWrenchCone>(p).set_reference(wrench(ref)); return true;
    default: return false;
  }
}
static bool referred(const Spec& s, const ResP& p, int ref) {  // the getters
  switch (s.res) {
    case PLACEMENT: return as<ResidualModelFramePlacement>(p).get_reference().isApprox(refM(ref)) && as<ResidualModelFramePlacement>(p).get_id() == s.id;
    case ROTATION: return same(Mat(as<ResidualModelFrameRotation>(p).get_reference()), Mat(refM(ref).R)) && as<ResidualModelFrameRotation>(p).get_id() == s.id;
    case TRANSLATION: return same(Vec(as<ResidualModelFrameTranslation>(p).get_reference()), Vec(refM(ref).p)) && as<ResidualModelFrameTranslation>(p).get_id() == s.id;
    case VELOCITY: return same(Vec(as<ResidualModelFrameVelocity>(p).get_reference().toVector()), Vec(ref6(ref))) && as<ResidualModelFrameVelocity>(p).get_id() == s.id && as<ResidualModelFrameVelocity>(p).get_type() == RF[s.rf];
    case COM: return same(Vec(as<ResidualModelCoMPosition>(p).get_reference()), Vec(refM(ref).p));
    case MOMENTUM: return same(Vec(as<ResidualModelCentroidalMomentum>(p).get_reference()), Vec(ref6(ref)));
    case STATE: return same(Vec(as<ResidualModelState>(p).get_reference()), refX(s, ref));
    case FORCE: return same(Vec(as<ResidualModelContactForce>(p).get_reference().toVector()), Vec(ref6(ref))) && as<ResidualModelContactForce>(p).get_id() == s.id && as<ResidualModelContactForce>(p).is_fwddyn() == s.fwd;
    case COP: return same(Mat(as<ResidualModelContactCoPPosition>(p).get_reference().get_A()), Mat(support(ref).get_A())) && as<ResidualModelContactCoPPosition>(p).get_id() == s.id && as<ResidualModelContactCoPPosition>(p).is_fwddyn() == s.fwd;
    case CONE: return same(Mat(as<ResidualModelContactFrictionCone>(p).get_reference().get_A()), Mat(cone(ref).get_A())) && as<ResidualModelContactFrictionCone>(p).get_id() == s.id && as<ResidualModelContactFrictionCone>(p).is_fwddyn() == s.fwd;
    case WRENCH: return same(Mat(as<ResidualModelContactWrenchCone>(p).get_reference().get_A()), Mat(wrench(ref).get_A())) && as<ResidualModelContactWrenchCone>(p).get_id() == s.id && as<ResidualModelContactWrenchCone>(p).is_fwddyn() == s.fwd;
    default: return true;
  }
}
template <class M> static ResP copyOf(const ResP& p) { return std::make_shared<M>(as<M>(p).template cast<double>()); }
static ResP cast(const Spec& s, const ResP& p) {
  switch (s.res) {
    case PLACEMENT: return copyOf<ResidualModelFramePlacement>(p);
    case ROTATION: return copyOf<ResidualModelFrameRotation>(p);
    case TRANSLATION: return copyOf<ResidualModelFrameTranslation>(p);
    case VELOCITY: return copyOf<ResidualModelFrameVelocity>(p);
    case COM: return copyOf<ResidualModelCoMPosition>(p);
    case MOMENTUM: return copyOf<ResidualModelCentroidalMomentum>(p);
    case STATE: return copyOf<ResidualModelState>(p);
    case GRAVITY: return copyOf<ResidualModelControlGrav>(p);
    case CONTACT_GRAVITY: return copyOf<ResidualModelContactControlGrav>(p);
    case FORCE: return copyOf<ResidualModelContactForce>(p);
    case COP: return copyOf<ResidualModelContactCoPPosition>(p);
    case CONE: return copyOf<ResidualModelContactFrictionCone>(p);
    case WRENCH: return copyOf<ResidualModelContactWrenchCone>(p);
    default: return copyOf<ResidualModelImpulseCoM>(p);
  }
}
static bool moved(const Spec& s, const ResP& p) {  // to its frame and type; false: it has none
  switch (s.res) {
    case PLACEMENT: as<ResidualModelFramePlacement>(p).set_id(s.id); return true;
    case ROTATION: as<ResidualModelFrameRotation>(p).set_id(s.id); return true;
    case TRANSLATION: as<ResidualModelFrameTranslation>(p).set_id(s.id); return true;
    case VELOCITY: as<ResidualModelFrameVelocity>(p).set_id(s.id), as<ResidualModelFrameVelocity>(p).set_type(RF[s.rf]); return true;
    case FORCE: as<ResidualModelContactForce>(p).set_id(s.id); return true;
    case COP: as<ResidualModelContactCoPPosition>(p).set_id(s.id); return true;
    case CONE: as<ResidualModelContactFrictionCone>(p).set_id(s.id); return true;
    case WRENCH: as<ResidualModelContactWrenchCone>(p).set_id(s.id); return true;
    default: return false;
  }
}
// --- expected values
static pin::Kin<double, double> kinOf(const Robot& r, const Vec& x) {
  const long nq = r.model->nq, nv = r.model->nv;
  return pin::kin<double, double>(*r.model, Vec(x.head(nq)), Vec(Vec::Zero(nv)), Vec(x.tail(nv)), Vec(Vec::Zero(nv)));
}
static Vec cat3(const V3& a, const V3& b) { return cat(Vec(a), Vec(b)); }
// by the frames, masses and state alone
static Vec moving(const Spec& s, int ref, const Vec& x) {
  const auto k = kinOf(s.r, x);
  const auto& m = *s.r.model;
  switch (s.res) {
    case PLACEMENT: return pin::log6(refM(ref).inverse() * motion(s.r, x, Vec::Zero(m.nv), s.id).M).toVector();
    case ROTATION: return pin::log3(M3(refM(ref).R.transpose() * motion(s.r, x, Vec::Zero(m.nv), s.id).M.R));
    case TRANSLATION: return motion(s.r, x, Vec::Zero(m.nv), s.id).M.p - refM(ref).p;
    case VELOCITY: {
      const Motion6 f = motion(s.r, x, Vec::Zero(m.nv), s.id);
      V3 v = f.v.head(3), w = f.v.tail(3);
      if (s.rf) v = f.M.R * v, w = f.M.R * w;
      if (s.rf == 1) v += f.M.p.cross(w);
      return cat3(v, w) - ref6(ref);
    }
    case COM: case MOMENTUM: {
      V3 c = V3::Zero(), p = V3::Zero(), l = V3::Zero();
      double mass = 0;
      for (int i = 1; i < m.njoints; ++i) c += m.inertias[i].mass * (k.oMi[i].R * m.inertias[i].lever + k.oMi[i].p), mass += m.inertias[i].mass;
      c /= mass;
      if (s.res == COM) return c - refM(ref).p;
      for (int i = 1; i < m.njoints; ++i) {
        const M3 R = k.oMi[i].R;
        const V3 w = k.v[i].tail<3>(), v = k.v[i].head<3>(), lin = R * (m.inertias[i].mass * (v + w.cross(m.inertias[i].lever)));
        p += lin;
        l += (R * m.inertias[i].lever + k.oMi[i].p - c).cross(lin) + R * (m.inertias[i].inertia * w);
      }
      return cat3(p, l) - ref6(ref);
    }
    case STATE: return s.r.state->diff_dx(refX(s, ref), x);
    default: abort();
  }
}
static bool isMoving(Res r) { return r <= STATE; }
// by the force at its contact: the six components
static Vec touching(const Spec& s, int ref, const Vec& f) {
  switch (s.res) {
    case FORCE: {
      const Vec d = f - Vec(ref6(ref));
      return s.nc == 1 ? Vec(d.segment(2, 1)) : Vec(d.head(s.nc));
    }
    case COP: return support(ref).get_A() * f;
    case CONE: return cone(ref).get_A() * f.head(3);
    default: return wrench(ref).get_A() * f;
  }
}
static Vec six(const Vec& f) {
  Vec o = Vec::Zero(6);
  if (f.size() == 1) o[2] = f[0];
  else if (f.size() == 2) o[0] = f[0], o[2] = f[1];
  else o.head(f.size()) = f;
  return o;
}
static Vec gravity(const Robot& r, const Vec& x) {
  const long nv = r.model->nv;
  return invdyn(r, cat(x.head(r.model->nq), Vec(Vec::Zero(nv))), Vec::Zero(nv));
}
// gravity minus what the contact forces hold
static Vec statics(const Dyn& d, const Vec& x, const Vec& u) {
  pin::Data pd(*d.r.model);
  return pin::rnea(*d.r.model, pd, x.head(d.r.model->nq), Vec::Zero(d.nv), Vec::Zero(d.nv), solution(d, x, u).fext);
}
static Vec expected(const Dyn& d, const Spec& s, int ref, const Vec& x, const Vec& u) {
  if (isMoving(s.res)) return moving(s, ref, x);
  if (s.res == GRAVITY) return torque(d, x, u) - gravity(d.r, x);
  if (s.res == CONTACT_GRAVITY) return torque(d, x, u) - (s.forces ? statics(d, x, u) : gravity(d.r, x));
  Vec f = Vec::Zero(s.nc);
  if (d.fwd()) {
    const Solution sol = solution(d, x, u);
    auto it = sol.force.find(s.touch);
    if (it != sol.force.end()) f = it->second;
  } else {
    long at = d.nv;
    for (auto& it : d.contacts->get_contacts()) {
      const long n = it.second->contact->get_nc();
      if (it.first == s.touch) f = u.segment(at, n);
      at += n;
    }
  }
  return touching(s, ref, six(f));
}
static Vec terminalOf(const Dyn& d, const Spec& s, int ref, const Vec& x) {
  if (isMoving(s.res)) return moving(s, ref, x);
  if (s.res == GRAVITY || s.res == CONTACT_GRAVITY) return -gravity(d.r, x);
  return Vec::Zero(s.res == FORCE ? s.nc : s.res == COP ? 4 : s.res == CONE ? 5 : 17);
}
static bool fits(const Spec& s) { return s.res == FORCE ? s.nc != 2 : s.res == CONE ? s.nc != 1 : s.nc == 6; }
// --- comparison of a cost's residual with the expected one
struct Cost {
  std::shared_ptr<CostModelAbstract> m;
  Vec w;
};
static Cost costOf(const Spec& s, const ResP& res) {
  Cost k;
  k.w = Vec::LinSpaced(res->get_nr(), 0.4, 1.7);
  k.m = std::make_shared<CostModelResidual>(s.r.state, std::make_shared<ActivationModelWeightedQuad>(k.w), res);
  return k;
}
// a cost that does not depend on the state is zero at terminal nodes
static bool constant(mc::Ctx& c, const ResP& res, const std::shared_ptr<CostDataAbstract>& data) {
  if (res->get_q_dependent() || res->get_v_dependent()) return false;
  c.check(data->cost == 0 && data->Lx.isZero(0) && data->Lxx.isZero(0), "constant", "a terminal cost that does not depend on the state is not zero");
  return true;
}
static void compare(mc::Ctx& c, const char* when, const Spec& s, const Cost& k, const std::shared_ptr<CostDataAbstract>& data, const Vec& r, const Mat* Rx, const Mat* Ru) {
  const std::string what = std::string(RES[s.res]) + (*when ? std::string(" (") + when + ")" : "");
  const auto& rd = data->residual;
  c.check(close(Vec(rd->r), r, 1e-8), "value", what + " is " + show(Vec(rd->r)) + ", expected " + show(r));
  c.check(closes(data->cost, 0.5 * r.dot(Vec(k.w.cwiseProduct(r))), 1e-8), "cost", what + mc::strf(": the cost is %g", data->cost));
  if (!Rx) return;
  c.check(close(Mat(rd->Rx), *Rx, 3e-6), "Rx", what + " by the state: " + show(Mat(rd->Rx)) + " expected " + show(*Rx));
  const Vec Ar = k.w.cwiseProduct(r);
  const Mat W = k.w.asDiagonal();
  c.check(close(Vec(data->Lx), Vec(Rx->transpose() * Ar), 2e-5), "Lx", what + ": Lx is " + show(Vec(data->Lx)) + " expected " + show(Vec(Rx->transpose() * Ar)));
  c.check(close(Mat(data->Lxx), Mat(Rx->transpose() * W * *Rx), 2e-5), "Lxx", what + ": Lxx is " + show(Mat(data->Lxx)));
  if (!Ru) return;
  c.check(close(Mat(rd->Ru), *Ru, 3e-6), "Ru", what + " by the control: " + show(Mat(rd->Ru)) + " expected " + show(*Ru));
  c.check(close(Vec(data->Lu), Vec(Ru->transpose() * Ar), 2e-5), "Lu", what + ": Lu is " + show(Vec(data->Lu)) + " expected " + show(Vec(Ru->transpose() * Ar)));
  c.check(close(Mat(data->Luu), Mat(Ru->transpose() * W * *Ru), 2e-5) && close(Mat(data->Lxu), Mat(Rx->transpose() * W * *Ru), 2e-5), "Luu", what + ": Luu is " + show(Mat(data->Luu)) + ", Lxu is " + show(Mat(data->Lxu)));
}
static std::shared_ptr<CostDataSum> costsOf(const Dyn& d, const DadP& data) {
  switch (d.kind) {
    case FREE_FWD: return std::static_pointer_cast<DifferentialActionDataFreeFwdDynamics>(data)->costs;
    case CONTACT_FWD: return std::static_pointer_cast<DifferentialActionDataContactFwdDynamics>(data)->costs;
    case FREE_INV: return std::static_pointer_cast<DifferentialActionDataFreeInvDynamics>(data)->costs;
    default: return std::static_pointer_cast<DifferentialActionDataContactInvDynamics>(data)->costs;
  }
}
// the ways a residual gets its reference
enum How { MADE, SET, CAST, MOVED, LATE };
static const char* HOW[] = {"made", "set", "cast", "moved", "set after use"};
static ResP build(mc::Ctx& c, const Spec& s, int how, int ref) {
  ResP p = make(s, how == SET || how == LATE ? !ref : ref, how == MOVED);
  if (how == MOVED && !moved(s, p)) c.prune();
  if ((how == SET && !refer(s, p, ref)) || (how == LATE && !refer(s, p, !ref))) c.prune();
  if (how == CAST) p = cast(s, p);
  return p;
}
static void frames(mc::Ctx& c, Spec& s) {
  const Robot& r = s.r;
  if (s.res <= VELOCITY) {
    const int f = c.choose(3, "frame");
    s.id = r.frames[f], s.other = r.frames[(f + 1) % 3];
    s.rf = s.res == VELOCITY ? c.choose(3, "axes") : 0, s.other_rf = (s.rf + 1) % 3;
  }
}
static void explore(mc::Ctx& c) {
  const Kind kind = (Kind)c.choose(4, "dynamics");
  const int ir = c.choose(3, "robot");
  if (kind == CONTACT_INV && ir == 2) c.prune();  // (2d contacts are refused there)
  const bool touch = kind == CONTACT_FWD || kind == CONTACT_INV;
  const int is = touch ? c.choose(STACKS[ir].size(), "stack") : 0;
  Spec s;
  s.res = (Res)c.choose(touch ? IMPULSE_COM : GRAVITY + 1, "residual");
  const bool arm = kind <= CONTACT_FWD && c.flip("armature");
  Dyn d = dyn(kind, ir, is, false, true, kind == CONTACT_FWD && arm ? 1e-2 : 0., arm);
  if ((s.res == GRAVITY && kind != FREE_FWD) || (s.res == CONTACT_GRAVITY && kind != CONTACT_FWD)) c.prune();
  s.r = d.r, s.nu = d.nu, s.fwd = d.fwd(), s.nc = 0, s.rf = 0;
  frames(c, s);
  if (s.res >= FORCE) {
    const int i = c.choose(d.stack.size(), "contact");
    s.id = d.r.frames[d.stack[i].frame], s.other = d.r.frames[(d.stack[i].frame + 1) % 3], s.nc = d.stack[i].nc, s.touch = d.stack[i].name;
    if (!fits(s)) c.prune();
  }
  const int how = c.choose(5, "reference"), ref = c.choose(2, "value"), p = c.choose(c.thorough ? 3 : 2, "point");
  if (!c.thorough && how != MADE && how != LATE && (p + ref) % 2) c.prune();
  if (!c.thorough && arm && how != MADE && how != LATE) c.prune();
  const ResP res = build(c, s, how, ref);
  const Cost k = costOf(s, res);
  if (c.flip("alone"))
    for (auto n : std::vector<std::string>(d.costs->get_active_set().begin(), d.costs->get_active_set().end())) d.costs->removeCost(n);
  d.costs->addCost("res", k.m, 0.8);
  const Vec x = mbpoint(d.r, p), u = Gen(300 + p).vec(d.nu) * 3., y = mbpoint(d.r, (p + 1) % 3), w = Gen(301 + p).vec(d.nu) * 2.;
  std::vector<DadP> data{d.m->createData(), d.m->createData()};
  const bool used = how == LATE || c.flip("used before");
  c.op("%s %s stack %d %s %s reference %d, %s data", KIND[kind], d.r.name, is, RES[s.res], HOW[how], ref, used ? "used" : "new");
  if (used)
    for (auto& t : data) {
      d.m->calc(t, y), d.m->calcDiff(t, y);
      d.m->calc(t, y, w), d.m->calcDiff(t, y, w);
    }
  if (how == LATE) c.check(refer(s, res, ref), "reference", "no reference");
  c.check(referred(s, res, ref), "getter", std::string(RES[s.res]) + ": the getters do not return the reference, frame or type that was set");
  s.forces = true;
  Fn f = [&](const Vec& a, const Vec& b) { return expected(d, s, ref, a, b); };
  if (s.res == CONTACT_GRAVITY) {
    d.m->calc(data[0], x, u);
    const Vec got = costsOf(d, data[0])->costs.at("res")->residual->r, want = f(x, u);
    s.forces = close(got, want, 1e-8);
    if (!s.forces) c.report("static-torque-forces", "contact-control-gravity ignores the contact forces: " + show(got) + ", expected " + show(want));
  }
  const Vec r = f(x, u);
  const Mat Rx = diff_x(d.r.state, x, [&](const Vec& a) { return f(a, u); }), Ru = diff_u(u, [&](const Vec& b) { return f(x, b); });
  c.check((long)res->get_nr() == r.size() && (long)res->get_nu() == d.nu, "nr", "wrong dimensions");
  for (auto& t : data) {  // both share the model
    d.m->calc(t, x, u);
    compare(c, "", s, k, costsOf(d, t)->costs.at("res"), r, nullptr, nullptr);
    d.m->calcDiff(t, x, u);
    compare(c, "", s, k, costsOf(d, t)->costs.at("res"), r, &Rx, &Ru);
  }
  // terminal, on the same data
  const Vec rT = terminalOf(d, s, ref, x);
  const Mat RT = diff_x(d.r.state, x, [&](const Vec& a) { return terminalOf(d, s, ref, a); });
  if (!d.fwd() && d.costs->get_costs().count("tau")) d.costs->changeCostStatus("tau", false);
  d.m->calc(data[0], x), d.m->calcDiff(data[0], x);
  if (!constant(c, res, costsOf(d, data[0])->costs.at("res"))) compare(c, "terminal", s, k, costsOf(d, data[0])->costs.at("res"), rT, &RT, nullptr);
  // and running again
  d.m->calc(data[0], x, u), d.m->calcDiff(data[0], x, u);
  compare(c, "after terminal", s, k, costsOf(d, data[0])->costs.at("res"), r, &Rx, &Ru);
  c.state(mc::hash_mat(mc::hash_mat(s.res * 8 + kind, Mat(Rx)), r));
  c.outcome(mc::strf("%s %s", KIND[kind], RES[s.res]));
}
static void impacts(mc::Ctx& c) {
  Hit d = hit(c, true);
  Spec s;
  static const Res all[] = {PLACEMENT, ROTATION, TRANSLATION, VELOCITY, COM, STATE, FORCE, COP, CONE, WRENCH, IMPULSE_COM};
  s.res = all[c.choose(11, "residual")];
  s.r = d.r, s.nu = 0, s.fwd = true, s.nc = 0, s.rf = 0;
  if (s.res >= FORCE && s.res != IMPULSE_COM && !d.force) c.prune();
  frames(c, s);
  if (s.res >= FORCE && s.res < IMPULSE_COM) {
    const int i = c.choose(d.stack.size(), "impulse");
    s.id = d.r.frames[d.stack[i].frame], s.other = d.r.frames[(d.stack[i].frame + 1) % 3], s.nc = d.stack[i].nc, s.touch = d.stack[i].name;
    if (!fits(s)) c.prune();
  }
  const int how = c.choose(5, "reference"), ref = c.choose(c.thorough ? 2 : 1, "value"), p = c.choose(c.thorough ? 3 : 2, "point");
  const ResP res = build(c, s, how, ref);
  const Cost k = costOf(s, res);
  if (c.flip("alone"))
    for (auto n : std::vector<std::string>(d.costs->get_active_set().begin(), d.costs->get_active_set().end())) d.costs->removeCost(n);
  d.costs->addCost("res", k.m, 0.8);
  const Vec x = mbpoint(d.r, p), u(0), y = mbpoint(d.r, (p + 1) % 3);
  std::vector<HitD> data{hitData(d), hitData(d)};
  const bool used = how == LATE || c.flip("used before");
  c.op("%s %s reference %d, %s data", RES[s.res], HOW[how], ref, used ? "used" : "new");
  if (used)
    for (auto& t : data) {
      d.m->calc(t, y), d.m->calcDiff(t, y);
      d.m->calc(t, y, u), d.m->calcDiff(t, y, u);
    }
  if (how == LATE) refer(s, res, ref);
  c.check(referred(s, res, ref), "getter", std::string(RES[s.res]) + ": the getters do not return the reference, frame or type that was set");
  auto f = [&](const Vec& a, bool terminal) -> Vec {
    if (isMoving(s.res)) return moving(s, ref, a);
    const Jump j = jump(d, a);
    const long nv = d.r.model->nv;
    if (s.res == IMPULSE_COM) {
      const auto m = kinOf(d.r, cat(a.head(d.r.model->nq), Vec(j.v - a.tail(nv))));
      V3 v = V3::Zero();
      double mass = 0;
      for (int i = 1; i < d.r.model->njoints; ++i) {
        const auto& I = d.r.model->inertias[i];
        v += I.mass * (m.oMi[i].R * (m.v[i].head<3>() + V3(m.v[i].tail<3>()).cross(I.lever))), mass += I.mass;
      }
      return v / mass;
    }
    if (terminal) return Vec::Zero(res->get_nr());
    auto it = j.force.find(s.touch);
    return touching(s, ref, six(it == j.force.end() ? Vec(Vec::Zero(s.nc)) : it->second));
  };
  for (bool terminal : {false, true}) {
    const Vec r = f(x, terminal);
    const Mat Rx = diff_x(d.r.state, x, [&](const Vec& a) { return f(a, terminal); });
    for (auto& t : data) {
      terminal ? d.m->calc(t, x) : d.m->calc(t, x, u);
      terminal ? d.m->calcDiff(t, x) : d.m->calcDiff(t, x, u);
      compare(c, terminal ? "terminal" : "", s, k, t->costs->costs.at("res"), r, &Rx, nullptr);
    }
    c.state(mc::hash_mat(mc::hash_mat(s.res * 2 + terminal, Mat(Rx)), r));
  }
  c.outcome(RES[s.res]);
}
// --- refusals: frames that do not exist, contacts that are missing or of another dimension, references of wrong size
static void refusals(mc::Ctx& c) {
  const Kind kind = c.flip("inverse") ? CONTACT_INV : CONTACT_FWD;
  const int ir = c.choose(kind == CONTACT_FWD ? 3 : 2, "robot"), is = c.choose(STACKS[ir].size(), "stack");
  Dyn d = dyn(kind, ir, is, false, false, 0., false);
  Spec s;
  s.r = d.r, s.nu = d.nu, s.fwd = d.fwd(), s.nc = 3, s.rf = 0, s.other_rf = 0;
  s.res = (Res)c.choose(IMPULSE_COM, "residual");
  const int f = c.choose(3, "frame");
  s.id = s.other = d.r.frames[f];
  int nc = 0;  // of the contact on that frame
  for (auto& t : d.stack)
    if (t.frame == f) nc = t.nc;
  c.op("%s %s stack %d %s frame %d (%d)", KIND[kind], d.r.name, is, RES[s.res], f, nc);
  if (s.res <= VELOCITY || s.res >= FORCE)
    for (int k : {0, 1, 1000}) {
      Spec t = s;
      t.id = d.r.model->nframes + k;
      c.check(throws([&] { make(t, 0); }), "frame", std::string(RES[s.res]) + ": a frame that does not exist was accepted");
    }
  if (s.res == STATE) {
    const auto p = make(s, 0);
    const Vec x = refX(s, 1), shorter = x.head(x.size() - 1), longer = cat(x, Vec::Ones(1));
    for (const Vec& b : {shorter, longer}) {
      c.check(throws([&] { ResidualModelState(d.r.state, b, d.nu); }) && throws([&] { as<ResidualModelState>(p).set_reference(b); }), "reference-size", "a state of wrong size was accepted as a reference");
    }
    c.check(referred(s, p, 0), "refused-reference", "a refused reference changed the residual");
  }
  if (s.res >= FORCE) {
    for (int dim : {1, 2, 3, 4, 5, 6, 7}) {
      if (s.res != FORCE && dim != 3) continue;
      Spec t = s;
      t.nc = dim;
      ResP p;
      const bool made = !throws([&] { p = make(t, 0); });
      c.check(made || dim > 6, "force-dimension", "a force of at most six components was refused");
      if (!made) continue;
      c.check(dim <= 6, "force-dimension", "a force of seven components was accepted");
      d.costs->addCost("res", costOf(t, p).m, 1.);
      const bool fit = s.res == FORCE ? nc == dim && dim != 2 : s.res == CONE ? nc >= 2 : nc == 6;
      DadP data;
      const bool ok = !throws([&] { data = d.m->createData(); });
      c.check(ok == fit, "contact", std::string(RES[s.res]) + mc::strf(" of %d components at a frame whose contact has %d: data were ", dim, nc) + (ok ? "created" : "refused"));
      if (ok) {  // and they work
        const Vec x = mbpoint(d.r, 0), u = Gen(3).vec(d.nu);
        d.m->calc(data, x, u), d.m->calcDiff(data, x, u);
        c.check(std::isfinite(data->cost), "finite", "the cost is not finite");
      }
      d.costs->removeCost("res");
    }
  }
  c.state(mc::hash_mat(s.res * 100 + ir * 10 + is + 1000 * f + 10000 * kind, Vec(1)));
  c.outcome(RES[s.res]);
}
// --- casts: the same residual, and another object
static void casts(mc::Ctx& c) {
  const Kind kind = (Kind)c.choose(4, "dynamics");
  const int ir = c.choose(3, "robot");
  if (kind == CONTACT_INV && ir == 2) c.prune();
  const bool touch = kind == CONTACT_FWD || kind == CONTACT_INV;
  const int is = touch ? c.choose(STACKS[ir].size(), "stack") : 0;
  Spec s;
  s.res = (Res)c.choose(touch ? IMPULSE_COM : GRAVITY + 1, "residual");
  Dyn d = dyn(kind, ir, is, false, false, 0., false);
  if ((s.res == GRAVITY && kind != FREE_FWD) || (s.res == CONTACT_GRAVITY && kind != CONTACT_FWD)) c.prune();
  s.r = d.r, s.nu = d.nu, s.fwd = d.fwd(), s.nc = 0, s.rf = 0;
  frames(c, s);
  if (s.res >= FORCE) {
    const int i = c.choose(d.stack.size(), "contact");
    s.id = d.r.frames[d.stack[i].frame], s.other = d.r.frames[(d.stack[i].frame + 1) % 3], s.nc = d.stack[i].nc, s.touch = d.stack[i].name;
    if (!fits(s)) c.prune();
  }
  ResP a = make(s, 0);
  const bool edited = c.flip("edited before");
  int ref = 0;
  if (edited) {
    if (!refer(s, a, 1)) c.prune();
    ref = 1;
  }
  ResP b = cast(s, a);
  if (c.flip("cast again")) b = cast(s, b);
  c.op("%s %s stack %d %s%s", KIND[kind], d.r.name, is, RES[s.res], edited ? " (edited)" : "");
  c.check(a->get_nr() == b->get_nr() && a->get_nu() == b->get_nu() && a->get_q_dependent() == b->get_q_dependent() && a->get_v_dependent() == b->get_v_dependent() && a->get_u_dependent() == b->get_u_dependent(), "cast-dimensions", std::string(RES[s.res]) + ": a cast has other dimensions or dependencies");
  c.check(referred(s, b, ref), "cast-getter", std::string(RES[s.res]) + ": a cast has another reference, frame or type");
  d.costs->addCost("a", costOf(s, a).m, 0.8), d.costs->addCost("b", costOf(s, b).m, 0.8);
  auto data = d.m->createData();
  for (int k = 0; k < 2; ++k) {
    const Vec x = mbpoint(d.r, k), u = Gen(300 + k).vec(d.nu) * 3.;
    d.m->calc(data, x, u), d.m->calcDiff(data, x, u);
    const auto &ra = *costsOf(d, data)->costs.at("a")->residual, &rb = *costsOf(d, data)->costs.at("b")->residual;
    c.check(close(Vec(ra.r), Vec(rb.r), 1e-12) && close(Mat(ra.Rx), Mat(rb.Rx), 1e-12) && close(Mat(ra.Ru), Mat(rb.Ru), 1e-12), "cast-values", std::string(RES[s.res]) + ": a cast gives " + show(Vec(rb.r)) + " instead of " + show(Vec(ra.r)));
    c.state(mc::hash_mat(mc::hash_mat(s.res * 8 + kind, Mat(ra.Rx)), Vec(ra.r)));
  }
  if (refer(s, a, !ref)) {
    c.check(referred(s, b, ref) && referred(s, a, !ref), "cast-shared", std::string(RES[s.res]) + ": a cast follows the model it was cast from");
    refer(s, b, !ref);
    c.check(referred(s, b, !ref), "cast-edit", std::string(RES[s.res]) + ": a cast does not take a reference");
  }
  c.outcome(RES[s.res]);
}
int main(int argc, char** argv) {
  mc::Explorer e;
  e.add("explore", explore);
  e.add("impacts", impacts);
  e.add("refusals", refusals);
  e.add("casts", casts);
  return e.main(argc, argv);
}
