// C34: rigid-body action models.  Every kind of dynamics x robot x stack of contacts x options x points, against an
// independent solution of the equations of motion; histories of evaluations that share data; quasi-static controls;
// refusals; casts.
#include "impact.hpp"
using namespace crocoddyl;
static Vec control(const Dyn& d, int i) { return Gen(300 + i).vec(d.nu) * 3.; }
static Dyn choose(mc::Ctx& c, bool small = false) {
  const Kind kind = (Kind)c.choose(4, "dynamics");
  const int ir = c.choose(3, "robot");
  const bool touch = kind == CONTACT_FWD || kind == CONTACT_INV;
  if (kind == CONTACT_INV && ir == 2) c.prune();  // (2d contacts are refused there)
  const int is = touch ? c.choose(STACKS[ir].size(), "stack") : 0;
  const bool cons = c.flip("constraints"), force = touch && (kind == CONTACT_INV || c.flip("forces"));
  const bool arm = kind <= CONTACT_FWD && (small ? is % 2 == 0 : c.flip("armature"));
  const double damp = kind == CONTACT_FWD && (small ? is % 2 == 1 : c.flip("damping")) ? 1e-2 : 0.;
  Dyn d = dyn(kind, ir, is, cons, force, damp, arm);
  c.op("%s %s stack %d constraints %d forces %d armature %d damping %g", KIND[kind], d.r.name, is, (int)cons, (int)force, (int)arm, damp);
  return d;
}
static DadP eval(const Dyn& d, const Vec& x, const Vec& u) {
  auto data = d.m->createData();
  d.m->calc(data, x, u);
  return data;
}
// (efforts of the inverse dynamics are not part of the terminal cost; see the section "effort")
static void terminalCosts(const Dyn& d, bool terminal) {
  if (!d.fwd()) d.costs->changeCostStatus("tau", !terminal);
}
static DadP evalT(const Dyn& d, const Vec& x) {
  auto data = d.m->createData();
  d.m->calc(data, x);
  return data;
}
// value, forces and joint quantities of a calc
static void values(mc::Ctx& c, const Dyn& d, const DadP& data, const Vec& x, const Vec& u) {
  const Solution s = solution(d, x, u);
  c.check(close(Vec(data->xout), s.a, 1e-8), "acceleration", "the acceleration is " + show(Vec(data->xout)) + ", the equations of motion give " + show(s.a));
  Vec eff;
  if (d.fwd()) {
    eff = u;
  } else {  // the actuated part of the inverse dynamics
    pin::Data pd(*d.r.model);
    const Vec tau = pin::rnea(*d.r.model, pd, x.head(d.r.model->nq), x.tail(d.nv), s.a, s.fext);
    eff = tau.tail(d.na);
    if (d.na < d.nv) {
      long k = 0, at = -1;
      for (auto& it : d.m->get_nh() ? std::static_pointer_cast<ConstraintModelManager>(d.kind == FREE_INV ? std::static_pointer_cast<DifferentialActionModelFreeInvDynamics>(d.m)->get_constraints() : std::static_pointer_cast<DifferentialActionModelContactInvDynamics>(d.m)->get_constraints())->get_constraints() : ConstraintModelManager::ConstraintModelContainer()) {
        if (it.first == "tau") at = k;
        if (it.second->active) k += it.second->constraint->get_nh();
      }
      c.check(at >= 0 && close(Vec(data->h.segment(at, d.nv - d.na)), Vec(tau.head(d.nv - d.na)), 1e-8), "underactuation", "the constraint on the torques of the free-flying base is " + show(Vec(data->h)) + ", expected " + show(Vec(tau.head(d.nv - d.na))));
    }
  }
  const auto* j = jointOf(d, data);
  c.check(close(Vec(j->a), s.a, 1e-8) && close(Vec(j->tau), eff, 1e-8), "joint", "joint accelerations or efforts: " + show(Vec(j->tau)) + ", expected " + show(eff));
  if (d.touching()) {
    const auto* cd = contactsOf(d, data);
    for (int i = 0; i < d.r.model->njoints; ++i)
      c.check(close(Vec(cd->fext[i].toVector()), Vec(s.fext[i].toVector()), 1e-7), "fext", mc::strf("force on joint %d: ", i) + show(Vec(cd->fext[i].toVector())) + " expected " + show(Vec(s.fext[i].toVector())));
    for (auto& it : d.contacts->get_contacts())
      if (!it.second->active) c.check(cd->contacts.at(it.first)->f.toVector().isZero(0) && cd->contacts.at(it.first)->fext.toVector().isZero(0), "inactive-force", "an inactive contact has a force");
    if (d.kind == CONTACT_INV) {  // accelerations of active contacts vanish, forces of inactive ones
      long k = 0, at = d.nv;
      std::map<std::string, long> off;
      for (auto& it : d.contacts->get_contacts()) off[it.first] = at, at += it.second->contact->get_nc();
      const auto& cm = std::static_pointer_cast<DifferentialActionModelContactInvDynamics>(d.m)->get_constraints();
      for (auto& it : cm->get_constraints()) {
        if (!it.second->active) continue;
        const long n = it.second->constraint->get_nh();
        for (auto& ct : d.contacts->get_contacts())
          if (it.first == ct.first + "_acc") {
            c.check(ct.second->active, "acc-inactive", "the acceleration of an inactive contact is constrained");
            c.check(close(Vec(data->h.segment(k, n)), Vec(single(d, ct.first, x, s.a).cd->a0), 1e-8), "contact-acceleration", "the acceleration of contact " + ct.first + " is " + show(Vec(data->h.segment(k, n))));
          } else if (it.first == ct.first + "_force") {
            c.check(!ct.second->active, "force-active", "the force of an active contact is constrained");
            c.check(close(Vec(data->h.segment(k, n)), Vec(u.segment(off[ct.first], n)), 1e-8), "contact-force", "the force of the inactive contact " + ct.first + " is " + show(Vec(data->h.segment(k, n))) + ", expected " + show(Vec(u.segment(off[ct.first], n))));
          }
        k += n;
      }
    }
  }
}
template <class F>
static void exact(mc::Ctx& c, const Dyn& d, const char* what, const Mat& Jx, const Mat& Ju, const Vec& x, const Vec& u, F f, double tol = 3e-6) {
  const Mat X = diff_x(d.r.state, x, [&](const Vec& y) { return Vec(f(y, u)); }), U = diff_u(u, [&](const Vec& y) { return Vec(f(x, y)); });
  c.check(close(Jx, X, tol), std::string(what) + "-x", std::string(what) + " by the state: " + show(Jx) + " expected " + show(X));
  c.check(close(Ju, U, tol), std::string(what) + "-u", std::string(what) + " by the control: " + show(Ju) + " expected " + show(U));
}
static void derivatives(mc::Ctx& c, const Dyn& d, const DadP& data, const Vec& x, const Vec& u) {
  exact(c, d, "dynamics", data->Fx, data->Fu, x, u, [&](const Vec& y, const Vec& w) { return solution(d, y, w).a; });
  exact(c, d, "cost", data->Lx.transpose(), data->Lu.transpose(), x, u, [&](const Vec& y, const Vec& w) { return one(eval(d, y, w)->cost); }, 2e-5);
  if (d.m->get_ng()) exact(c, d, "inequality", data->Gx, data->Gu, x, u, [&](const Vec& y, const Vec& w) { return eval(d, y, w)->g; });
  if (d.m->get_nh()) exact(c, d, "equality", data->Hx, data->Hu, x, u, [&](const Vec& y, const Vec& w) { return eval(d, y, w)->h; });
  if (d.kind == CONTACT_FWD && d.force)
    for (auto& it : d.contacts->get_contacts()) {
      const auto& cd = contactsOf(d, data)->contacts.at(it.first);
      if (it.second->active) exact(c, d, "force", cd->df_dx, cd->df_du, x, u, [&](const Vec& y, const Vec& w) { return solution(d, y, w).force.at(it.first); });
      else c.check(cd->df_dx.isZero(0) && cd->df_du.isZero(0), "inactive-force-derivative", "the force of an inactive contact has derivatives");
    }
}
static void explore(mc::Ctx& c) {
  Dyn d = choose(c);
  const int p = c.choose(3, "point");
  const Vec x = mbpoint(d.r, p), u = control(d, p);
  auto data = d.m->createData();
  c.check(d.m->checkData(data), "checkData", "the model rejects its own data");
  c.check((long)d.m->get_nu() == d.nu, "nu", "wrong control dimension");
  Vec lb = Vec::Constant(d.nu, -INF), ub = Vec::Constant(d.nu, INF);
  if (d.fwd()) lb = -d.r.model->effortLimit.tail(d.nu), ub = d.r.model->effortLimit.tail(d.nu);
  c.check(same(d.m->get_u_lb(), lb) && same(d.m->get_u_ub(), ub), "limits", "the control limits are not the robot's effort limits (forward) or infinite (inverse)");
  d.m->calc(data, x, u);
  values(c, d, data, x, u);
  d.m->calcDiff(data, x, u);
  derivatives(c, d, data, x, u);
  const long ng = d.cons ? d.na : 0;
  c.check((long)d.m->get_ng() == ng && (long)d.m->get_g_lb().size() == ng && (ng == 0 || (same(d.m->get_g_lb(), Vec(Vec::Constant(ng, -2.))) && same(d.m->get_g_ub(), Vec(Vec::Constant(ng, 3.))))), "g-limits", "the limits of the inequalities are wrong");
  c.check((long)d.m->get_nh() == (d.cons ? 3 + d.nv : 0) + (d.fwd() ? 0 : d.nv - d.na + d.nct), "nh", "wrong number of equalities");
  // terminal
  terminalCosts(d, true);
  auto t = d.m->createData();
  d.m->calc(t, x);
  d.m->calcDiff(t, x);
  const Mat L = diff_x(d.r.state, x, [&](const Vec& y) { return one(evalT(d, y)->cost); });
  c.check(close(Mat(t->Lx.transpose()), L, 2e-5), "terminal-cost", "terminal cost by the state: " + show(Mat(t->Lx.transpose())) + " expected " + show(L));
  c.check((long)d.m->get_nh_T() == (d.cons ? 3 : 0) && t->h.size() == (long)d.m->get_nh_T() && t->g.size() == (long)d.m->get_ng_T(), "terminal-nh", "wrong number of terminal equalities");
  if (d.m->get_nh_T()) {
    const Mat H = diff_x(d.r.state, x, [&](const Vec& y) { return Vec(evalT(d, y)->h); });
    c.check(close(Mat(t->Hx), H, 3e-6), "terminal-equality", "terminal equalities by the state");
  }
  c.state(mc::hash_mat(mc::hash_mat(d.kind * 8 + d.stack.size(), x), u));
  c.outcome(mc::strf("%s %s", KIND[d.kind], d.r.name));
}
// the control at rest: the model at (q, 0) with that control does not accelerate, whenever that is possible
static void rest(mc::Ctx& c) {
  Dyn d = choose(c, true);
  const int p = c.choose(3, "point");
  Vec x = mbpoint(d.r, p);
  auto data = d.m->createData();
  const int before = c.choose(3, "data");  // fresh, or used elsewhere, with every contact active once
  if (before) {
    if (before == 2 && d.touching())
      for (auto& s : d.stack) d.contacts->changeContactStatus(s.name, true);
    d.m->calc(data, mbpoint(d.r, 0), control(d, 0));
    d.m->calcDiff(data, mbpoint(d.r, 0), control(d, 0));
    if (before == 2 && d.touching())
      for (auto& s : d.stack) d.contacts->changeContactStatus(s.name, s.active);
  }
  Vec u = Vec::Constant(d.nu, 55.), u2 = u;
  d.m->quasiStatic(data, u, x);
  d.m->quasiStatic(d.m->createData(), u2, x, 7, 1e-3);
  c.check(close(u, u2, 1e-9), "quasi-static-data", "the quasi-static control " + show(u) + " depends on what the data held before: " + show(u2) + " on new data");
  c.check(close(Vec(d.m->quasiStatic_x(d.m->createData(), x)), u2, 1e-9), "quasi-static-x", "quasiStatic_x differs");
  x.tail(d.nv).setZero();
  const Vec z = Vec::Zero(d.nv), g = invdyn(d.r, x, z);
  bool gains = false;
  Mat A = Mat::Zero(d.nv, d.na);
  A.bottomRows(d.na).setIdentity();
  if (d.touching())
    for (auto& it : d.contacts->get_contacts())
      if (it.second->active) {
        const One o = single(d, it.first, x, z);
        gains |= !o.cd->a0.isZero(1e-12);
        A.conservativeResize(Eigen::NoChange, A.cols() + o.cd->Jc.rows());
        A.rightCols(o.cd->Jc.rows()) = o.cd->Jc.transpose();
      }
  const Vec w = A.fullPivHouseholderQr().solve(g);
  const bool possible = (A * w - g).norm() < 1e-8;
  const bool inv = d.kind == FREE_INV;
  if (possible && !gains && !inv && d.damping == 0) {
    auto e = eval(d, x, u);
    c.check(close(Vec(e->xout), z, 1e-6), "rest", "with the quasi-static control the robot accelerates: " + show(Vec(e->xout)));
    if (d.kind == CONTACT_INV && !d.cons) c.check(close(Vec(e->h), Vec(Vec::Zero(e->h.size())), 1e-6), "rest-constraints", "with the quasi-static control the constraints are " + show(Vec(e->h)));
  }
  if (inv) c.check(u.isZero(0), "rest-inverse", "the quasi-static acceleration is not zero");
  c.state(mc::hash_mat(mc::hash_mat(d.kind, x), u));
  c.outcome(mc::strf("%s %s %s", KIND[d.kind], d.r.name, possible ? "possible" : "impossible"));
}
// data used before give what new data give
static void histories(mc::Ctx& c) {
  Dyn d = choose(c, true);
  auto data = d.m->createData();
  const size_t depth = c.thorough ? 4 : 3;
  bool terminal = false;
  Vec x, u;
  for (size_t i = 0; i < depth; ++i) {
    const int op = c.choose(d.touching() && d.stack.size() > 1 ? 6 : 5, "operation");
    if (i + 1 == depth && op >= 3) c.prune();
    if (op == 3) {
      Vec w(d.nu);
      d.m->quasiStatic(data, w, mbpoint(d.r, 2));
      c.op("quasi-static");
    } else if (op == 4) {
      if (d.fwd() && i + 1 < depth) {
        d.armature = Vec::Constant(d.nv, 0.2 + 0.1 * i);
        if (d.kind == FREE_FWD) std::static_pointer_cast<DifferentialActionModelFreeFwdDynamics>(d.m)->set_armature(d.armature);
        else std::static_pointer_cast<DifferentialActionModelContactFwdDynamics>(d.m)->set_armature(d.armature), std::static_pointer_cast<DifferentialActionModelContactFwdDynamics>(d.m)->set_damping_factor(d.damping = 1e-2 * (1 + i));
        c.op("armature and damping");
      } else
        c.prune();
    } else if (op == 5) {
      const auto& s = d.stack[i % d.stack.size()];
      const bool on = d.contacts->getContactStatus(s.name);
      if (on && d.contacts->get_active_set().size() == 1) c.prune();
      d.contacts->changeContactStatus(s.name, !on);
      c.op("%s %s", s.name, on ? "off" : "on");
    } else {
      terminal = op == 2;
      x = mbpoint(d.r, op), u = control(d, op);
      c.op("%s at point %d", terminal ? "terminal" : "running", op);
      auto fresh = d.m->createData();
      terminalCosts(d, terminal);
      if (terminal) d.m->calc(data, x), d.m->calcDiff(data, x), d.m->calc(fresh, x), d.m->calcDiff(fresh, x);
      else d.m->calc(data, x, u), d.m->calcDiff(data, x, u), d.m->calc(fresh, x, u), d.m->calcDiff(fresh, x, u);
      const double T = 1e-10;
      c.check(closes(data->cost, fresh->cost, T) && close(Vec(data->Lx), Vec(fresh->Lx), T) && close(Mat(data->Lxx), Mat(fresh->Lxx), T), "reuse-cost", "the cost differs on data used before");
      c.check(close(Vec(data->h), Vec(fresh->h), T) && close(Vec(data->g), Vec(fresh->g), T) && close(Mat(data->Hx), Mat(fresh->Hx), T) && close(Mat(data->Gx), Mat(fresh->Gx), T), "reuse-constraints", "the constraints differ on data used before");
      if (!terminal) {
        c.check(close(Vec(data->xout), Vec(fresh->xout), T) && close(Mat(data->Fx), Mat(fresh->Fx), T) && close(Mat(data->Fu), Mat(fresh->Fu), T), "reuse-dynamics", "the dynamics differ on data used before");
        c.check(close(Vec(data->Lu), Vec(fresh->Lu), T) && close(Mat(data->Luu), Mat(fresh->Luu), T) && close(Mat(data->Lxu), Mat(fresh->Lxu), T), "reuse-cost-control", "the cost's derivatives by the control differ on data used before");
        c.check(close(Mat(data->Hu), Mat(fresh->Hu), T) && close(Mat(data->Gu), Mat(fresh->Gu), T), "reuse-constraints-control", "the constraints' derivatives by the control differ on data used before");
        const auto *a = jointOf(d, data), *b = jointOf(d, fresh);
        c.check(close(Vec(a->a), Vec(b->a), T) && close(Vec(a->tau), Vec(b->tau), T) && close(Mat(a->da_dx), Mat(b->da_dx), T) && close(Mat(a->da_du), Mat(b->da_du), T) && close(Mat(a->dtau_dx), Mat(b->dtau_dx), T) && close(Mat(a->dtau_du), Mat(b->dtau_du), T), "reuse-joint", "the joint quantities differ on data used before");
        values(c, d, data, x, u);
      }
      c.state(mc::hash_mat(mc::hash_mat(mc::hash_mat(op, x), data->Fx), data->Lx));
    }
  }
  c.outcome(mc::strf("%s %s", KIND[d.kind], terminal ? "terminal" : "running"));
}
// the terminal value of an effort does not depend on what was evaluated before (a listed finding for inverse dynamics)
static void effort(mc::Ctx& c) {
  Dyn d = choose(c, true);
  const int p = c.choose(3, "point"), q = c.choose(3, "point before");
  auto data = d.m->createData(), fresh = d.m->createData();
  d.m->calc(data, mbpoint(d.r, q), control(d, q)), d.m->calcDiff(data, mbpoint(d.r, q), control(d, q));
  d.m->calc(data, mbpoint(d.r, p)), d.m->calcDiff(data, mbpoint(d.r, p));
  d.m->calc(fresh, mbpoint(d.r, p)), d.m->calcDiff(fresh, mbpoint(d.r, p));
  if (!closes(data->cost, fresh->cost, 1e-10) || !close(Vec(data->Lx), Vec(fresh->Lx), 1e-10))
    c.report(d.fwd() ? "terminal-effort-forward" : "terminal-effort", mc::strf("the terminal cost of %s dynamics is %g after a running evaluation, %g on new data", KIND[d.kind], data->cost, fresh->cost));
  c.state(mc::hash_mat(d.kind, data->Lx));
  c.outcome(KIND[d.kind]);
}
static void sizes(mc::Ctx& c) {
  Dyn d = choose(c, true);
  const int op = c.choose(7, "operation"), delta = c.pick({-1, 1}, "delta"), which = op == 1 || op == 3 ? 0 : c.choose(2, "argument");
  const Vec x = mbpoint(d.r, 0), u = control(d, 0);
  auto data = d.m->createData();
  d.m->calc(data, x, u), d.m->calcDiff(data, x, u);
  Vec y = x, w = u;
  (which ? w : y).conservativeResize((which ? w : y).size() + delta);
  const bool used = !(op == 4 && d.kind == FREE_INV);
  const Vec w0 = w;
  bool t = false;
  switch (op) {
    case 0: t = throws([&] { d.m->calc(data, y, w); }); break;
    case 1: t = throws([&] { d.m->calc(data, y); }); break;
    case 2: t = throws([&] { d.m->calcDiff(data, y, w); }); break;
    case 3: t = throws([&] { d.m->calcDiff(data, y); }); break;
    case 4: t = throws([&] { d.m->quasiStatic(data, w, y); }); break;
    case 5:
      if (!d.fwd() || which) c.prune();
      t = throws([&] {
        const Vec a = Vec::Constant(d.nv + delta, 0.3);
        if (d.kind == FREE_FWD) std::static_pointer_cast<DifferentialActionModelFreeFwdDynamics>(d.m)->set_armature(a);
        else std::static_pointer_cast<DifferentialActionModelContactFwdDynamics>(d.m)->set_armature(a);
      });
      break;
    default: {  // models of other control dimension
      auto costs = std::make_shared<CostModelSum>(d.r.state, d.nu + delta);
      auto contacts = std::make_shared<ContactModelMultiple>(d.r.state, d.nu + (which ? delta : 0));
      if (which) costs = d.costs;
      if (which && !d.touching()) c.prune();
      t = throws([&] {
        switch (d.kind) {
          case FREE_FWD: DifferentialActionModelFreeFwdDynamics(d.r.state, d.act, costs); break;
          case CONTACT_FWD: DifferentialActionModelContactFwdDynamics(d.r.state, d.act, contacts, costs); break;
          case FREE_INV: DifferentialActionModelFreeInvDynamics(d.r.state, d.act, costs); break;
          default: {
            if (which) {
              for (auto& s : d.stack) contacts->addContact(s.name, contact(d.r, s, d.nu + delta), s.active);
              DifferentialActionModelContactInvDynamics(d.r.state, d.act, contacts, costs);
            } else
              DifferentialActionModelContactInvDynamics(d.r.state, d.act, d.contacts, costs);
          }
        }
      });
    }
  }
  if (used) c.check(t, "wrong-size", mc::strf("operation %d accepted an argument %d of wrong size", op, which));
  if (op == 4 && t) c.check(same(w, w0), "refused-write", "a refused call wrote its output");
  c.outcome(mc::strf("%d/%d", op, which));
}
template <class M>
static DamP castOf(const DamP& m) { return std::make_shared<M>(std::static_pointer_cast<M>(m)->template cast<double>()); }
static void casts(mc::Ctx& c) {
  Dyn d = choose(c);
  const bool limits = c.flip("limits");
  const Vec lb = Vec::Constant(d.nu, -4.), ub = Vec::Constant(d.nu, 5.);
  if (limits) d.m->set_u_lb(lb), d.m->set_u_ub(ub);
  DamP k = d.kind == FREE_FWD ? castOf<DifferentialActionModelFreeFwdDynamics>(d.m) : d.kind == CONTACT_FWD ? castOf<DifferentialActionModelContactFwdDynamics>(d.m) : d.kind == FREE_INV ? castOf<DifferentialActionModelFreeInvDynamics>(d.m) : castOf<DifferentialActionModelContactInvDynamics>(d.m);
  c.check(k->get_nu() == d.m->get_nu() && k->get_ng() == d.m->get_ng() && k->get_nh() == d.m->get_nh() && k->get_nr() == d.m->get_nr() && k->get_ng_T() == d.m->get_ng_T() && k->get_nh_T() == d.m->get_nh_T(), "cast-dimensions", "a cast model has other dimensions");
  c.check(same(k->get_u_lb(), d.m->get_u_lb()) && same(k->get_u_ub(), d.m->get_u_ub()) && k->get_has_control_limits() == d.m->get_has_control_limits(), "cast-limits", "a cast model has other control limits: " + show(k->get_u_lb()));
  const Vec x = mbpoint(d.r, 1), u = control(d, 1);
  auto a = d.m->createData(), b = k->createData();
  d.m->calc(a, x, u), d.m->calcDiff(a, x, u), k->calc(b, x, u), k->calcDiff(b, x, u);
  const double T = 1e-10;
  c.check(close(Vec(b->xout), Vec(a->xout), T) && closes(b->cost, a->cost, T) && close(Vec(b->g), Vec(a->g), T) && close(Vec(b->h), Vec(a->h), T), "cast-values", "a cast model gives other values: acceleration " + show(Vec(b->xout)) + " instead of " + show(Vec(a->xout)));
  c.check(close(Mat(b->Fx), Mat(a->Fx), T) && close(Mat(b->Fu), Mat(a->Fu), T) && close(Vec(b->Lx), Vec(a->Lx), T) && close(Vec(b->Lu), Vec(a->Lu), T) && close(Mat(b->Lxx), Mat(a->Lxx), T) && close(Mat(b->Gx), Mat(a->Gx), T) && close(Mat(b->Hx), Mat(a->Hx), T) && close(Mat(b->Hu), Mat(a->Hu), T), "cast-derivatives", "a cast model gives other derivatives");
  c.state(mc::hash_mat(d.kind, a->Fx));
  c.outcome(KIND[d.kind]);
}

// --- impulses -----------------------------------------------------------------------------------------------------
static void impact(mc::Ctx& c, const Hit& d, const HitD& data, const Vec& x, bool terminal) {
  const long nq = d.r.model->nq, nv = d.r.model->nv;
  const Vec u(0);
  const Jump j = jump(d, x);
  c.check(same(Vec(data->xnext.head(nq)), Vec(x.head(nq))) && close(Vec(data->xnext.tail(nv)), j.v, 1e-8), "impact", "after the impact: " + show(Vec(data->xnext)) + ", expected " + show(cat(x.head(nq), j.v)));
  auto next = [&](const Vec& y) { return Vec(d.r.state->diff_dx(Vec(cat(x.head(nq), Vec(Vec::Zero(nv)))), cat(y.head(nq), jump(d, y).v))); };
  const Mat F = diff_x(d.r.state, x, next);
  c.check(close(Mat(data->Fx), F, 3e-6), "impact-derivative", "the impact by the state: " + show(Mat(data->Fx)) + " expected " + show(F));
  auto cost = [&](const Vec& y) {
    auto e = hitData(d);
    terminal ? d.m->calc(e, y) : d.m->calc(e, y, u);
    return one(e->cost);
  };
  const Mat L = diff_x(d.r.state, x, cost);
  c.check(close(Mat(data->Lx.transpose()), L, 2e-5), "impact-cost", "the cost by the state: " + show(Mat(data->Lx.transpose())) + " expected " + show(L));
  for (auto& it : d.imp->get_impulses()) {
    const auto& id = data->multibody.impulses->impulses.at(it.first);
    if (!it.second->active) {
      c.check(id->f.toVector().isZero(0) && id->fext.toVector().isZero(0) && (!d.force || id->df_dx.isZero(0)), "inactive-impulse", "an inactive impulse has a force");
    } else if (d.force) {
      const Mat X = diff_x(d.r.state, x, [&](const Vec& y) { return jump(d, y).force.at(it.first); });
      c.check(close(Mat(id->df_dx), X, 3e-6), "impulse-derivative", "the impulse by the state: " + show(Mat(id->df_dx)) + " expected " + show(X));
    }
  }
}
static void impulses(mc::Ctx& c) {
  Hit d = hit(c);
  const Vec x = mbpoint(d.r, c.choose(3, "point")), u(0);
  const bool terminal = c.flip("terminal"), twice = c.flip("used before");
  HitD data = hitData(d);
  c.check(d.m->checkData(data), "checkData", "the model rejects its own data");
  if (twice) {
    for (auto& s : d.stack) d.imp->changeImpulseStatus(s.name, !s.active || d.stack.size() == 1);
    d.m->calc(data, mbpoint(d.r, 1), u), d.m->calcDiff(data, mbpoint(d.r, 1), u);
    for (auto& s : d.stack) d.imp->changeImpulseStatus(s.name, s.active);
    if (terminal) d.m->calc(data, mbpoint(d.r, 0), u), d.m->calcDiff(data, mbpoint(d.r, 0), u);
    else d.m->calc(data, mbpoint(d.r, 0)), d.m->calcDiff(data, mbpoint(d.r, 0));
  }
  if (terminal) d.m->calc(data, x), d.m->calcDiff(data, x);
  else d.m->calc(data, x, u), d.m->calcDiff(data, x, u);
  impact(c, d, data, x, terminal);
  const ActionModelImpulseFwdDynamics k = d.m->cast<double>();
  auto* km = const_cast<ActionModelImpulseFwdDynamics*>(&k);
  auto b = km->createData();
  if (terminal) km->calc(b, x), km->calcDiff(b, x);
  else km->calc(b, x, u), km->calcDiff(b, x, u);
  c.check(close(Vec(b->xnext), Vec(data->xnext), 1e-10) && close(Mat(b->Fx), Mat(data->Fx), 1e-10) && closes(b->cost, data->cost, 1e-10) && close(Vec(b->Lx), Vec(data->Lx), 1e-10) && close(Vec(b->h), Vec(data->h), 1e-10) && close(Vec(b->g), Vec(data->g), 1e-10), "impulse-cast", "a cast model gives other values");
  c.check(k.get_ng() == d.m->get_ng() && k.get_nh() == d.m->get_nh() && k.get_nh_T() == d.m->get_nh_T(), "impulse-cast-dimensions", "a cast model has other dimensions");
  // sizes and setters
  const Vec y = x.head(x.size() - 1);
  c.check(throws([&] { d.m->calc(data, y, u); }) && throws([&] { d.m->calc(data, y); }) && throws([&] { d.m->calcDiff(data, y, u); }) && throws([&] { d.m->calcDiff(data, y); }), "impulse-size", "a state of wrong size was accepted");
  c.check(throws([&] { d.m->set_armature(y); }) && throws([&] { d.m->set_restitution_coefficient(-0.1); }) && throws([&] { d.m->set_damping_factor(-0.1); }), "impulse-setters", "a wrong armature, restitution or damping was accepted");
  c.check(closes(d.m->get_restitution_coefficient(), d.e, 0) && closes(d.m->get_damping_factor(), d.damping, 0) && same(d.m->get_armature(), d.armature), "impulse-refused", "a refused setter changed the model");
  c.state(mc::hash_mat(mc::hash_mat(terminal, x), data->Fx));
  c.outcome(mc::strf("%s %s", d.r.name, terminal ? "terminal" : "running"));
}

int main(int argc, char** argv) {
  mc::Explorer e;
  e.add("explore", explore);
  e.add("rest", rest);
  e.add("histories", histories);
  e.add("effort", effort);
  e.add("sizes", sizes);
  e.add("casts", casts);
  e.add("impulses", impulses);
  return e.main(argc, argv);
}
