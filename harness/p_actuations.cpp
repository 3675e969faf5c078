// C36: actuation models of robots.  Histories of evaluations, torque maps and changes of thrusters over two data,
// against the wrenches the thrusters exert; and the inverse dynamics on top of them.
#include "mb.hpp"
#include "crocoddyl/core/constraints/residual.hpp"
#include "crocoddyl/core/residuals/control.hpp"
#include "crocoddyl/multibody/actions/contact-invdyn.hpp"
#include "crocoddyl/multibody/actions/free-fwddyn.hpp"
#include "crocoddyl/multibody/actions/free-invdyn.hpp"
#include "crocoddyl/multibody/actuations/floating-base-thrusters.hpp"
#include "crocoddyl/multibody/actuations/floating-base.hpp"
#include "crocoddyl/multibody/actuations/full.hpp"
using namespace crocoddyl;
typedef ThrusterTpl<double> Jet;
typedef std::vector<Jet> Jets;
typedef ActuationModelFloatingBaseThrustersTpl<double> Thrusters;
typedef std::shared_ptr<ActuationModelAbstract> ActP;
typedef std::shared_ptr<ActuationDataAbstract> ActD;

static const int LAYOUTS = 9;
static int layoutSize(int k) { static const int n[LAYOUTS] = {1, 2, 2, 4, 4, 4, 6, 6, 6}; return n[k]; }
static Jets layout(int k) {
  Jets j;
  auto up = [&](double x, double y, int s) { j.push_back(Jet(at(x, y, 0.), 0.07 + 0.01 * s, s % 2 ? CW : CCW, 0.1, 5.)); };
  auto tilted = [&](double x, double y, int s) { j.push_back(Jet(at(x, y, 0.05, 0.2 + 0.1 * s, -0.3 + 0.17 * s, 0.4 * s), 0.07 + 0.01 * s, s % 2 ? CW : CCW)); };
  switch (k) {
    case 0: j.push_back(Jet(0.1, CCW, -1., 1.)); break;
    case 1: up(0.3, 0, 0), up(-0.3, 0, 1); break;
    case 2: tilted(0.3, 0, 0), tilted(-0.3, 0.1, 1); break;
    case 3: up(0.3, 0, 0), up(0, 0.3, 1), up(-0.3, 0, 2), up(0, -0.3, 3); break;
    case 4: up(0.2, 0.25, 1), up(-0.2, 0.25, 2), up(-0.2, -0.25, 3), up(0.2, -0.25, 4); break;
    case 5: tilted(0.3, 0, 0), tilted(0, 0.3, 1), tilted(-0.3, 0, 2), tilted(0, -0.3, 3); break;
    case 6: for (int s = 0; s < 6; ++s) up(0.3 * cos(s * M_PI / 3), 0.3 * sin(s * M_PI / 3), s); break;
    case 7: for (int s = 0; s < 6; ++s) tilted(0.3 * cos(s * M_PI / 3), 0.3 * sin(s * M_PI / 3), s); break;
    default: for (int s = 0; s < 6; ++s) tilted(0.1 * s, 0.2 - 0.1 * s, 5 - s); break;
  }
  return j;
}
// what the controls do: the wrench of a unit thrust at the base, and the torques of the joints behind it
static Mat effect(const Robot& r, int kind, int lay) {
  const long nv = r.model->nv;
  if (kind == 0) return Mat::Identity(nv, nv);
  if (kind == 1) {
    Mat S = Mat::Zero(nv, nv - 6);
    S.bottomRows(nv - 6).setIdentity();
    return S;
  }
  const Jets js = layout(lay);
  const long n = js.size();
  Mat W = Mat::Zero(nv, nv - 6 + n);
  for (long i = 0; i < n; ++i) {
    const V3 f = js[i].pose.R.col(2);
    W.col(i).head(3) = f;
    W.col(i).segment(3, 3) = js[i].pose.p.cross(f) + (js[i].type == CW ? 1. : -1.) * js[i].ctorque * f;
  }
  W.bottomRightCorner(nv - 6, nv - 6).setIdentity();
  return W;
}
static Mat pinv(const Mat& W) {
  Eigen::JacobiSVD<Mat> svd(W, Eigen::ComputeThinU | Eigen::ComputeThinV);
  Vec s = svd.singularValues();
  for (long i = 0; i < s.size(); ++i) s[i] = s[i] > 1e-9 ? 1. / s[i] : 0.;
  return svd.matrixV() * s.asDiagonal() * svd.matrixU().transpose();
}
static ActP build(const Robot& r, int kind, int lay) {
  if (kind == 0) return std::make_shared<ActuationModelFull>(r.state);
  if (kind == 1) return std::make_shared<ActuationModelFloatingBase>(r.state);
  return std::make_shared<Thrusters>(r.state, layout(lay));
}
struct Slot {
  ActD d;
  bool seen;  // evaluated with the current thrusters
};

static void histories(mc::Ctx& c) {
  const int kind = c.choose(3, "actuation");
  const Robot r = robot(kind ? 1 : c.choose(3, "robot"));
  int lay = kind == 2 ? c.choose(LAYOUTS, "thrusters") : 0;
  const long nv = r.model->nv;
  ActP m = build(r, kind, lay);
  Mat W = effect(r, kind, lay), P = pinv(W);
  const long nu = W.cols();
  c.check((long)m->get_nu() == nu, "nu", mc::strf("nu is %d, expected %ld", (int)m->get_nu(), nu));
  std::vector<Slot> s = {{m->createData(), true}, {m->createData(), true}};
  auto constants = [&](const ActD& d, const char* when) {
    c.check(close(d->dtau_du, W, 1e-12), "dtau_du", std::string(when) + ": dtau_du " + show(d->dtau_du) + ", expected " + show(W));
    c.check(close(d->Mtau, P, 1e-9), "Mtau", std::string(when) + ": Mtau " + show(d->Mtau) + ", expected " + show(P));
    c.check(d->dtau_dx.isZero(0.) && d->dtau_dx.rows() == nv && d->dtau_dx.cols() == 2 * nv, "dtau_dx", std::string(when) + ": dtau_dx " + show(d->dtau_dx));
    const Mat S = W * P;
    for (long k = 0; k < nv; ++k) c.check(d->tau_set[k] == (std::abs(S(k, k)) > 1e-12), "tau_set", mc::strf("%s: joint %ld is %s", when, k, d->tau_set[k] ? "actuated" : "unactuated"));
  };
  constants(s[0].d, "new data");
  const int depth = (c.thorough ? 5 : 4);
  for (int step = 0; step < depth; ++step) {
    const int op = c.choose(kind == 2 ? 9 : 8, "op");
    if (op == 0) break;
    const int i = op == 8 || op == 5 ? 0 : c.choose(2, "data");
    Slot& k = s[i];
    const Vec x = mbpoint(r, step % 3), u = Gen(40 + step).vec(nu), tau = Gen(80 + step).vec(nv);
    switch (op) {
      case 1: {
        c.op("calc(%d)", i);
        m->calc(k.d, x, u);
        k.seen = true;
        c.check(close(k.d->tau, Vec(W * u), 1e-11), "tau", "tau " + show(k.d->tau) + ", expected " + show(Vec(W * u)));
        break;
      }
      case 2: {
        c.op("calc;calcDiff(%d)", i);
        m->calc(k.d, x, u);
        m->calcDiff(k.d, x, u);
        k.seen = true;
        constants(k.d, "calcDiff");
        break;
      }
      case 3: {
        c.op("terminal calc, calcDiff(%d)", i);
        const Vec t = k.d->tau;
        const Mat J = k.d->dtau_du;
        m->calc(k.d, x);
        m->calcDiff(k.d, x);
        c.check(same(t, k.d->tau) && same(J, k.d->dtau_du), "terminal", "the terminal evaluation changed the actuation");
        break;
      }
      case 4: {
        c.op("commands(%d)", i);
        m->commands(k.d, x, tau);
        c.check(close(k.d->u, Vec(P * tau), 1e-9), "commands", "u " + show(k.d->u) + ", expected " + show(Vec(P * tau)));
        break;
      }
      case 5: {
        c.op("second data made anew");
        s[1] = {m->createData(), true};
        constants(s[1].d, "createData");
        break;
      }
      case 6: {
        c.op("torqueTransform(%d)", i);
        m->torqueTransform(k.d, x, u);
        c.check(close(k.d->Mtau, P, 1e-9), "torqueTransform", "Mtau " + show(k.d->Mtau) + ", expected " + show(P));
        break;
      }
      case 7: {
        c.op("refusals(%d)", i);
        const Vec t = k.d->tau, w = k.d->u;
        for (long e : {-1L, 1L}) {
          if (nu + e >= 0) c.check(throws([&] { m->calc(k.d, x, Vec(Vec::Ones(nu + e))); }), "calc-size", "a control of another size was accepted");
          c.check(throws([&] { m->commands(k.d, x, Vec(Vec::Ones(nv + e))); }), "commands-size", "torques of another size were accepted");
        }
        if (kind == 2) {
          Jets js = layout(lay);
          js.push_back(js[0]);
          c.check(throws([&] { std::static_pointer_cast<Thrusters>(m)->set_thrusters(js); }), "thrusters-size", "another number of thrusters was accepted");
          c.check(throws([&] { std::static_pointer_cast<Thrusters>(m)->set_thrusters(Jets()); }), "thrusters-size", "no thrusters were accepted");
        }
        c.check(same(t, k.d->tau) && same(w, k.d->u), "refused-wrote", "a refused call changed the data");
        break;
      }
      case 8: {
        std::vector<int> alike;
        for (int l = 0; l < LAYOUTS; ++l)
          if (layoutSize(l) == layoutSize(lay)) alike.push_back(l);
        lay = alike[c.choose(alike.size(), "new thrusters")];
        c.op("set_thrusters(%d)", lay);
        auto t = std::static_pointer_cast<Thrusters>(m);
        t->set_thrusters(layout(lay));
        W = effect(r, kind, lay), P = pinv(W);
        c.check(close(t->get_Wthrust(), W, 1e-12), "Wthrust", "get_Wthrust " + show(t->get_Wthrust()) + ", expected " + show(W));
        c.check(close(t->get_S(), Mat(W * P), 1e-9), "S", "get_S " + show(t->get_S()));
        bool eq = t->get_nthrusters() == (size_t)layoutSize(lay);
        const Jets js = layout(lay);
        for (size_t q = 0; eq && q < js.size(); ++q) eq = t->get_thrusters()[q] == js[q];
        c.check(eq, "get_thrusters", "the thrusters are not those set");
        for (auto& q : s) q.seen = false;
        break;
      }
    }
    uint64_t h = mc::hash_mat(0, W);
    for (auto& q : s) h = mc::hash_mat(mc::hash_mat(mc::hash_mat(mc::hash_mat(h, q.d->tau), q.d->u), q.d->dtau_du), q.d->Mtau);
    c.state(h);
  }
  c.outcome(mc::strf("%d/%d", kind, lay));
}

// dynamics on top: the motion and the torques of the forward and of the inverse dynamics belong together, and
// the inverse dynamics' constraint holds exactly for the motions that the actuation can produce
static void dynamics(mc::Ctx& c) {
  const Robot r = robot(1);
  const int kind = 1 + c.choose(2, "actuation");
  int lay = kind == 2 ? c.choose(LAYOUTS, "thrusters") : 0;
  const bool later = kind == 2 && c.flip("set after the data were made");
  const bool contact = c.flip("contact model");
  const int i = c.choose(3, "point");
  const Vec x = mbpoint(r, i);
  const long nv = r.model->nv, nq = r.model->nq;
  int first = lay;
  if (later)
    for (int l = 0; l < LAYOUTS; ++l)
      if (layoutSize(l) == layoutSize(lay)) first = (l != lay) ? l : first;
  ActP act = build(r, kind, first);
  const Mat W = effect(r, kind, lay), P = pinv(W);
  const long nu = W.cols();
  auto csum = std::make_shared<CostModelSum>(r.state, nu), isum = std::make_shared<CostModelSum>(r.state, nv);
  auto fwd = std::make_shared<DifferentialActionModelFreeFwdDynamics>(r.state, act, csum);
  std::shared_ptr<DifferentialActionModelAbstract> inv;
  long unset = 0;
  const Mat S = W * P;
  for (long k = 0; k < nv; ++k) unset += std::abs(S(k, k)) <= 1e-12;
  auto df = fwd->createData();
  if (later) std::static_pointer_cast<Thrusters>(act)->set_thrusters(layout(lay));
  const Vec u = Gen(7 + i).vec(nu);
  fwd->calc(df, x, u);
  fwd->calcDiff(df, x, u);
  // forward: M a + h = W u
  const Vec tau = invdyn(r, x, df->xout);
  c.check(close(tau, Vec(W * u), 1e-8), "forward", "torques of the motion " + show(tau) + ", of the controls " + show(Vec(W * u)));
  Mat Ms(nv, nv);
  for (long k = 0; k < nv; ++k) Ms.col(k) = invdyn(r, x, Vec::Unit(nv, k)) - invdyn(r, x, Vec::Zero(nv));
  c.check(close(df->Fu, Mat(Ms.inverse() * W), 1e-8), "forward-Fu", "Fu " + show(df->Fu) + ", expected " + show(Mat(Ms.inverse() * W)));
  // quasi-static: the best the actuation can do against gravity
  Vec us(nu);
  Vec xs = x;
  xs.tail(nv).setZero();
  auto dq = fwd->createData();
  fwd->quasiStatic(dq, us, xs, 10, 1e-9);
  const Vec g = invdyn(r, xs, Vec::Zero(nv));
  c.check(close(us, Vec(P * g), 1e-8), "quasi-static", "quasi-static control " + show(us) + ", expected " + show(Vec(P * g)));
  ActP act2 = build(r, kind, first);
  std::shared_ptr<DifferentialActionDataAbstract> di;
  bool refused = false;
  try {
    if (contact)
      inv = std::make_shared<DifferentialActionModelContactInvDynamics>(r.state, act2, std::make_shared<ContactModelMultiple>(r.state, nv), isum);
    else
      inv = std::make_shared<DifferentialActionModelFreeInvDynamics>(r.state, act2, isum);
    di = inv->createData();
    if (later) std::static_pointer_cast<Thrusters>(act2)->set_thrusters(layout(lay));
    inv->calc(di, x, Vec(df->xout));
  } catch (const std::exception&) {
    refused = true;
  }
  if (refused) {
    c.check(unset != nv - nu, "refused", mc::strf("refused although %ld of %ld joints are unactuated and nu=%ld", unset, nv, nu));
    c.outcome("refused");
    return;
  }
  c.check((long)inv->get_nh() == nv - nu, "nh", mc::strf("nh is %d", (int)inv->get_nh()));
  c.check(close(di->h, Vec(Vec::Zero(nv - nu)), 1e-8), "feasible", "the constraint at a motion the actuation produces is " + show(di->h));
  inv->calcDiff(di, x, Vec(df->xout));
  const Mat Hu = di->Hu;
  const Mat Hx = diff_x(r.state, x, [&](const Vec& y) { auto t = inv->createData(); inv->calc(t, y, Vec(df->xout)); return Vec(t->h); });
  c.check(close(di->Hx, Hx, 2e-6), "Hx", "Hx " + show(di->Hx) + ", expected " + show(Hx));
  for (int k = 0; k < (c.thorough ? 8 : 3); ++k) {
    const Vec a = Gen(60 + k + i).vec(nv);
    inv->calc(di, x, a);
    const Vec t = invdyn(r, x, a), miss = t - W * (P * t);
    c.check((miss.norm() > 1e-8) == (di->h.size() && di->h.norm() > 1e-8), "infeasible", "torques " + show(miss) + " are out of the actuation's reach, the constraint is " + show(di->h));
    const Vec h0 = di->h;
    const Mat lin = diff_u(a, [&](const Vec& b) { auto t2 = inv->createData(); inv->calc(t2, x, b); return Vec(t2->h); });
    c.check(close(Hu, lin, 2e-6), "Hu", "Hu " + show(Hu) + ", expected " + show(lin));
  }
  c.outcome(mc::strf("%d/%d", kind, lay));
}

static void refusals(mc::Ctx& c) {
  const Robot r = robot(c.choose(3, "robot"));
  const int lay = c.choose(LAYOUTS, "thrusters");
  const bool no = throws([&] { Thrusters t(r.state, layout(lay)); });
  c.check(no == !r.floating, "no-base", mc::strf("thrusters on the %s are %s", r.name, no ? "refused" : "accepted"));
  if (!no) {
    Thrusters t(r.state, layout(lay));
    Thrusters copy(t), cast = t.cast<double>();
    for (Thrusters* m : {&t, &copy, &cast}) {
      c.check(close(m->get_Wthrust(), effect(r, 2, lay), 1e-12), "copies", "Wthrust of a copy or cast " + show(m->get_Wthrust()));
      const Jets js = layout(lay);
      bool eq = m->get_thrusters().size() == js.size();
      for (size_t q = 0; eq && q < js.size(); ++q) eq = m->get_thrusters()[q] == js[q];
      c.check(eq, "copy-thrusters", "the thrusters of a copy or cast differ");
      auto d = m->createData();
      const Vec u = Gen(3).vec(m->get_nu());
      m->calc(d, mbpoint(r, 0), u);
      c.check(close(d->tau, Vec(effect(r, 2, lay) * u), 1e-11), "copy-tau", "tau " + show(d->tau));
    }
    // a changed copy leaves the original alone
    Jets back = layout(lay);
    back[0].pose = at(0.1, 0.2, 0.3, 0.4, 0.5, 0.6);
    copy.set_thrusters(back);
    c.check(close(t.get_Wthrust(), effect(r, 2, lay), 1e-12), "copy-shared", "changing a copy changed the model");
    c.check(close(Vec(copy.get_Wthrust().col(0).head(3)), Vec(back[0].pose.R.col(2)), 1e-12), "copy-set", "the copy did not follow its thrusters");
  }
  c.outcome(no ? "refused" : "accepted");
}

int main(int argc, char** argv) {
  mc::Explorer e;
  e.add("histories", histories);
  e.add("dynamics", dynamics);
  e.add("copies", refusals);
  return e.main(argc, argv);
}
