// C37: the quadruped gait generator.  Every node of every generated problem is evaluated, and its cost, its dynamics
// and what it holds are compared with the walk that was asked for.
#include "dyn.hpp"
#include "crocoddyl/multibody/utils/quadruped-gaits.hpp"
using namespace crocoddyl;
enum Foot { LF, RF_, LH, RH };
static const char* FOOT[] = {"lf_foot", "rf_foot", "lh_foot", "rh_foot"};

static Robot quadruped(bool reversed) {  // reversed: the feet's frames in another order
  Robot r;
  r.name = "quadruped", r.floating = true, r.planar = false;
  auto m = std::make_shared<pin::Model>();
  const auto b = m->addJoint(0, pin::FREE_FLYER, 0, pin::SE3::Identity(), "root_joint", body(6., 0.02, 0.01, -0.03, 21));
  r.frames.assign(4, 0);
  for (int i = 0; i < 4; ++i) {
    const int f = reversed ? 3 - i : i;
    const double x = f == LF || f == RF_ ? 0.3 : -0.3, y = f == LF || f == LH ? 0.2 : -0.2;
    const std::string n = FOOT[f];
    const auto h = m->addJoint(b, pin::REVOLUTE, 1, at(x, y, -0.05, 0.05, 0.1, 0), n + "_hip", body(0.5, 0.01, 0.01, -0.1, 22 + f));
    const auto k = m->addJoint(h, pin::REVOLUTE, 1, at(0.02, 0.01, -0.22, 0, -0.2, 0.05), n + "_knee", body(0.3, 0, 0.01, -0.08, 26 + f));
    r.frames[f] = m->addFrame(n, k, at(0.01, 0, -0.2, 0.1, 0.2, 0.3));
  }
  limits(*m);
  r.model = m;
  r.state = std::make_shared<StateMultibody>(m);
  Vec q = r.state->zero().head(m->nq);
  q(2) = 0.45;
  for (int i = 7; i < m->nq; ++i) q(i) = i % 2 ? 0.5 : -0.9;
  m->referenceConfigurations["standing"] = q;
  return r;
}
struct Node {
  bool impact;
  double dt;
  std::vector<int> support;
  int swing;       // -1: none
  V3 foot, com;    // references
  bool has_com;
  double footw;
};
static V3 footAt(const Robot& r, const Vec& x, int f) { return motion(r, x, Vec::Zero(r.model->nv), r.frames[f]).M.p; }
static V3 comAt(const Robot& r, const Vec& x) {
  const long nq = r.model->nq, nv = r.model->nv;
  const auto k = pin::kin<double, double>(*r.model, Vec(x.head(nq)), Vec(Vec::Zero(nv)), Vec(Vec::Zero(nv)), Vec(Vec::Zero(nv)));
  V3 c = V3::Zero();
  double M = 0;
  for (int i = 1; i < r.model->njoints; ++i) {
    const auto& I = r.model->inertias[i];
    c += I.mass * (k.oMi[i].R * I.lever + k.oMi[i].p), M += I.mass;
  }
  return c / M;
}
struct Ask {
  double L, H, dt;
  int knots, support;
};
static std::vector<int> others(int f) {
  std::vector<int> o;
  for (int i = 0; i < 4; ++i)
    if (i != f) o.push_back(i);
  return o;
}
static std::vector<Node> walk(const Robot& r, const Vec& x0, const Ask& a, bool first) {
  std::vector<Node> w;
  V3 com = V3::Zero();
  for (int f = 0; f < 4; ++f) com += footAt(r, x0, f) / 4;
  com(2) = comAt(r, x0)(2);
  auto stand = [&] {
    for (int i = 0; i < a.support; ++i) w.push_back(Node{false, a.dt, {0, 1, 2, 3}, -1, V3::Zero(), V3::Zero(), false, 0.});
  };
  auto step = [&](int f, double L) {
    const V3 p = footAt(r, x0, f);
    const int half = a.knots / 2;
    V3 t = V3::Zero();
    for (int k = 0; k < a.knots; ++k) {
      const double s = double(k + 1) / a.knots, h = k < half ? a.H * k / half : k == half ? a.H : a.H * (1 - double(k - half) / half);
      t = p + V3(L * s, 0, h);
      w.push_back(Node{false, a.dt, others(f), f, t, com + V3(L * s / 4, 0, 0), true, 1e6});
    }
    w.push_back(Node{true, 0., others(f), a.knots ? f : -1, t, V3::Zero(), false, 1e7});
    com += V3(L / 4, 0, 0);
  };
  stand();
  step(RH, first ? a.L / 2 : a.L);
  step(RF_, first ? a.L / 2 : a.L);
  stand();
  step(LH, a.L);
  step(LF, a.L);
  return w;
}
// rows: the linear velocities of the feet's origins in world axes
static Mat jac(const Robot& r, const Vec& x, const std::vector<int>& feet) {
  static std::vector<std::tuple<pin::FrameIndex, Vec, std::vector<int>, Mat>> seen;
  for (auto& k : seen)
    if (std::get<0>(k) == r.frames[0] && std::get<1>(k) == x && std::get<2>(k) == feet) return std::get<3>(k);
  const long nv = r.model->nv;
  Mat J(3 * feet.size(), nv);
  for (std::size_t i = 0; i < feet.size(); ++i)
    for (long c = 0; c < nv; ++c) {
      Vec y = x;
      y.tail(nv) = Vec::Unit(nv, c);
      const Motion6 m = motion(r, y, Vec::Zero(nv), r.frames[feet[i]]);
      J.block(3 * i, c, 3, 1) = m.M.R * m.v.head(3);
    }
  seen.emplace_back(r.frames[0], x, feet, J);
  return J;
}
static Vec costs(const Robot& r, const Vec& ref, const Node& n, const Vec& x, const Vec& u, bool pseudo) {
  const long nv = r.model->nv;
  Vec dx(2 * nv), w(2 * nv);
  r.state->diff(ref, x, dx);
  if (n.impact && !pseudo) {
    w.head(6).setOnes();
    w.segment(6, nv - 6).setConstant(100);
    w.tail(nv).setConstant(100);
  } else {
    w.head(3).setZero();
    w.segment(3, 3).setConstant(250000);
    w.segment(6, nv - 6).setConstant(1e-4);
    w.segment(nv, 6).setConstant(100);
    w.tail(nv - 6).setConstant(n.impact ? 100. : 1.);
  }
  double c = 10 * 0.5 * (w.array() * dx.array().square()).sum();
  if (!n.impact || pseudo) c += (n.impact ? 1e-3 : 0.1) * 0.5 * u.squaredNorm();
  if (n.has_com) c += 1e6 * 0.5 * (comAt(r, x) - n.com).squaredNorm();
  if (n.swing >= 0) {
    c += n.footw * 0.5 * (footAt(r, x, n.swing) - n.foot).squaredNorm();
    if (pseudo) c += 1e6 * 0.5 * motion(r, x, Vec::Zero(nv), r.frames[n.swing]).v.squaredNorm();
  }
  return Vec::Constant(1, c);
}
static void judge(mc::Ctx& c, const std::string& where, const Robot& r, const Vec& ref, const Node& n, const std::shared_ptr<ActionModelAbstract>& m, const Vec& x, const Vec& u_, bool pseudo = false) {
  const long nv = r.model->nv, nq = r.model->nq;
  const bool jump = n.impact && !pseudo;
  c.check((long)m->get_nu() == (jump ? 0 : nv - 6), "nu", where + mc::strf(": %d controls", (int)m->get_nu()));
  const Vec u = jump ? Vec() : u_;
  const auto d = m->createData();
  m->calc(d, x, u);
  // (an Euler node weighs its cost by its time step: a pseudo impact has none and counts as a terminal node only)
  const double want = costs(r, ref, n, x, u, pseudo)(0) * (jump ? 1. : n.dt), end = costs(r, ref, n, x, Vec(Vec::Zero(u.size())), pseudo)(0);
  c.check(closes(d->cost, want, 1e-8), "cost", where + mc::strf(": cost %.12g, that of the walk asked for is %.12g", d->cost, want));
  const auto dT = m->createData();
  m->calc(dT, x);
  c.check(closes(dT->cost, end, 1e-8), "terminal-cost", where + mc::strf(": cost %.12g, that of the walk asked for is %.12g", dT->cost, end));
  const Mat J = jac(r, x, n.support);
  auto inRange = [&](const Vec& t) { return n.support.empty() ? t.norm() <= 1e-7 : (t - J.transpose() * J.transpose().colPivHouseholderQr().solve(t)).norm() <= 1e-7 * (1 + t.norm()); };
  if (jump) {
    const Vec v = d->xnext.tail(nv);
    c.check((J * v).norm() <= 1e-8 * (1 + v.norm()), "impact", where + ": a support foot moves after the impact");
    Vec x1 = x, x2 = x;  // M (v+ - v-) by linearity of the momentum: through the torques of the accelerations
    const Vec a = v - x.tail(nv), z = Vec::Zero(nv);
    c.check(inRange(invdyn(r, x, a) - invdyn(r, x, z)), "impact", where + ": the impact's impulse does not come from the support feet");
    c.check(same(Vec(d->xnext.head(nq)), Vec(x.head(nq))), "impact", where + ": the configuration jumps");
    return;
  }
  const auto e = std::static_pointer_cast<IntegratedActionDataEuler>(d)->differential;
  const Vec a = e->xout;
  for (int f : n.support) {
    const Motion6 k = motion(r, x, a, r.frames[f]);
    const V3 v = k.v.head(3), w = k.v.tail(3), acc = V3(k.a.head(3)) + w.cross(v);
    c.check((acc + 50. * v).norm() <= 1e-6 * (1 + acc.norm()), "support", where + ": " + FOOT[f] + mc::strf(" is not held (%g)", (acc + 50. * v).norm()));
  }
  Vec t = invdyn(r, x, a);
  t.tail(nv - 6) -= u;
  c.check(inRange(t), "forces", where + ": forces other than those of the support feet act");
  Vec y(x.size()), dx(2 * nv);
  const Vec vn = x.tail(nv) + a * n.dt;
  dx << vn * n.dt, a * n.dt;
  r.state->integrate(x, dx, y);
  c.check(close(d->xnext, y, 1e-9), "euler", where + ": the next state is not that of the time step");
}
static Vec initial(const Robot& r, int i) {
  Vec x(r.model->nq + r.model->nv), dx = Gen(500 + i).vec(2 * r.model->nv) * 0.1, y = x;
  x << r.model->referenceConfigurations["standing"], Vec::Zero(r.model->nv);
  if (!i) return x;
  r.state->integrate(x, dx, y);
  return y;
}
static void walks(mc::Ctx& c) {
  const Robot r = quadruped(c.flip("frames reversed"));
  SimpleQuadrupedGaitProblem gait(*r.model, FOOT[LF], FOOT[RF_], FOOT[LH], FOOT[RH]);
  const Vec ref = initial(r, 0);
  c.check(same(gait.get_defaultState(), ref), "default-state", "not the standing configuration at rest");
  const int calls = 1 + c.choose(c.thorough ? 3 : 2, "calls");
  std::vector<std::pair<std::vector<Node>, std::shared_ptr<ShootingProblem>>> made;
  std::vector<Vec> starts;
  for (int i = 0; i < calls; ++i) {
    Ask a;
    const int s = c.choose(c.thorough ? 4 : i ? 2 : 3, "length");
    a.L = s == 0 ? 0.25 : s == 1 ? -0.1 : s == 2 ? 0. : 0.7;
    a.H = c.flip("height") ? 0.15 : 0.;
    a.dt = i ? 0.02 : 0.01;
    a.knots = i && !c.thorough ? 3 : c.thorough ? c.choose(8, "step knots") : c.pick({1, 2, 3, 5, 0}, "step knots");
    a.support = i && !c.thorough ? 1 : c.pick({0, 1, 3}, "support knots");
    const Vec x0 = initial(r, i && !c.thorough ? i % 2 : c.choose(2, "start"));
    c.op("walk %g %g %d %d", a.L, a.H, a.knots, a.support);
    starts.push_back(x0);
    made.push_back({walk(r, x0, a, i == 0), gait.createWalkingProblem(x0, a.L, a.H, a.dt, a.knots, a.support)});
  }
  for (int i = 0; i < calls; ++i) {  // (earlier problems too: later ones must not change them)
    const auto& w = made[i].first;
    const auto& p = made[i].second;
    c.check(p->get_T() == w.size(), "length", mc::strf("problem %d has %d nodes, %d were asked for", i, (int)p->get_T(), (int)w.size()));
    c.check(same(p->get_x0(), starts[i]), "x0", "another initial state");
    c.check(p->get_terminalModel() == p->get_runningModels().back(), "terminal", "the terminal model is not the last one");
    for (std::size_t t = 0; t < w.size(); ++t)
      for (int k = i ? 1 : 0; k < 2; ++k) judge(c, mc::strf("problem %d node %d", i, (int)t), r, ref, w[t], p->get_runningModels()[t], initial(r, 2 + k), Gen(510 + k).vec(r.model->nv - 6));
    Vec us0 = Vec::Zero(r.model->nv - 6);
    std::vector<Vec> xs(p->get_T() + 1, starts[i]), us;
    for (auto& m : p->get_runningModels()) us.push_back(Vec::Zero(m->get_nu()));
    const double total = p->calc(xs, us);
    double sum = 0;
    for (std::size_t t = 0; t < w.size(); ++t) sum += costs(r, ref, w[t], xs[t], us[t], false)(0) * (w[t].impact ? 1. : w[t].dt);
    Node last = w.back();  // (as a terminal node)
    sum += costs(r, ref, last, xs.back(), Vec(), false)(0);
    c.check(closes(total, sum, 1e-8), "total", mc::strf("problem %d costs %.12g, the walk asked for %.12g", i, total, sum));
    c.state(mc::hash_mat(i, Mat(Mat::Constant(1, 1, total))));
  }
  c.outcome(mc::strf("%d calls", calls));
}
// the building blocks, with any support and swing feet
static void phases(mc::Ctx& c) {
  const Robot r = quadruped(false);
  SimpleQuadrupedGaitProblem gait(*r.model, FOOT[LF], FOOT[RF_], FOOT[LH], FOOT[RH]);
  const Vec ref = initial(r, 0);
  const int set = c.choose(16, "support"), swing = c.choose(5, "swing") - 1, kind = c.choose(4, "phase");
  Node n{kind != 0, 0.03, {}, swing, V3(0.1, 0.2, 0.3), V3(0.05, -0.02, 0.4), kind == 0 && c.flip("com"), kind == 0 ? 1e6 : 1e7};
  std::vector<pin::FrameIndex> feet, ids;
  std::vector<pin::SE3> task;
  for (int f = 0; f < 4; ++f)
    if (set >> f & 1) n.support.push_back(f), feet.push_back(r.frames[f]);
  if (feet.empty() && kind) c.prune();
  if (swing >= 0) ids.push_back(r.frames[swing]), task.push_back(pin::SE3(turn(0.3, 0.2, 0.1), n.foot));
  c.op("support %d swing %d phase %d", set, swing, kind);
  std::shared_ptr<ActionModelAbstract> m;
  if (kind == 0) m = gait.createSwingFootModel(n.dt, feet, n.has_com ? n.com : V3(V3::Constant(INF)), ids, task);
  else if (kind == 1) m = gait.createFootSwitchModel(feet, ids, task, false);
  else if (kind == 2) m = gait.createFootSwitchModel(feet, ids, task, true);
  else m = gait.createPseudoImpulseModel(feet, ids, task);
  if (kind) n.dt = 0.;
  for (int k = 0; k < 3; ++k) judge(c, mc::strf("point %d", k), r, ref, n, m, initial(r, 1 + k), Gen(510 + k).vec(r.model->nv - 6), kind >= 2);
  c.state(set * 64 + (swing + 1) * 8 + kind);
  c.outcome(mc::strf("phase %d", kind));
}
int main(int argc, char** argv) {
  mc::Explorer e;
  e.add("walks", walks);
  e.add("phases", phases);
  return e.main(argc, argv);
}
