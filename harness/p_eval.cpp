// C12: evaluating a shooting problem is evaluating its nodes, in any order of calls.
#include "nodes.hpp"
using namespace crocoddyl;
typedef std::vector<Vec> Vs;

static Vec point(StateP s, int k, int i) {
  if (s->get_nx() == 3) return CurvedState::point(0.4 * k - 0.7 * i, 0.3 + 0.5 * i - 0.2 * k);
  return Gen(91 + 7 * k + i).vec(s->get_nx());
}

static void evaluate(mc::Ctx& c) {
  Quiet quiet;
  StateP s = std::make_shared<CurvedState>();
  const int T = 1 + c.choose(c.thorough ? 4 : 3, "horizon");
  std::vector<ActP> models;
  std::string kinds;
  const int menu = T == 1 ? NODE_KINDS : T == 2 ? 6 : T == 3 ? 4 : 3;
  for (int i = 0; i < T; ++i) {
    const int k = c.choose(menu + (i ? 1 : 0), "node");
    if (k == menu)
      models.push_back(models[0]);  // the same object at two nodes
    else
      models.push_back(make_node(k, s, 5 + i));
    kinds += std::string(k == menu ? "=node 0" : node_name(k)) + "; ";
  }
  const int tk = c.choose(3, "terminal");
  ActP term = tk == 2 ? models[0] : make_node(tk == 0 ? 2 : 3, s, 40);
  c.op("T=%d: %s terminal %d", T, kinds.c_str(), tk);
  const Vec x0 = point(s, 1, 0);
  std::shared_ptr<ShootingProblem> p = std::make_shared<ShootingProblem>(x0, models, term);
  const int how = c.choose(3, "constructor");
  if (how) {  // with data given, or copied
    std::vector<ActD> ds;
    bool ok = true;
    for (auto& m : models) ds.push_back(m->createData()), ok = ok && m->checkData(ds.back());
    if (how == 1 && !ok) c.prune();
    ActD td = term->createData();
    if (how == 1) {
      p = std::make_shared<ShootingProblem>(x0, models, term, ds, td);
      for (int i = 0; i < T; ++i) CHECK(c, p->get_runningDatas()[i] == ds[i], "given-data", "node %d does not use the data given", i);
      CHECK(c, p->get_terminalData() == td, "given-data", "the terminal node does not use the data given");
    } else {
      std::shared_ptr<ShootingProblem> q = p;
      p = std::make_shared<ShootingProblem>(*q);
    }
    CHECK(c, !p->is_updated(), "updated", "a newly built problem says it was edited");
    CHECK(c, p->get_nthreads() == 1, "nthreads", "a newly built problem has %zu threads without multi-threading", p->get_nthreads());
  }
  std::vector<ActD> alone;
  for (auto& m : models) alone.push_back(m->createData());
  ActD talone = term->createData();
  const int depth = c.thorough ? 3 : (T == 1 ? 3 : 2);
  int traj = 0;
  bool fresh = false;  // the last evaluation was at this trajectory
  bool evaluated = false;
  for (int st = 0; st < depth; ++st) {
    const int op = c.choose(6, "operation");
    if (op == 4 && !evaluated) c.prune();
    if (op < 4) traj = op == 1 ? 1 : op == 0 ? 0 : 2;
    if (op == 4 && (!fresh || c.flip("elsewhere"))) traj = 3, fresh = false;  // whatever the nodes do then, they do here
    evaluated = evaluated || op < 4;
    Vs xs, us;
    for (int i = 0; i <= T; ++i) xs.push_back(point(s, i, traj));
    for (int i = 0; i < T; ++i) us.push_back(Gen(13 * traj + i).vec(models[i]->get_nu()));
    double sum = 0;
    if (op == 0 || op == 1) {
      c.op("calc(trajectory %d)", traj);
      const double r = p->calc(xs, us);
      for (int i = 0; i < T; ++i) models[i]->calc(alone[i], xs[i], us[i]), sum += alone[i]->cost;
      term->calc(talone, xs[T]);
      sum += talone->cost;
      CHECK(c, closes(r, sum, 1e-13), "calc-cost", "calc returned %.17g, the sum of the node costs is %.17g", r, sum);
      fresh = true;
    } else if (op == 2 || op == 3) {
      c.op("%s", op == 2 ? "rollout" : "rollout_us");
      Vs got(T + 1, Vec::Constant(3, -77));
      if (op == 2)
        p->rollout(us, got);
      else
        got = p->rollout_us(us);
      Vec x = x0;
      for (int i = 0; i < T; ++i) {
        CHECK(c, same(got[i], x), "rollout", "rolled-out state %d is %s, expected %s", i, show(got[i]).c_str(), show(x).c_str());
        models[i]->calc(alone[i], x, us[i]);
        x = alone[i]->xnext;
      }
      CHECK(c, same(got[T], x), "rollout", "rolled-out state %d is %s, expected %s", T, show(got[T]).c_str(), show(x).c_str());
      term->calc(talone, x);
      fresh = false;
    } else if (op == 4) {
      c.op("calcDiff(trajectory %d)", traj);
      const double r = p->calcDiff(xs, us);
      for (int i = 0; i < T; ++i) models[i]->calcDiff(alone[i], xs[i], us[i]), sum += alone[i]->cost;
      term->calcDiff(talone, xs[T]);
      sum += talone->cost;
      CHECK(c, closes(r, sum, 1e-13) || (r != r && sum != sum), "calcDiff-cost", "calcDiff returned %.17g, the sum of the node costs is %.17g", r, sum);
    } else {
      const bool guess = c.flip("initial guess");
      c.op("quasiStatic%s", guess ? " (with a guess)" : "_xs");
      Vs q(xs.begin(), xs.end() - 1), u0, u1;
      for (auto& x : q) x[2] = 0;  // at rest
      for (int i = 0; i < T; ++i) u0.push_back(guess ? us[i] : Vec(Vec::Zero(models[i]->get_nu())));
      u1 = u0;
      if (guess)
        p->quasiStatic(u0, q);
      else
        u0 = p->quasiStatic_xs(q);
      for (int i = 0; i < T; ++i) {
        models[i]->quasiStatic(alone[i], u1[i], q[i]);
        CHECK(c, same(u0[i], u1[i]), "quasistatic", "node %d: %s, alone %s", i, show(u0[i]).c_str(), show(u1[i]).c_str());
      }
      fresh = false;
    }
    for (int i = 0; i < T; ++i) {
      const std::string d = diff_data(*p->get_runningDatas()[i], *alone[i]);
      CHECK(c, d.empty(), "node", "node %d (%s): %s", i, kinds.c_str(), d.c_str());
      c.state(hash_data(i, *alone[i]));
    }
    const std::string d = diff_data(*p->get_terminalData(), *talone);
    CHECK(c, d.empty(), "terminal", "terminal node: %s", d.c_str());
  }
}

// The quasi-static controls keep a system with enough controls at rest.
static void quasistatic(mc::Ctx& c) {
  const int n = 1 + c.choose(3, "state dimension"), extra = c.choose(2, "extra controls"), seed = c.choose(6, "dynamics");
  const long nx = 2 * n, nu = nx + extra;
  Gen g(50 + seed);
  Mat A = g.mat(nx, nx), B = g.mat(nx, nu), Q = g.spd(nx), R = g.spd(nu), N = Mat::Zero(nx, nu);
  Vec f = g.vec(nx), q = g.vec(nx), r = g.vec(nu);
  ActionModelLQR m(A, B, Q, R, N, f, q, r);
  ActD d = m.createData();
  Vec x = g.vec(nx), u = c.flip("guess") ? g.vec(nu) : Vec(Vec::Zero(nu));
  x.tail(n).setZero();
  Vec u1 = u;
  m.quasiStatic(d, u1, x);
  Vec y = A * x + B * u1 + f;
  c.op("LQR nx=%ld nu=%ld", nx, nu);
  CHECK(c, close(y, x, 1e-7), "rest", "next state %s from %s with the quasi-static control", show(y).c_str(), show(x).c_str());
  c.state(mc::hash_mat(1, u1));
  if (u.isZero()) CHECK(c, same(m.quasiStatic_x(d, x), u1), "quasiStatic_x", "quasiStatic_x differs from quasiStatic started at zero");
}

// A differential model that leaves the terminal node and the quasi-static control to the library.
struct PlainDAct : TDAct {
  using TDAct::TDAct;
  void calc(const std::shared_ptr<D>& d, const CRef& x, const CRef& u) override { TDAct::calc(d, x, u); }
  void calc(const std::shared_ptr<D>& d, const CRef& x) override { Base::calc(d, x); }
  void calcDiff(const std::shared_ptr<D>& d, const CRef& x, const CRef& u) override { TDAct::calcDiff(d, x, u); }
  void calcDiff(const std::shared_ptr<D>& d, const CRef& x) override { Base::calcDiff(d, x); }
};

static void plain(mc::Ctx& c) {
  const int n = 1 + c.choose(3, "degrees of freedom"), seed = c.choose(4, "model"), order = c.choose(3, "terminal first, last or between");
  TDAct::Spec p;
  p.nu = c.choose(4, "controls");
  p.nu = p.nu ? n - 2 + p.nu : 0;  // none, one too few, enough, one more
  p.seed = 17 + 5 * seed, p.e = c.flip("curved") ? 0.2 : 0.;
  p.ng = p.ng_T = 1, p.nh = p.nh_T = 1;
  StateP s = std::make_shared<StateVector>(2 * n);
  PlainDAct m(s, p);
  std::shared_ptr<DifferentialActionDataAbstract> d = m.createData(), e = m.createData();
  Gen g(90 + seed);
  Vec x = g.vec(2 * n), u = c.flip("guess") ? Vec(0.3 * g.vec(p.nu)) : Vec(Vec::Zero(p.nu)), zero = Vec::Zero(p.nu);
  c.op("n=%d nu=%ld e=%g", n, p.nu, p.e);
  for (int k = 0; k < 3; ++k) {
    if (k == order) {
      m.calc(d, x), m.calcDiff(d, x);
      m.calc(e, x, zero), m.calcDiff(e, x, zero);
    } else {
      Vec w = g.vec(p.nu);
      m.calc(d, x, w), m.calcDiff(d, x, w);
      m.calc(e, x, w), m.calcDiff(e, x, w);
    }
    CHECK(c, same(d->xout, e->xout) && d->cost == e->cost && same(d->g, e->g) && same(d->h, e->h) && same(d->Fx, e->Fx) && same(d->Fu, e->Fu) && same(d->Lx, e->Lx) && same(d->Lxx, e->Lxx) && same(d->Gx, e->Gx) && same(d->Hx, e->Hx),
          "plain-terminal", "a terminal node the model does not define is not the node at zero controls");
    const double want = m.l.val(zof(s, x), zero);
    if (k == order) CHECK(c, closes(d->cost, want, 1e-12), "plain-terminal-cost", "cost %.12g, expected %.12g", d->cost, want);
  }
  x.tail(n).setZero();
  Vec u1 = u;
  const bool few = c.flip("few iterations");
  m.quasiStatic(d, u1, x, few ? 2 : 100, 1e-12);
  const Vec a = m.f.val(zof(s, x), u1), a0 = m.f.val(zof(s, x), u);
  if (p.nu == 0) CHECK(c, u1.size() == 0, "plain-empty", "controls appeared");
  if (p.nu >= n && !few) {
    CHECK(c, close(a, Vec(Vec::Zero(n)), 1e-7), "plain-rest", "acceleration %s at the quasi-static control %s", show(a).c_str(), show(u1).c_str());
  } else if (p.nu > 0) {
    // the iteration of the definition
    Vec w = u;
    for (int i = 0; i < (few ? 2 : 100); ++i) {
      const Vec dw = -m.f.Ju(zof(s, x), w).completeOrthogonalDecomposition().pseudoInverse() * m.f.val(zof(s, x), w);
      w += dw;
      if (dw.norm() <= 1e-12) break;
    }
    if (few || p.e == 0) CHECK(c, close(u1, w, 1e-7), "plain-iterates", "quasi-static control %s, expected %s", show(u1).c_str(), show(w).c_str());
  }
  Vec z = zero;
  m.quasiStatic(d, z, x);
  const Vec y = m.quasiStatic_x(e, x);
  CHECK(c, same(y, z), "plain-quasiStatic_x", "quasiStatic_x %s differs from quasiStatic started at zero %s", show(y).c_str(), show(z).c_str());
  c.state(mc::hash_mat(3, u1));
}

int main(int argc, char** argv) {
  mc::Explorer e;
  e.add("evaluate", evaluate);
  e.add("quasistatic", quasistatic);
  e.add("plain", plain);
  return e.main(argc, argv);
}
